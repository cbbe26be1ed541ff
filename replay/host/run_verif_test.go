package hotswap

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"
)

func (w *world) applyDir(st *Step) {
	for _, f := range st.Del {
		os.RemoveAll(filepath.Join(w.dir, f))
		delete(w.files, f)
		delete(w.dirs, f)
		delete(w.dangs, f)
	}
	for f, s := range st.Set {
		if w.dirs[f] || w.dangs[f] {
			continue
		}
		if err := os.WriteFile(filepath.Join(w.dir, f), enc(s), 0644); err != nil {
			panic(err)
		}
		w.files[f] = s
	}
	for _, f := range st.Mkdir {
		if w.files[f] == nil && !w.dangs[f] {
			if err := os.MkdirAll(filepath.Join(w.dir, f), 0755); err == nil {
				w.dirs[f] = true
			}
		}
	}
	for _, f := range st.Dang {
		if w.files[f] == nil && !w.dirs[f] && !w.dangs[f] {
			if err := os.Symlink("/nonexistent/x", filepath.Join(w.dir, f)); err == nil {
				w.dangs[f] = true
			}
		}
	}
}

func (w *world) step(i int, st *Step) {
	w.op = i
	w.applyDir(st)
	if st.MainCB != "" {
		w.mainCB = st.MainCB
	}
	w.ext = st.Ext
	switch st.Op {
	case "load", "reload", "reloadcb":
		w.load(st)
	case "each", "back":
		w.fanout(st)
	case "advance":
		time.Sleep(time.Duration(st.Adv) * time.Millisecond)
	case "lookup":
		w.lookups()
	}
}

type caseVariants func(string) string

func (w *world) load(st *Step) {
	reload := st.Op != "load"
	var cbs []string
	if w.sc.HasCB {
		cbs = append(cbs, "main")
	}
	modes := map[string]string{"main": w.mainCB, "extra": st.CB}
	if st.Op == "reloadcb" && st.CB != "nil" {
		cbs = append(cbs, "extra")
	}
	var active []string
	for _, c := range cbs {
		active = append(active, modes[c])
	}
	exp := w.expected(active)
	if w.sc.IsStatic && reload {
		exp.fails = []failure{{[]string{"C17"}, "reload in static linking mode"}}
	}
	data := &ExS{ID: 100 + w.op}
	w.data = data
	before := w.sw.Current()
	ctr0 := w.sw.ReloadCounter()
	ev0 := len(w.events)
	cb0 := len(w.cbs)
	ext0 := len(w.extVals)
	open0 := len(w.opens)
	extN0 := w.extN
	oldCur := w.cur
	var refs0 = map[*inst]int64{}
	_ = refs0
	var det Details
	var err error
	var pan interface{}
	panicked := true
	t0 := now(w)
	w.inOp = true
	func() {
		defer func() {
			if panicked {
				pan = recover()
			}
		}()
		switch st.Op {
		case "load":
			det, err = w.sw.LoadPlugins(data)
		case "reload":
			det, err = w.sw.Reload(data)
		case "reloadcb":
			if st.CB == "nil" {
				det, err = w.sw.ReloadWithCallback(data, nil)
			} else {
				det, err = w.sw.ReloadWithCallback(data, func(n, o *PluginManager) error { return w.callback("extra", st.CB, n, o) })
			}
		}
		panicked = false
	}()
	w.inOp = false
	w.mu.Lock()
	defer w.mu.Unlock()
	t1 := now(w)
	after := w.sw.Current()
	evs := append([]event(nil), w.events[ev0:]...)
	var fresh []*inst
	for _, in := range w.opens[open0:] {
		fresh = append(fresh, in)
	}
	_ = t0
	if panicked {
		if w.ext == "panic" && w.sc.HasExt && w.extN > extN0 {
			if after != before {
				w.bad("a load that panicked changed the current manager", nil, "C01")
			}
			return // host code panicked; only the lock matters (C16)
		}
		why := ""
		if strings.Contains(fmt.Sprint(pan), "boom") || strings.Contains(fmt.Sprint(pan), "assignment to entry in nil map") {
			why = " of plugin code or a callback"
		}
		w.bad("%s propagated a panic%s: %v", []interface{}{st.Op, why, pan}, "C02", "C08")
		if after != before {
			w.bad("a load that panicked changed the current manager", nil, "C01")
		}
		w.failsAt = w.op + 1
		return
	}
	if len(w.curBad) > 0 {
		w.bad("during %s, before it succeeded, the current manager had already changed (seen from %v)", []interface{}{st.Op, w.curBad}, "C01")
		w.curBad = nil
	}
	// ---- outcome
	feats := map[string]string{"cyclic": "C05", "duplicate live": "C11", "cannot find": "C13", "rebuilt": "C07", "NOT reloadable": "C07",
		"duplicate name": "C08", "infoMap": "C08", "unknown dependency": "C06", "assignable": "C06", "anonymous": "C06", "pointer to a struct": "C06",
		"missing functions": "C15", "failed to assign": "C15", "HotswapLive": "C11", "no such file": "C13", "orderedPlugins": "C05", "reflect": "C06"}
	if err != nil && len(exp.fails) == 0 {
		props := map[string]bool{}
		for k, p := range feats {
			if strings.Contains(err.Error(), k) {
				props[p] = true
			}
		}
		if fam := famProp[w.sc.Family]; fam != "" {
			props[fam] = true
		}
		if len(props) == 0 {
			if w.sc.IsStatic {
				props["C17"] = true
			} else {
				props["C08"] = true
			}
		}
		var ps []string
		for p := range props {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		w.bad("%s failed although nothing is wrong with the plugins: %.300s", []interface{}{st.Op, err.Error()}, ps...)
	}
	if err == nil && len(exp.fails) > 0 {
		for _, f := range exp.fails {
			w.bad("%s succeeded although %s", []interface{}{st.Op, f.why}, f.props...)
		}
	}
	// ---- publication
	pub := err == nil && !exp.empty
	if err != nil && after != before {
		w.bad("%s failed (%.100s) but the current manager changed", []interface{}{st.Op, err.Error()}, "C01")
	}
	if err == nil && exp.empty && after != before {
		w.bad("nothing to load but the current manager changed", nil, "C01")
	}
	if pub && (after == before || after == nil) {
		w.bad("%s succeeded but the current manager did not change", []interface{}{st.Op}, "C01")
		return
	}
	ctr1 := w.sw.ReloadCounter()
	want := ctr0
	if reload && err == nil {
		want++
	}
	if ctr1 != want {
		w.bad("reload counter went from %d to %d after %s (err=%v)", []interface{}{ctr0, ctr1, st.Op, err != nil}, "C01")
		if w.sc.IsStatic {
			w.bad("reload counter went from %d to %d in static mode", []interface{}{ctr0, ctr1}, "C17")
		}
	}
	if w.sc.IsStatic && reload {
		if len(evs) > 0 {
			w.bad("a reload in static mode called %s", []interface{}{evs[0].hook}, "C17")
		}
		return
	}
	// ---- callbacks
	calls := w.cbs[cb0:]
	reached := len(calls) > 0
	for i, c := range calls {
		if i >= len(cbs) || c.which != cbs[i] {
			w.bad("callback call %d was %s, configured: %v", []interface{}{i, c.which, cbs}, "C01")
			continue
		}
		if i > 0 && modes[calls[i-1].which] != "" && modes[calls[i-1].which] != "ok" {
			w.bad("callback %s ran after callback %s had failed", []interface{}{c.which, calls[i-1].which}, "C01")
		}
		if c.o != before && !w.sc.IsStatic {
			w.bad("callback %s got a wrong previous manager", []interface{}{c.which}, "C01")
		}
		if c.n == nil || c.n == before || (pub && c.n != after) {
			w.bad("callback %s got a wrong new manager", []interface{}{c.which}, "C01")
		}
		if c.cur != before {
			w.bad("the new manager was published before callback %s", []interface{}{c.which}, "C01")
		}
		if !c.complete {
			w.bad("callback %s got a manager whose initialisation was not complete", []interface{}{c.which}, "C01", "C03")
		}
	}
	if pub && len(calls) != len(cbs) {
		w.bad("%s succeeded with %d callback calls, %d configured", []interface{}{st.Op, len(calls), len(cbs)}, "C01")
	}
	// ---- failing hooks and what follows them
	failed := -1
	for i, e := range evs {
		if e.hook == "OnFree" || strings.HasPrefix(e.hook, "InvokeFunc") {
			continue
		}
		if failed >= 0 {
			w.bad("%s of %s ran after %s of %s had failed", []interface{}{e.hook, e.in.name, evs[failed].hook, evs[failed].in.name}, "C03")
			break
		}
		if !e.ok {
			failed = i
		}
	}
	if failed >= 0 && reached {
		w.bad("callbacks ran although %s of %s had failed", []interface{}{evs[failed].hook, evs[failed].in.name}, "C01")
	}
	if failed >= 0 && err == nil {
		w.bad("%s of %s failed but %s returned no error", []interface{}{evs[failed].hook, evs[failed].in.name, st.Op}, "C01", "C03")
	}
	// ---- phases
	phase := map[string]int{"Reloadable": 0, "Export": 0, "Import": 1, "OnLoad": 2, "OnInit": 3}
	last := map[*inst]string{}
	prev := map[string]string{"Reloadable": "", "Export": "Reloadable", "Import": "Export", "OnLoad": "Import", "OnInit": "OnLoad"}
	cp := 0
	isFresh := map[*inst]bool{}
	for _, in := range fresh {
		isFresh[in] = true
	}
	count := map[*inst]map[string]int{}
	for _, e := range evs {
		ph, ok := phase[e.hook]
		if !ok {
			continue
		}
		if !isFresh[e.in] {
			w.bad("%s called for %s, which was not loaded by this %s", []interface{}{e.hook, e.in.name, st.Op}, "C03")
			continue
		}
		if ph < cp {
			w.bad("%s of %s ran after a later phase had begun", []interface{}{e.hook, e.in.name}, "C03")
		}
		cp = ph
		if last[e.in] != prev[e.hook] {
			w.bad("%s of %s ran after %q", []interface{}{e.hook, e.in.name, last[e.in]}, "C03")
		}
		last[e.in] = e.hook
		if count[e.in] == nil {
			count[e.in] = map[string]int{}
		}
		count[e.in][e.hook]++
		if len(e.in.spec.Missing) > 0 || (len(e.in.spec.Mistyped) > 0 && !w.sc.IsStatic) {
			w.bad("%s of %s ran although the plugin lacks required functions", []interface{}{e.hook, e.in.name}, "C15")
		}
	}
	// ---- missing functions are named
	if err != nil && len(exp.fails) == 1 && exp.fails[0].props[0] == "C15" {
		for _, f := range w.selSpecs(exp) {
			for _, m := range f.Missing {
				if !strings.Contains(err.Error(), m) {
					w.bad("the error does not name the missing function %s: %.200s", []interface{}{m, err.Error()}, "C15")
				}
			}
		}
	}
	if !pub {
		if err != nil && len(exp.fails) > 0 && !exp.empty {
			w.afterFailure(st, fresh, after, t1)
		}
		if det != nil {
			w.bad("%s published nothing but returned details %v", []interface{}{st.Op, det}, "C08")
		}
		return
	}
	if len(exp.fails) > 0 {
		w.failsAt = w.op + 1
		return // already reported
	}
	w.published(st, exp, evs, fresh, before, after, det, t1, oldCur, ext0)
}

func (w *world) selSpecs(e *expect) []*PSpec {
	var out []*PSpec
	for k, f := range e.sel {
		if e.carry[k] != "" {
			continue
		}
		if w.sc.IsStatic {
			out = append(out, w.sc.Static[f])
		} else {
			out = append(out, w.files[f])
		}
	}
	return out
}

func (w *world) afterFailure(st *Step, fresh []*inst, after *PluginManager, t1 time.Duration) {
	m := &mgr{op: w.op, failed: true, relAt: t1, m: map[string]*inst{}}
	for _, in := range fresh {
		if in.expOK {
			m.m[strings.ToLower(in.name)] = in
			m.fresh = append(m.fresh, in)
			in.holder = append(in.holder, m)
			if in.freed != 1 {
				w.bad("%s failed; OnFree of the newly loaded %s was called %d times", []interface{}{st.Op, in.name, in.freed}, "C09")
			}
		}
	}
	w.mgrs = append(w.mgrs, m)
}

func (w *world) published(st *Step, exp *expect, evs []event, fresh []*inst, before, after *PluginManager, det Details, t1 time.Duration, oldCur *mgr, ext0 int) {
	m := &mgr{pm: after, op: w.op, m: map[string]*inst{}, notes: map[string]string{}}
	byName := map[string]*inst{}
	for _, in := range fresh {
		if byName[strings.ToLower(in.name)] != nil {
			w.bad("%s was loaded twice", []interface{}{in.name}, "C08", "C03")
		}
		byName[strings.ToLower(in.name)] = in
	}
	for k := range exp.sel {
		if exp.carry[k] != "" {
			m.m[k] = oldCur.m[k]
			if byName[k] != nil {
				w.bad("%s should be carried over (%s) but was loaded afresh", []interface{}{k, exp.carry[k]}, "C08")
				w.failsAt = w.op + 1
			}
			m.notes[k] = exp.carry[k]
		} else {
			in := byName[k]
			if in == nil {
				w.bad("%s should be loaded afresh but was not", []interface{}{k}, "C08", "C13")
				w.failsAt = w.op + 1
				return
			}
			var cont *PSpec
			if w.sc.IsStatic {
				cont = w.sc.Static[exp.sel[k]]
			} else {
				cont = w.files[exp.sel[k]]
			}
			if !sameSpec(in.spec, cont) {
				w.bad("%s was not loaded from the current content of its file", []interface{}{k}, "C08")
			}
			m.m[k] = in
			m.fresh = append(m.fresh, in)
			m.notes[k] = "ok"
			for _, h := range []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit"} {
				if in.calls[h] != 1 {
					w.bad("%s of the newly loaded %s was called %d times", []interface{}{h, in.name, in.calls[h]}, "C03")
				}
			}
			if in.freed != 0 {
				w.bad("OnFree of the newly loaded %s was called", []interface{}{in.name}, "C09")
			}
		}
	}
	if w.failsAt == w.op+1 {
		return
	}
	for _, in := range fresh {
		if m.m[strings.ToLower(in.name)] != in {
			w.bad("%s was loaded although it was not selected", []interface{}{in.name}, "C13", "C08")
		}
	}
	// details
	wantDet := map[string]string{}
	for k, f := range exp.sel {
		if w.sc.IsStatic {
			wantDet[f] = "ok"
		} else {
			p := filepath.Join(w.dir, f)
			if a, e := filepath.Abs(p); e == nil {
				p = a
			}
			note := m.notes[k]
			if exp.carry[k] != "" {
				if pl := after.FindPlugin(k); pl != nil {
					p = pl.File
				}
			}
			wantDet[p] = note
		}
	}
	if !reflect.DeepEqual(map[string]string(det), wantDet) {
		ps := []string{"C08"}
		if w.sc.IsStatic {
			ps = []string{"C17", "C13"}
		}
		w.bad("details %v, expected %v", []interface{}{map[string]string(det), wantDet}, ps...)
	}
	// members
	list := after.Plugins()
	pos := map[string]int{}
	for i, p := range list {
		if p == nil {
			w.bad("nil plugin in the list", nil, "C04")
			return
		}
		k := strings.ToLower(p.Name)
		if _, dup := pos[k]; dup {
			w.bad("%s is in the plugin list twice", []interface{}{p.Name}, "C04")
		}
		pos[k] = i
		if m.m[k] == nil {
			w.bad("%s is in the plugin list but was not selected", []interface{}{p.Name}, "C04", "C08", "C13")
		}
	}
	for k := range m.m {
		if _, ok := pos[k]; !ok {
			w.bad("%s is missing from the plugin list", []interface{}{k}, "C04", "C08")
		}
		for _, v := range []string{k, strings.ToUpper(k), m.m[k].name, strings.ToUpper(k[:1]) + k[1:]} {
			p := after.FindPlugin(v)
			if p == nil {
				w.bad("FindPlugin(%q) finds nothing", []interface{}{v}, "C08")
			} else {
				func() {
					defer func() { recover() }()
					w.mu.Unlock()
					defer w.mu.Lock()
					if p.InvokeFunc != nil {
						r, e := p.InvokeFunc("who")
						if e == nil && r != m.m[k] {
							w.bad("FindPlugin(%q) yields another instance than the one %s", []interface{}{v, m.notes[k]}, "C08", "C15")
						}
					}
				}()
			}
		}
	}
	if after.FindPlugin("no such plugin") != nil {
		w.bad("FindPlugin finds a plugin that does not exist", nil, "C08")
	}
	for _, p := range list {
		k := strings.ToLower(p.Name)
		for _, d := range exp.deps[k] {
			if j, ok := pos[d]; ok && j >= pos[k] {
				w.bad("%s stands before its dependency %s", []interface{}{k, d}, "C04")
			}
		}
		var got []string
		for _, d := range p.Deps {
			got = append(got, strings.ToLower(d))
		}
		ws := append([]string(nil), exp.deps[k]...)
		sort.Strings(got)
		sort.Strings(ws)
		if strings.Join(uniq(got), ",") != strings.Join(uniq(ws), ",") {
			w.bad("recorded dependencies of %s are %v, expected %v", []interface{}{k, got, ws}, "C06", "C07")
		}
		m.order = append(m.order, k)
	}
	// hook order
	for _, h := range []string{"OnLoad", "OnInit"} {
		j := -1
		for _, e := range evs {
			if e.hook == h {
				p, ok := pos[strings.ToLower(e.in.name)]
				if ok && p < j {
					w.bad("%s did not run in list order (%s)", []interface{}{h, e.in.name}, "C04")
				}
				j = p
			}
		}
	}
	// imports
	for _, in := range m.fresh {
		if in.spec.Imp != "ptr" {
			continue
		}
		for i, f := range in.spec.Fields {
			if f.Anon {
				continue
			}
			fv := in.impVal.Elem().Field(i)
			fv = reflect.NewAt(fv.Type(), fv.Addr().UnsafePointer()).Elem()
			got := fv.Interface()
			wantV := in.impPre[i]
			if !f.Unexp && upperFirst(f.Name) && reflect.StructTag(f.Tag).Get("hotswap") != "-" {
				if d := m.m[strings.ToLower(f.Name)]; d != nil && !isNilVal(d.expVal) {
					wantV = d.expVal
				}
			}
			if !sameVal(got, wantV) {
				w.bad("field %s of the import object of %s is %v, expected %v", []interface{}{f.Name, in.name, got, wantV}, "C06")
			}
		}
	}
	// vault
	lf := map[string]interface{}{}
	lt := map[string]string{}
	for _, in := range m.m {
		for k, v := range in.lf {
			lf[k] = v
		}
		for k, v := range in.lt {
			lt[k] = v().(string)
		}
	}
	for k, v := range after.LiveFuncs {
		if lf[k] != v {
			w.bad("live function %s is bound to a wrong value", []interface{}{k}, "C11")
		}
	}
	for k := range lf {
		if _, ok := after.LiveFuncs[k]; !ok {
			w.bad("live function %s is missing", []interface{}{k}, "C11")
		}
	}
	for k, v := range after.LiveTypes {
		if v == nil || lt[k] != v() {
			w.bad("live type %s is bound to a wrong value", []interface{}{k}, "C11")
		}
	}
	for k := range lt {
		if _, ok := after.LiveTypes[k]; !ok {
			w.bad("live type %s is missing", []interface{}{k}, "C11")
		}
	}
	own := map[string]bool{}
	for _, in := range m.fresh {
		own[fmt.Sprintf("%s#%d", in.name, in.id)] = true
	}
	for k := range after.DataBag {
		if !own[k] {
			w.bad("the data bag holds %s of an earlier manager", []interface{}{k}, "C11")
		}
	}
	if before != nil && after.DataBag != nil && reflect.ValueOf(after.DataBag).Pointer() == reflect.ValueOf(before.DataBag).Pointer() {
		w.bad("the data bag is shared with the previous manager", nil, "C11")
	}
	if after.DataBag == nil || after.LiveFuncs == nil || after.LiveTypes == nil {
		w.bad("a map of the vault is nil", nil, "C11")
	}
	if w.sc.HasExt {
		if n := len(w.extVals) - ext0; n != 1 {
			w.bad("the extension constructor was called %d times", []interface{}{n}, "C11")
		}
		if len(w.extVals) > 0 && after.Extension != w.extVals[len(w.extVals)-1] {
			w.bad("the extension is not the constructed one", nil, "C11")
		}
	} else if after.Extension != nil {
		w.bad("the extension is %v without a constructor", []interface{}{after.Extension}, "C11")
	}
	for _, in := range m.m {
		in.holder = append(in.holder, m)
	}
	if oldCur != nil && !w.sc.IsStatic {
		oldCur.replaced = true
		oldCur.relAt = t1
	}
	w.mgrs = append(w.mgrs, m)
	w.cur = m
}

func uniq(a []string) []string {
	var out []string
	for i, x := range a {
		if i == 0 || x != a[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func (w *world) fanout(st *Step) {
	if w.cur == nil {
		return
	}
	ev0 := len(w.events)
	name := "fn" + fmt.Sprint(w.op)
	params := []interface{}{w.op, "p"}
	panicked := true
	var pan interface{}
	func() {
		defer func() {
			if panicked {
				pan = recover()
			}
		}()
		if st.Op == "each" {
			w.cur.pm.InvokeEach(name, params...)
		} else {
			w.cur.pm.InvokeEachBackward(name, params...)
		}
		panicked = false
	}()
	w.mu.Lock()
	defer w.mu.Unlock()
	if panicked {
		w.bad("%s propagated a panic: %v", []interface{}{st.Op, pan}, "C02", "C12")
	}
	var got []string
	for _, e := range w.events[ev0:] {
		if strings.HasPrefix(e.hook, "InvokeFunc:") {
			if w.cur.m[strings.ToLower(e.in.name)] != e.in {
				w.bad("fan-out reached an instance of %s that is not in the manager", []interface{}{e.in.name}, "C12")
			}
			if e.hook != "InvokeFunc:"+name+fmt.Sprint(params...) {
				w.bad("fan-out called %q", []interface{}{e.hook}, "C12")
			}
			got = append(got, strings.ToLower(e.in.name))
		}
	}
	want := append([]string(nil), w.cur.order...)
	if st.Op == "back" {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	if strings.Join(got, ",") != strings.Join(want, ",") {
		ps := []string{"C12"}
		if len(got) < len(want) {
			for _, k := range want {
				if w.cur.m[k].spec.Inv == "panic" {
					ps = []string{"C12", "C02"}
				}
			}
		}
		w.bad("fan-out (%s) called %v, expected %v", []interface{}{st.Op, got, want}, ps...)
	}
}

// finish: let every scheduled release happen, then judge OnFree
func (w *world) finish() {
	if w.failsAt > 0 || len(w.viols) > 0 {
		time.Sleep(1000 * time.Hour)
		return
	}
	delay := time.Duration(w.sc.FreeDelay) * time.Millisecond
	if delay < w.minFree {
		delay = w.minFree
	}
	time.Sleep(3*delay + 1000*time.Hour)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.op = len(w.sc.Steps)
	for _, in := range w.insts {
		if len(in.holder) == 0 {
			continue
		}
		alive := false
		var lastRel time.Duration
		lastReplaced := false
		for _, m := range in.holder {
			if !m.replaced && !m.failed {
				alive = true
				continue
			}
			at := m.relAt
			if m.replaced {
				at += delay
			}
			if at >= lastRel {
				lastRel = at
				lastReplaced = m.replaced
			}
		}
		if in.freed > 1 {
			w.bad("OnFree of %s was called %d times", []interface{}{in.name, in.freed}, "C09", "C10")
			continue
		}
		if alive {
			if in.freed != 0 {
				w.bad("OnFree of %s was called although a live manager still uses it", []interface{}{in.name}, "C09", "C10")
			}
			continue
		}
		if in.freed == 0 {
			ps := []string{"C09"}
			if lastReplaced {
				ps = append(ps, "C10")
			}
			panics := false
			for _, o := range w.insts {
				panics = panics || o.spec.Free == "panic"
			}
			if panics {
				ps = append(ps, "C02")
			}
			w.bad("OnFree of %s was never called although its last manager is gone", []interface{}{in.name}, ps...)
			continue
		}
		if in.freeAt[0] < lastRel {
			ps := []string{"C10"}
			held := 0
			for _, m := range in.holder {
				at := m.relAt
				if m.replaced {
					at += delay
				}
				if at > in.freeAt[0] {
					held++
				}
			}
			if len(in.holder) > 1 {
				ps = append(ps, "C09")
			}
			w.bad("OnFree of %s was called at %v, its last manager may be released no sooner than %v", []interface{}{in.name, in.freeAt[0], lastRel}, ps...)
		}
	}
	// release order
	for _, m := range w.mgrs {
		if m.pm == nil || !m.replaced {
			continue
		}
		alone := true // no other manager is released at the same moment
		for _, o := range w.mgrs {
			if o != m && (o.replaced || o.failed) && o.relAt == m.relAt {
				alone = false
			}
		}
		if !alone {
			continue
		}
		pos := map[*inst]int{}
		for i, k := range m.order {
			pos[m.m[k]] = i
		}
		last := 1 << 30
		for _, e := range w.events {
			if e.hook != "OnFree" {
				continue
			}
			lastHolder := e.in.holder
			if len(lastHolder) == 0 || lastHolder[len(lastHolder)-1] != m {
				continue
			}
			if p, ok := pos[e.in]; ok {
				if p > last {
					w.bad("release did not run in reverse order (%s)", []interface{}{e.in.name}, "C04")
				}
				last = p
			}
		}
	}
}

func (w *world) lookups() {
	if w.cur == nil {
		return
	}
	list := w.cur.pm.Plugins()
	for _, p := range list {
		checkLookup(w, p)
	}
}

type namedFn func() bool

func checkLookup(w *world, p *Plugin) {
	in := w.cur.m[strings.ToLower(p.Name)]
	syms := map[string]interface{}{}
	if !w.sc.IsStatic {
		syms = in.extraSyms()
	}
	names := []string{"", "Nope"}
	for k := range syms {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		for ti, mk := range lookupTargets {
			out := mk()
			checkOne(w, p, n, syms, out, ti)
		}
	}
}

func checkOne(w *world, p *Plugin, n string, syms map[string]interface{}, out interface{}, ti int) {
	var pre, want interface{}
	okTarget := false
	var ev reflect.Value
	if out != nil {
		v := reflect.ValueOf(out)
		if v.Kind() == reflect.Ptr && !v.IsNil() {
			okTarget = true
			ev = v.Elem()
			pre = ev.Interface()
		}
	}
	sym, exists := syms[n]
	should := false
	if okTarget && n != "" && exists {
		st := reflect.TypeOf(sym)
		if st.AssignableTo(ev.Type()) {
			should, want = true, sym
		} else if st.Kind() == reflect.Ptr && st.Elem().AssignableTo(ev.Type()) {
			should, want = true, reflect.ValueOf(sym).Elem().Interface()
		}
	}
	var err error
	var pan interface{}
	panicked := true
	func() {
		defer func() {
			if panicked {
				pan = recover()
			}
		}()
		err = p.Lookup(n, out)
		panicked = false
	}()
	desc := fmt.Sprintf("Lookup(%q, %T)", n, out)
	if panicked {
		w.bad("%s panicked: %v", []interface{}{desc, pan}, "C14")
		return
	}
	if should != (err == nil) {
		w.bad("%s returned %v", []interface{}{desc, err}, "C14")
		return
	}
	if okTarget {
		got := ev.Interface()
		if should && !lookSame(got, want) {
			w.bad("%s stored %v instead of the symbol", []interface{}{desc, got}, "C14")
		}
		if !should && !lookSame(got, pre) {
			w.bad("%s failed but touched the target", []interface{}{desc}, "C14")
		}
		if n != "" && !exists && !errors.Is(err, ErrNotExist) {
			w.bad("%s: a missing symbol is reported as %v", []interface{}{desc, err}, "C14")
		}
		if n != "" && exists && errors.Is(err, ErrNotExist) {
			w.bad("%s: an existing symbol is reported as missing", []interface{}{desc}, "C14")
		}
	}
}

func lookSame(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Func && vb.Kind() == reflect.Func {
		if va.IsNil() || vb.IsNil() {
			return va.IsNil() && vb.IsNil()
		}
		return va.Pointer() == vb.Pointer()
	}
	if va.Kind() == reflect.Map || va.Kind() == reflect.Slice {
		return va.Kind() == vb.Kind() && va.Pointer() == vb.Pointer()
	}
	return a == b
}

var (
	symInt   = 41
	symStr   = "s"
	symIface interface{} = "boxed"
	symPtr   = &symInt
	symErr   error = &pErr{"e"}
	symMap   = map[string]int{"a": 1}
	symNilFn func() bool
	symSlice = []int{1}
	symExS   = &ExS{ID: 9}
)

func symFn() bool                 { return true }
func symFn2(int) (string, error) { return "", nil }

func (in *inst) extraSyms() map[string]interface{} {
	return map[string]interface{}{
		"Fn": symFn, "Fn2": symFn2, "Int": &symInt, "Str": &symStr, "Iface": &symIface, "Ptr": &symPtr,
		"Err": &symErr, "Map": &symMap, "NilFn": &symNilFn, "Slice": &symSlice, "ExS": &symExS,
	}
}

var lookupTargets = []func() interface{}{
	func() interface{} { return nil },
	func() interface{} { return 5 },
	func() interface{} { return "x" },
	func() interface{} { return (*int)(nil) },
	func() interface{} { return (*func() bool)(nil) },
	func() interface{} { return map[string]int(nil) },
	func() interface{} { return map[string]int{} },
	func() interface{} { return []int{} },
	func() interface{} { return func() {} },
	func() interface{} { return ExS{} },
	func() interface{} { return make(chan int) },
	func() interface{} { return (**int)(nil) },
	func() interface{} { x := 7; return &x },
	func() interface{} { x := int64(7); return &x },
	func() interface{} { x := "pre"; return &x },
	func() interface{} { x := func() bool { return false }; return &x },
	func() interface{} { var x namedFn; return &x },
	func() interface{} { var x func(int) (string, error); return &x },
	func() interface{} { var x interface{} = "pre"; return &x },
	func() interface{} { y := 1; x := &y; return &x },
	func() interface{} { y := 1; z := &y; x := &z; return &x },
	func() interface{} { var x error; return &x },
	func() interface{} { x := map[string]int{}; return &x },
	func() interface{} { x := []int{}; return &x },
	func() interface{} { var x MI; return &x },
	func() interface{} { var x *ExS; return &x },
	func() interface{} { var x **ExS; return &x },
	func() interface{} { x := ExS{}; return &x },
	func() interface{} { var x [3]int; return &x },
}
