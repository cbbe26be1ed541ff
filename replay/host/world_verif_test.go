package hotswap

// Replay of contract violations on the real code. A scenario is a JSON text:
// a plugin directory (or a set of static plugins), options, and a sequence of
// host operations. Plugins are made up in-process: the content of a plugin file
// is the JSON description of its behaviour, and the standard library's plugin
// package is replaced (overlay) by a stand-in that calls plugin.FakeOpen.

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

type FieldSpec struct {
	Name  string
	Type  string // any s i m iface str
	Tag   string `json:",omitempty"`
	Anon  bool   `json:",omitempty"`
	Unexp bool   `json:",omitempty"`
}

type PSpec struct {
	V        int
	Pinned   bool        `json:",omitempty"` // Reloadable() == false
	Rel      string      `json:",omitempty"` // "" or "panic"
	Exp      string      `json:",omitempty"` // "" (nil) s i m str typednil panic
	Imp      string      `json:",omitempty"` // "" (nil) ptr struct ptrint typednil panic
	Fields   []FieldSpec `json:",omitempty"`
	Load     string      `json:",omitempty"` // "" err panic
	Init     string      `json:",omitempty"`
	Free     string      `json:",omitempty"` // "" panic
	Inv      string      `json:",omitempty"` // "" err panic
	LF, LT   []string    `json:",omitempty"`
	LFMode   string      `json:",omitempty"` // "" nil panic
	LTMode   string      `json:",omitempty"`
	Missing  []string    `json:",omitempty"`
	Mistyped []string    `json:",omitempty"`
	Vars     bool        `json:",omitempty"` // functions exported as variables
	OpenErr  bool        `json:",omitempty"`
}

type Step struct {
	Op     string            // load reload reloadcb each back advance
	Set    map[string]*PSpec `json:",omitempty"` // file base name -> new content
	Del    []string          `json:",omitempty"`
	Mkdir  []string          `json:",omitempty"`
	Dang   []string          `json:",omitempty"` // dangling symlinks
	CB     string            `json:",omitempty"` // extra callback of reloadcb: "" ok err panic nil
	MainCB string            `json:",omitempty"` // behaviour of the configured callback from now on
	Ext    string            `json:",omitempty"` // behaviour of the extension constructor
	Adv    int               `json:",omitempty"` // milliseconds
	Hold   bool              `json:",omitempty"`
}

type Scenario struct {
	Family    string
	Static    map[string]*PSpec `json:",omitempty"`
	IsStatic  bool              `json:",omitempty"`
	Whitelist []string          `json:",omitempty"`
	FreeDelay int               // milliseconds
	HasCB     bool              `json:",omitempty"`
	HasExt    bool              `json:",omitempty"`
	Steps     []Step
	Misc      []string `json:",omitempty"`
	Seed      int64    `json:",omitempty"`
}

type ExS struct {
	ID  int
	Inv string
}

func (x *ExS) M() {}

type MI interface{ M() }
type Emb struct{ Q int }

type inst struct {
	id     int
	name   string
	spec   *PSpec
	expVal interface{}
	impVal reflect.Value // pointer to struct
	impPre []interface{} // sentinels
	lf     map[string]interface{}
	lt     map[string]func() interface{}
	loadOp int
	holder []*mgr
	freed  int
	freeAt []time.Duration
	expOK  bool
	calls  map[string]int
}

type event struct {
	in   *inst
	hook string
	op   int
	at   time.Duration
	ok   bool // the hook ended normally without error
	gor  bool
}

type mgr struct {
	pm       *PluginManager
	op       int
	m        map[string]*inst // key -> instance
	notes    map[string]string
	fresh    []*inst
	replaced bool
	failed   bool
	relAt    time.Duration // time of the replacement or of the failure
	order    []string
}

type Viol struct {
	Prop, Msg string
}

type world struct {
	sc      *Scenario
	dir     string
	files   map[string]*PSpec
	dirs    map[string]bool
	dangs   map[string]bool
	sw      *PluginManagerSwapper
	mu      sync.Mutex
	events  []event
	insts   []*inst
	byPath  map[string]*inst
	opens   []*inst
	op      int
	inOp    bool
	data    interface{}
	mainCB  string
	ext     string
	extN    int
	extVals []*int
	cbs     []cbCall
	mgrs    []*mgr
	cur     *mgr
	ctr     int64
	viols   []Viol
	start   time.Time
	minFree time.Duration
	block   func(in *inst, hook string)
	initBad []string
	statics map[string]*StaticPlugin
	curBad  []string
	failsAt int
}

type cbCall struct {
	which    string
	n, o     *PluginManager
	cur      *PluginManager
	complete bool
	op       int
}

func (w *world) bad(msg string, a []interface{}, props ...string) {
	for _, p := range props {
		w.viols = append(w.viols, Viol{p, fmt.Sprintf("step %d: ", w.op) + fmt.Sprintf(msg, a...)})
	}
}

func now(w *world) time.Duration { return time.Since(w.start) }

type pErr struct{ s string }

func (e *pErr) Error() string { return e.s }

func (w *world) enter(in *inst, hook string) int {
	if w.block != nil {
		w.block(in, hook)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	in.calls[hook]++
	w.events = append(w.events, event{in: in, hook: hook, op: w.op, at: now(w)})
	if w.inOp && w.cur != nil && w.sw.Current() != w.cur.pm {
		w.curBad = append(w.curBad, hook)
	}
	if w.inOp && w.cur == nil && w.sw.Current() != nil {
		w.curBad = append(w.curBad, hook)
	}
	return len(w.events) - 1
}

func (w *world) end(i int) {
	w.mu.Lock()
	w.events[i].ok = true
	w.mu.Unlock()
}

func act(mode, what string) error {
	switch mode {
	case "err":
		return &pErr{what}
	case "panic":
		panic("boom " + what)
	case "panicerr":
		panic(&pErr{what})
	case "nilmap":
		var m map[string]int
		m["x"] = 1
	case "nilptr":
		var e *pErr
		_ = e.s
	}
	return nil
}

var fieldTypes = map[string]reflect.Type{
	"any":   reflect.TypeOf((*interface{})(nil)).Elem(),
	"s":     reflect.TypeOf((*ExS)(nil)),
	"i":     reflect.TypeOf(0),
	"m":     reflect.TypeOf(map[string]int(nil)),
	"iface": reflect.TypeOf((*MI)(nil)).Elem(),
	"str":   reflect.TypeOf(ExS{}),
}

func exportValue(kind string, id int) interface{} {
	switch kind {
	case "s":
		return &ExS{ID: id}
	case "i":
		return id + 1000
	case "m":
		return map[string]int{"id": id}
	case "str":
		return ExS{ID: id}
	case "typednil":
		return (*ExS)(nil)
	case "zero":
		return 0
	}
	return nil
}

func sentinel(kind string) interface{} {
	switch kind {
	case "any":
		return "sentinel"
	case "s", "iface":
		return &ExS{ID: -1}
	case "i":
		return -7
	case "m":
		return map[string]int{"sentinel": 1}
	case "str":
		return ExS{ID: -2}
	}
	return nil
}

func sameVal(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Map:
		return va.Pointer() == vb.Pointer()
	default:
		return a == b
	}
}

func (w *world) newInst(name string, spec *PSpec) *inst {
	w.mu.Lock()
	in := &inst{id: len(w.insts) + 1, name: name, spec: spec, calls: map[string]int{}, loadOp: w.op}
	w.insts = append(w.insts, in)
	w.mu.Unlock()
	in.lf = map[string]interface{}{}
	for _, k := range spec.LF {
		in.lf[k] = &ExS{ID: in.id}
	}
	in.lt = map[string]func() interface{}{}
	for _, k := range spec.LT {
		k := k
		in.lt[k] = func() interface{} { return fmt.Sprintf("%d/%s", in.id, k) }
	}
	if spec.LFMode == "nil" {
		in.lf = nil
	}
	if spec.LTMode == "nil" {
		in.lt = nil
	}
	in.expVal = exportValue(spec.Exp, in.id)
	if spec.Imp == "ptr" {
		var fs []reflect.StructField
		for _, f := range spec.Fields {
			sf := reflect.StructField{Name: f.Name, Type: fieldTypes[f.Type], Tag: reflect.StructTag(f.Tag)}
			if f.Anon {
				sf.Type = reflect.TypeOf(Emb{})
				sf.Name = "Emb"
				sf.Anonymous = true
			}
			if f.Unexp {
				sf.PkgPath = "x/y"
			}
			fs = append(fs, sf)
		}
		in.impVal = reflect.New(reflect.StructOf(fs))
		for i, f := range spec.Fields {
			if f.Anon {
				in.impPre = append(in.impPre, nil)
				continue
			}
			s := sentinel(f.Type)
			in.impPre = append(in.impPre, s)
			fv := in.impVal.Elem().Field(i)
			fv = reflect.NewAt(fv.Type(), fv.Addr().UnsafePointer()).Elem()
			fv.Set(reflect.ValueOf(s))
		}
	}
	return in
}

func (w *world) funcs(in *inst) map[string]interface{} {
	s := in.spec
	return map[string]interface{}{
		"Reloadable": func() bool {
			i := w.enter(in, "Reloadable")
			act(s.Rel, "Reloadable")
			w.end(i)
			return !s.Pinned
		},
		"Export": func() interface{} {
			i := w.enter(in, "Export")
			if s.Exp == "panic" {
				act("panic", "Export")
			}
			in.expOK = true
			w.end(i)
			return in.expVal
		},
		"Import": func() interface{} {
			i := w.enter(in, "Import")
			switch s.Imp {
			case "panic", "nilmap", "nilptr", "panicerr":
				act(s.Imp, "Import")
			}
			w.end(i)
			switch s.Imp {
			case "ptr":
				return in.impVal.Interface()
			case "struct":
				return ExS{}
			case "ptrint":
				return new(int)
			case "typednil":
				return (*ExS)(nil)
			}
			return nil
		},
		"OnLoad": func(data interface{}) error {
			i := w.enter(in, "OnLoad")
			if data != w.data {
				w.mu.Lock()
				w.bad("OnLoad of %s received other data than the host passed", []interface{}{in.name}, "C03")
				w.mu.Unlock()
			}
			if err := act(s.Load, "OnLoad"); err != nil {
				return err
			}
			w.end(i)
			return nil
		},
		"OnInit": func(v *vault.Vault) error {
			i := w.enter(in, "OnInit")
			w.checkInitVault(in, v)
			if v != nil && v.DataBag != nil {
				v.DataBag[fmt.Sprintf("%s#%d", in.name, in.id)] = w.op
			}
			if err := act(s.Init, "OnInit"); err != nil {
				return err
			}
			w.end(i)
			return nil
		},
		"OnFree": func() {
			i := w.enter(in, "OnFree")
			w.mu.Lock()
			in.freed++
			in.freeAt = append(in.freeAt, now(w))
			w.mu.Unlock()
			act(s.Free, "OnFree")
			w.end(i)
		},
		"InvokeFunc": func(name string, params ...interface{}) (interface{}, error) {
			w.mu.Lock()
			in.calls["InvokeFunc"]++
			w.events = append(w.events, event{in: in, hook: "InvokeFunc:" + name + fmt.Sprint(params...), op: w.op, at: now(w)})
			w.mu.Unlock()
			if err := act(s.Inv, "InvokeFunc"); err != nil {
				return nil, err
			}
			return in, nil
		},
		"HotswapLiveFuncs": func() map[string]interface{} {
			in.calls["HotswapLiveFuncs"]++
			act(s.LFMode, "LiveFuncs")
			return in.lf
		},
		"HotswapLiveTypes": func() map[string]func() interface{} {
			in.calls["HotswapLiveTypes"]++
			act(s.LTMode, "LiveTypes")
			return in.lt
		},
	}
}

var required = []string{"Export", "HotswapLiveFuncs", "HotswapLiveTypes", "Import", "InvokeFunc", "OnFree", "OnInit", "OnLoad", "Reloadable"}

// what OnInit may see: the vault must be filled with everything the fresh and
// carried-over plugins of this load register
func (w *world) checkInitVault(in *inst, v *vault.Vault) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if v == nil {
		w.bad("OnInit of %s got a nil vault", []interface{}{in.name}, "C03")
		return
	}
	for k, x := range in.lf {
		if v.LiveFuncs[k] != x {
			w.bad("OnInit of %s got a vault without its live function %s", []interface{}{in.name, k}, "C03", "C11")
		}
	}
	for k := range in.lt {
		if v.LiveTypes[k] == nil {
			w.bad("OnInit of %s got a vault without its live type %s", []interface{}{in.name, k}, "C03", "C11")
		}
	}
	for _, o := range w.insts {
		if o.loadOp == in.loadOp && o.expOK {
			for k, x := range o.lf {
				if v.LiveFuncs[k] != x {
					w.bad("OnInit of %s got a vault without the live function %s of %s", []interface{}{in.name, k, o.name}, "C03", "C11")
				}
			}
		}
	}
}

func symbolsOf(w *world, in *inst) map[string]any {
	fs := w.funcs(in)
	out := map[string]any{}
	for k, f := range fs {
		if in.spec.Vars {
			p := reflect.New(reflect.TypeOf(f))
			p.Elem().Set(reflect.ValueOf(f))
			out[k] = p.Interface()
		} else {
			out[k] = f
		}
	}
	for k, v := range in.extraSyms() {
		out[k] = v
	}
	for _, k := range in.spec.Missing {
		delete(out, k)
	}
	for _, k := range in.spec.Mistyped {
		out[k] = func(int, int) string { return "" }
	}
	return out
}

var theWorld *world

func fakeOpen(path string) (string, map[string]any, error) {
	w := theWorld
	data, err := os.ReadFile(path)
	if err != nil {
		return "", nil, err
	}
	var spec PSpec
	if err := json.Unmarshal(data, &spec); err != nil {
		return "", nil, err
	}
	if spec.OpenErr {
		return "", nil, errors.New("fake open failure")
	}
	base := filepath.Base(path)
	name := strings.TrimSuffix(base, ".so")
	if i := strings.LastIndex(name, "-"); i > 0 {
		name = name[:i]
	}
	in := w.newInst(name, &spec)
	w.mu.Lock()
	w.opens = append(w.opens, in)
	w.mu.Unlock()
	return path, symbolsOf(w, in), nil
}

// ------------------------------------------------------------------ expectations

type failure struct {
	props []string
	why   string
}

type expect struct {
	fails []failure
	empty bool
	sel   map[string]string // key -> file base name (or static name)
	carry map[string]string // key -> note
	deps  map[string][]string
	cyc   bool
}

func upperFirst(s string) bool {
	r, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(r)
}

func isNilVal(v interface{}) bool {
	if v == nil {
		return true
	}
	switch x := reflect.ValueOf(v); x.Kind() {
	case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice:
		return x.IsNil()
	}
	return false
}

func (w *world) expected(extra []string) *expect {
	e := &expect{sel: map[string]string{}, carry: map[string]string{}, deps: map[string][]string{}}
	fail := func(why string, props ...string) { e.fails = append(e.fails, failure{props, why}) }
	specs := map[string]*PSpec{} // key -> spec of the plugin in the new manager
	names := map[string]string{}
	if w.sc.IsStatic {
		sel := map[string]bool{}
		if len(w.sc.Whitelist) > 0 {
			for _, n := range w.sc.Whitelist {
				if w.sc.Static[n] == nil {
					fail("whitelist: "+n+" is not registered", "C13")
				}
				sel[n] = true
			}
		} else {
			for n := range w.sc.Static {
				sel[n] = true
			}
		}
		for n := range sel {
			if w.sc.Static[n] != nil {
				k := strings.ToLower(n)
				e.sel[k] = n
				specs[k] = w.sc.Static[n]
				names[k] = n
			}
		}
	} else {
		found := map[string]bool{}
		seen := map[string]string{}
		var all []string
		for f := range w.files {
			all = append(all, f)
		}
		for f := range w.dangs {
			all = append(all, f)
		}
		sort.Strings(all)
		for _, f := range all {
			if !strings.HasSuffix(f, ".so") {
				continue
			}
			n := strings.TrimSuffix(f, ".so")
			if len(w.sc.Whitelist) > 0 {
				ok := false
				for _, x := range w.sc.Whitelist {
					ok = ok || x == n
				}
				if !ok {
					continue
				}
				found[n] = true
			}
			k := strings.ToLower(n)
			if o, dup := seen[k]; dup && o != n {
				fail("files "+o+" and "+n+" differ only in case", "C08")
			}
			seen[k] = n
			if w.dangs[f] {
				fail("unreadable file "+f, "C01")
				continue
			}
			e.sel[k] = f
			specs[k] = w.files[f]
			names[k] = n
		}
		for _, x := range w.sc.Whitelist {
			if !found[x] {
				fail("whitelisted "+x+" is absent", "C13")
			}
		}
		if len(e.sel) == 0 && len(e.fails) == 0 {
			e.empty = true
			return e
		}
		if w.cur != nil {
			for k := range e.sel {
				if in := w.cur.m[k]; in != nil {
					if in.spec.Pinned {
						e.carry[k] = "not reloadable"
						specs[k] = in.spec
					} else if sameSpec(in.spec, specs[k]) {
						e.carry[k] = "unchanged"
						specs[k] = in.spec
					}
				}
			}
		}
	}
	var keys []string
	for k := range e.sel {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := specs[k]
		if e.carry[k] != "" {
			e.deps[k] = w.cur.m[k].depKeys()
			continue
		}
		if s.OpenErr && !w.sc.IsStatic {
			fail(k+" cannot be opened", "C01")
			continue
		}
		if len(s.Missing) > 0 {
			fail(k+" lacks required functions", "C15")
			continue
		}
		if len(s.Mistyped) > 0 && !w.sc.IsStatic {
			fail(k+" has mistyped functions", "C15")
			continue
		}
		hook := func(mode, h string) {
			switch mode {
			case "err":
				fail(h+" of "+k+" returns an error", "C03", "C01")
			case "panic", "panicerr", "nilmap", "nilptr":
				fail(h+" of "+k+" panics", "C02", "C03", "C01")
			}
		}
		hook(s.Rel, "Reloadable")
		if s.Exp == "panic" {
			hook("panic", "Export")
		}
		switch s.Imp {
		case "panic", "panicerr", "nilmap", "nilptr":
			hook("panic", "Import")
		case "struct", "ptrint":
			fail("the import object of "+k+" is not a pointer to a struct", "C06")
		case "ptr":
			for _, f := range s.Fields {
				if !f.Anon && (f.Unexp || !upperFirst(f.Name)) {
					continue
				}
				if reflect.StructTag(f.Tag).Get("hotswap") == "-" {
					continue
				}
				if f.Anon {
					fail("embedded field in the import object of "+k, "C06")
					continue
				}
				dk := strings.ToLower(f.Name)
				d, ok := specs[dk]
				if _, in := e.sel[dk]; !ok || !in {
					fail("unknown dependency "+f.Name+" of "+k, "C06")
					continue
				}
				if s.Pinned && !d.Pinned {
					fail(k+" is not reloadable, "+dk+" is", "C07")
				}
				v := exportValue(d.Exp, 0)
				if !isNilVal(v) && !reflect.TypeOf(v).AssignableTo(fieldTypes[f.Type]) {
					fail("export of "+dk+" does not fit field "+f.Name+" of "+k, "C06")
				}
				e.deps[k] = append(e.deps[k], dk)
			}
		}
		hook(s.Load, "OnLoad")
		hook(s.Init, "OnInit")
	}
	for _, k := range keys {
		s := specs[k]
		switch s.LFMode {
		case "panic":
			fail("HotswapLiveFuncs of "+k+" panics", "C02", "C01")
		case "nil":
			fail("HotswapLiveFuncs of "+k+" returns nil", "C11")
		}
		switch s.LTMode {
		case "panic":
			fail("HotswapLiveTypes of "+k+" panics", "C02", "C01")
		case "nil":
			fail("HotswapLiveTypes of "+k+" returns nil", "C11")
		}
	}
	dup := func(get func(*PSpec) []string, what string) {
		who := map[string]string{}
		for _, k := range keys {
			ns := map[string]bool{}
			for _, n := range get(specs[k]) {
				ns[n] = true
			}
			for n := range ns {
				if o, ok := who[n]; ok {
					fail("live "+what+" "+n+" is registered by "+o+" and "+k, "C11")
				}
				who[n] = k
			}
		}
	}
	dup(func(s *PSpec) []string { return s.LF }, "function")
	dup(func(s *PSpec) []string { return s.LT }, "type")
	for _, k := range keys {
		for _, d := range e.deps[k] {
			_, in := e.sel[d]
			if e.carry[k] != "" && (!in || e.carry[d] == "") {
				fail(k+" is carried over, its dependency "+d+" is not", "C07")
			}
		}
	}
	// cycle
	color := map[string]int{}
	var visit func(k string) bool
	visit = func(k string) bool {
		if color[k] == 1 {
			return true
		}
		if color[k] == 2 {
			return false
		}
		color[k] = 1
		for _, d := range e.deps[k] {
			if _, in := e.sel[d]; in && visit(d) {
				return true
			}
		}
		color[k] = 2
		return false
	}
	for _, k := range keys {
		if visit(k) {
			e.cyc = true
		}
	}
	if e.cyc {
		fail("the dependencies contain a cycle", "C05")
	}
	for _, cb := range extra {
		switch cb {
		case "err":
			fail("a reload callback returns an error", "C01")
		case "panic":
			fail("a reload callback panics", "C02", "C01")
		}
	}
	return e
}

func sameSpec(a, b *PSpec) bool {
	return string(enc(a)) == string(enc(b))
}

func enc(s *PSpec) []byte {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return b
}

func (in *inst) depKeys() []string {
	var out []string
	if in.spec.Imp != "ptr" {
		return nil
	}
	for _, f := range in.spec.Fields {
		if f.Unexp || f.Anon || !upperFirst(f.Name) || reflect.StructTag(f.Tag).Get("hotswap") == "-" {
			continue
		}
		out = append(out, strings.ToLower(f.Name))
	}
	return out
}

func newWorld(sc *Scenario, dir string) *world {
	w := &world{sc: sc, dir: dir, files: map[string]*PSpec{}, dirs: map[string]bool{}, dangs: map[string]bool{}, start: time.Now()}
	theWorld = w
	plugin.FakeOpen = fakeOpen
	opts := []Option{
		WithLogger(slog.NewDumbLogger()),
		WithFreeDelay(time.Duration(sc.FreeDelay) * time.Millisecond),
	}
	if sc.HasCB {
		opts = append(opts, WithReloadCallback(func(n, o *PluginManager) error { return w.callback("main", w.mainCB, n, o) }))
	}
	if sc.HasExt {
		opts = append(opts, WithExtensionNewer(func() interface{} {
			w.extN++
			if w.ext == "panic" {
				panic("boom ext")
			}
			p := new(int)
			w.extVals = append(w.extVals, p)
			return p
		}))
	}
	if len(sc.Whitelist) > 0 {
		opts = append(opts, WithWhitelist(sc.Whitelist...))
	}
	if sc.IsStatic {
		w.statics = map[string]*StaticPlugin{}
		for n, s := range sc.Static {
			w.statics[n] = w.staticPlugin(n, s)
		}
		opts = append(opts, WithStaticPlugins(w.statics))
	}
	w.sw = NewPluginManagerSwapper(dir, opts...)
	return w
}

// A static plugin's functions are registered once; each load makes a new
// instance of it, told apart by the load operation.
func (w *world) staticPlugin(name string, spec *PSpec) *StaticPlugin {
	cur := func() *inst {
		w.mu.Lock()
		for i := len(w.insts) - 1; i >= 0; i-- {
			if w.insts[i].name == name && (w.insts[i].loadOp == w.op || !w.inOp) {
				w.mu.Unlock()
				return w.insts[i]
			}
		}
		w.mu.Unlock()
		in := w.newInst(name, spec)
		w.mu.Lock()
		w.opens = append(w.opens, in)
		w.mu.Unlock()
		return in
	}
	get := func(sym string) interface{} { return w.funcs(cur())[sym] }
	miss := map[string]bool{}
	for _, k := range spec.Missing {
		miss[k] = true
	}
	var (
		fExport     = func() interface{} { return get("Export").(func() interface{})() }
		fLF         = func() map[string]interface{} { return get("HotswapLiveFuncs").(func() map[string]interface{})() }
		fLT         = func() map[string]func() interface{} { return get("HotswapLiveTypes").(func() map[string]func() interface{})() }
		fImport     = func() interface{} { return get("Import").(func() interface{})() }
		fInvoke     = func(n string, ps ...interface{}) (interface{}, error) {
			return get("InvokeFunc").(func(string, ...interface{}) (interface{}, error))(n, ps...)
		}
		fFree       = func() { get("OnFree").(func())() }
		fInit       = func(v *vault.Vault) error { return get("OnInit").(func(*vault.Vault) error)(v) }
		fLoad       = func(d interface{}) error { return get("OnLoad").(func(interface{}) error)(d) }
		fReloadable = func() bool { return get("Reloadable").(func() bool)() }
	)
	if miss["Export"] {
		fExport = nil
	}
	if miss["HotswapLiveFuncs"] {
		fLF = nil
	}
	if miss["HotswapLiveTypes"] {
		fLT = nil
	}
	if miss["Import"] {
		fImport = nil
	}
	if miss["InvokeFunc"] {
		fInvoke = nil
	}
	if miss["OnFree"] {
		fFree = nil
	}
	if miss["OnInit"] {
		fInit = nil
	}
	if miss["OnLoad"] {
		fLoad = nil
	}
	if miss["Reloadable"] {
		fReloadable = nil
	}
	return &StaticPlugin{Name: name, PluginFuncs: NewPluginFuncs(fExport, fLF, fLT, fImport, fInvoke, fFree, fInit, fLoad, fReloadable)}
}

func (w *world) callback(which, mode string, n, o *PluginManager) error {
	c := cbCall{which: which, n: n, o: o, cur: w.sw.Current(), op: w.op}
	w.mu.Lock()
	c.complete = true
	for _, in := range w.opens {
		if in.loadOp == w.op && in.expOK && in.calls["OnInit"] != 1 {
			c.complete = false
		}
	}
	w.cbs = append(w.cbs, c)
	w.mu.Unlock()
	return act(mode, "callback "+which)
}
