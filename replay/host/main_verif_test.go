package hotswap

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// TestVerifReplay explores scenarios of the families of VERIF_PROP until
// VERIF_SECS have passed, or replays the scenario in VERIF_SCENARIO. Output
// goes to the directory VERIF_OUT: cur.json (the scenario being run), viol.json
// (a violating scenario) and stats.json.
func TestVerifReplay(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		t.Skip("no VERIF_OUT")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	dir := filepath.Join(out, "plugins")
	if f := os.Getenv("VERIF_SCENARIO"); f != "" {
		data, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var x struct{ Scenario *Scenario }
		if err := json.Unmarshal(data, &x); err != nil {
			t.Fatal(err)
		}
		vs, _ := run(t, x.Scenario, dir)
		for _, v := range vs {
			fmt.Println("VERIF", v.Prop, v.Msg)
		}
		if hit(vs, prop) != nil {
			t.Fail()
		}
		return
	}
	g := &G{r: rand.New(rand.NewSource(seed))}
	fams := families[prop]
	start := time.Now()
	var beat atomic.Int64
	go watchdog(&beat, out)
	evals, nontrivial := 0, 0
	distinct := map[uint64]bool{}
	perFam := map[string]int{}
	var sample *Scenario
	for i := 0; time.Since(start).Seconds() < secs; i++ {
		fam := fams[i%len(fams)]
		if i%4 != 0 {
			fam = fams[g.r.Intn(len(fams))]
		}
		sc := g.gen(fam)
		data, _ := json.Marshal(sc)
		os.WriteFile(filepath.Join(out, "cur.json"), data, 0644)
		beat.Store(time.Now().UnixNano())
		vs, nt := run(t, sc, dir)
		evals++
		perFam[fam]++
		h := fnv.New64a()
		h.Write(data)
		if nt && !distinct[h.Sum64()] {
			distinct[h.Sum64()] = true
			nontrivial++
			if sample == nil && len(data) < 1500 {
				sample = sc
			}
		}
		if v := hit(vs, prop); v != nil {
			sc = shrink(t, sc, prop, dir)
			vs, _ = run(t, sc, dir)
			if x := hit(vs, prop); x != nil {
				v = x
			}
			write(out, sc, v)
			break
		}
	}
	st, _ := json.Marshal(map[string]interface{}{"evaluations": evals, "distinct": nontrivial, "families": perFam, "sample": sample})
	os.WriteFile(filepath.Join(out, "stats.json"), st, 0644)
}

func write(out string, sc *Scenario, v *Viol) {
	b, _ := json.MarshalIndent(map[string]interface{}{"Scenario": sc, "Property": v.Prop, "Observed": v.Msg}, "", " ")
	os.WriteFile(filepath.Join(out, "viol.json"), b, 0644)
}

func hit(vs []Viol, prop string) *Viol {
	for i, v := range vs {
		if v.Prop == prop {
			return &vs[i]
		}
	}
	return nil
}

// watchdog: a scenario that does not end is a violation of C16 if somebody
// waits for a lock, of C05 (and the property under test) otherwise.
func watchdog(beat *atomic.Int64, out string) {
	for {
		time.Sleep(500 * time.Millisecond)
		last := beat.Load()
		if last != 0 && time.Since(time.Unix(0, last)) > 30*time.Second {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			kind := "C05"
			if strings.Contains(string(buf), "sync.(*Mutex).Lock") {
				kind = "C16"
			}
			os.WriteFile(filepath.Join(out, "hang.txt"), []byte(kind+"\n"+string(buf)), 0644)
			os.Exit(7)
		}
	}
}

func run(t *testing.T, sc *Scenario, dir string) (vs []Viol, nontrivial bool) {
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		t.Fatal(err)
	}
	if sc.Family == "conc" {
		w := newWorld(sc, dir)
		w.minFree = verifMinFree()
		w.conc()
		return w.viols, true
	}
	var w *world
	synctest.Test(t, func(*testing.T) {
		w = newWorld(sc, dir)
		w.minFree = verifMinFree()
		for i := range sc.Steps {
			w.step(i, &sc.Steps[i])
			if w.failsAt > 0 {
				break
			}
		}
		w.finish()
	})
	return w.viols, len(w.events) > 0
}

func shrink(t *testing.T, sc *Scenario, prop, dir string) *Scenario {
	if sc.Family == "conc" {
		return sc
	}
	deadline := time.Now().Add(4 * time.Second)
	try := func(c *Scenario) bool {
		if time.Now().After(deadline) {
			return false
		}
		vs, _ := run(t, c, dir)
		return hit(vs, prop) != nil
	}
	copyOf := func(s *Scenario) *Scenario {
		b, _ := json.Marshal(s)
		var c Scenario
		json.Unmarshal(b, &c)
		return &c
	}
	for again := true; again; {
		again = false
		for i := len(sc.Steps) - 1; i >= 0; i-- {
			c := copyOf(sc)
			c.Steps = append(c.Steps[:i], c.Steps[i+1:]...)
			if len(c.Steps) > 0 && try(c) {
				sc, again = c, true
			}
		}
		for k := range sc.Static {
			c := copyOf(sc)
			delete(c.Static, k)
			if try(c) {
				sc, again = c, true
			}
		}
		for i := range sc.Steps {
			for k := range sc.Steps[i].Set {
				c := copyOf(sc)
				delete(c.Steps[i].Set, k)
				if try(c) {
					sc, again = c, true
				}
			}
			for k := range sc.Steps[i].Set {
				for _, f := range []func(*PSpec) bool{
					func(s *PSpec) bool { x := len(s.LF) > 0; s.LF = nil; return x },
					func(s *PSpec) bool { x := len(s.LT) > 0; s.LT = nil; return x },
					func(s *PSpec) bool { x := len(s.Fields) > 0; s.Fields = nil; return x },
					func(s *PSpec) bool { x := s.Free != ""; s.Free = ""; return x },
					func(s *PSpec) bool { x := s.Inv != ""; s.Inv = ""; return x },
					func(s *PSpec) bool { x := s.Vars; s.Vars = false; return x },
				} {
					c := copyOf(sc)
					if c.Steps[i].Set[k] != nil && f(c.Steps[i].Set[k]) && try(c) {
						sc, again = c, true
					}
				}
			}
		}
	}
	return sc
}

// conc: two operations at once, the first one held inside plugin code (real time)
func (w *world) conc() {
	sc := w.sc
	w.applyDir(&sc.Steps[0])
	w.data = 1
	entered := make(chan struct{}, 100)
	release := make(chan struct{})
	var ops int
	holding := true
	_ = reflect.TypeOf(ops)
	w.mainCB = "ok"
	hold := sc.Misc[0]
	w.block = func(in *inst, hook string) {
		if hook == hold {
			w.mu.Lock()
			h := holding
			holding = false
			w.mu.Unlock()
			if h {
				entered <- struct{}{}
				<-release
			}
		}
	}
	cb := func(n, o *PluginManager) error {
		if hold == "callback" {
			w.mu.Lock()
			h := holding
			holding = false
			w.mu.Unlock()
			if h {
				entered <- struct{}{}
				<-release
			}
		}
		return nil
	}
	call := func(op string) (Details, error) {
		switch op {
		case "load":
			return w.sw.LoadPlugins(1)
		case "reload":
			return w.sw.Reload(1)
		}
		return w.sw.ReloadWithCallback(1, cb)
	}
	first := sc.Misc[1]
	if hold == "callback" {
		first = "reloadcb"
		if sc.IsStatic {
			hold = "OnInit"
			first = "load"
		}
	}
	doneA := make(chan error, 1)
	go func() { _, err := call(first); doneA <- err }()
	select {
	case <-entered:
	case <-time.After(5 * time.Second):
		return
	}
	w.mu.Lock()
	n0, o0 := len(w.events), len(w.opens)
	w.mu.Unlock()
	doneB := make(chan error, 1)
	go func() { _, err := call(sc.Misc[2]); doneB <- err }()
	curDone := make(chan *PluginManager, 1)
	go func() { curDone <- w.sw.Current() }()
	select {
	case pm := <-curDone:
		if pm != nil {
			w.bad("a manager is current before the first load has ended", nil, "C01", "C16")
		}
	case <-time.After(3 * time.Second):
		w.bad("Current() blocks while a load is in progress", nil, "C16")
	}
	select {
	case <-doneB:
		w.bad("a second %s ended while the first %s was in progress", []interface{}{sc.Misc[2], first}, "C16")
		doneB <- nil
	case <-time.After(25 * time.Millisecond):
	}
	w.mu.Lock()
	if len(w.events) != n0 || len(w.opens) != o0 {
		w.bad("a second %s called plugin code while the first %s was in progress", []interface{}{sc.Misc[2], first}, "C16")
	}
	w.mu.Unlock()
	close(release)
	for _, d := range []chan error{doneA, doneB} {
		select {
		case <-d:
		case <-time.After(8 * time.Second):
			w.bad("two loads at once do not both end", nil, "C16")
			return
		}
	}
}
