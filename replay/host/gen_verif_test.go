package hotswap

import (
	"fmt"
	"math/rand"
	"strings"
)

var famProp = map[string]string{"graph": "C05", "imports": "C06", "vault": "C11", "whitelist": "C13", "reload": "C08", "missing": "C15",
	"static": "C17", "rebuilt": "C07"}

// which scenario families bear on which property
var families = map[string][]string{
	"C01": {"general", "failing", "callbacks"},
	"C02": {"panics", "general", "callbacks", "fanout"},
	"C03": {"failing", "general", "graph"},
	"C04": {"graph", "general", "release"},
	"C05": {"graph"},
	"C06": {"imports"},
	"C07": {"rebuilt", "reload"},
	"C08": {"reload", "names"},
	"C09": {"release", "failing", "callbacks", "general"},
	"C10": {"release", "callbacks"},
	"C11": {"vault", "reload"},
	"C12": {"fanout"},
	"C13": {"whitelist"},
	"C14": {"lookup"},
	"C15": {"missing"},
	"C16": {"conc", "locks"},
	"C17": {"static"},
}

type G struct {
	r *rand.Rand
	n int
}

func (g *G) p(x float64) bool         { return g.r.Float64() < x }
func (g *G) pick(a ...string) string  { return a[g.r.Intn(len(a))] }
func (g *G) upto(lo, hi int) int      { return lo + g.r.Intn(hi-lo+1) }

var namePool = []string{"pa", "pb", "pc", "pd", "Pe", "pF", "p_g", "ph"}

func (g *G) names(n int) []string {
	p := g.r.Perm(len(namePool))
	var out []string
	for i := 0; i < n && i < len(p); i++ {
		out = append(out, namePool[p[i]])
	}
	return out
}

func (g *G) field(dep string) FieldSpec {
	n := strings.ToUpper(dep[:1]) + dep[1:]
	if g.p(0.2) {
		n = strings.ToUpper(dep)
	} else if g.p(0.2) {
		n = strings.ToUpper(dep[:1]) + strings.ToLower(dep[1:])
	}
	return FieldSpec{Name: n, Type: "any"}
}

// addField adds a field unless one of the same name is there
func addField(s *PSpec, f FieldSpec) {
	for _, o := range s.Fields {
		if o.Name == f.Name {
			return
		}
	}
	s.Imp = "ptr"
	s.Fields = append(s.Fields, f)
}

type opt struct {
	dag     float64 // chance of each possible edge
	anyDep  float64 // chance of an arbitrary edge (may make cycles)
	pinned  float64
	fail    float64 // chance that a plugin gets a failing hook
	panics  float64
	live    float64
	clash   float64
	inv     float64
	freeP   float64
	missing float64
	export  bool
}

func (g *G) specs(names []string, o opt) map[string]*PSpec {
	out := map[string]*PSpec{}
	for i, n := range names {
		g.n++
		s := &PSpec{V: g.n}
		s.Exp = "s"
		if o.export {
			s.Exp = g.pick("", "s", "s", "i", "m", "str", "typednil", "zero")
		}
		s.Vars = g.p(0.1)
		if g.p(o.pinned) {
			s.Pinned = true
		}
		for j := 0; j < len(names); j++ {
			if (j < i && g.p(o.dag)) || g.p(o.anyDep) {
				addField(s, g.field(names[j]))
			}
		}
		if g.p(o.fail) {
			m := g.pick("err", "panic", "panicerr", "nilmap", "nilptr")
			switch g.r.Intn(7) {
			case 0:
				s.Rel = "panic"
			case 1:
				s.Exp = "panic"
			case 2:
				s.Imp, s.Fields = "panic", nil
			case 3, 4:
				s.Load = m
			default:
				s.Init = m
			}
		}
		if g.p(o.panics) {
			switch g.r.Intn(7) {
			case 0:
				s.Rel = "panic"
			case 1:
				s.Exp = "panic"
			case 2:
				s.Imp, s.Fields = g.pick("panic", "panicerr", "nilmap", "nilptr"), nil
			case 3:
				s.Load = g.pick("panic", "panicerr", "nilmap", "nilptr")
			case 4:
				s.Init = g.pick("panic", "panicerr", "nilmap", "nilptr")
			case 5:
				s.LFMode = "panic"
			case 6:
				s.LTMode = "panic"
			}
		}
		if g.p(o.live) {
			for k := g.upto(1, 3); k > 0; k-- {
				s.LF = append(s.LF, fmt.Sprintf("live_%s_%d", n, k))
			}
		}
		if g.p(o.live) {
			for k := g.upto(1, 2); k > 0; k-- {
				s.LT = append(s.LT, fmt.Sprintf("liveT_%s_%d", n, k))
			}
		}
		if g.p(o.clash) {
			s.LF = append(s.LF, "live_shared")
		}
		if g.p(o.clash) {
			s.LT = append(s.LT, "liveT_shared")
		}
		if g.p(o.inv) {
			s.Inv = g.pick("err", "panic", "panicerr", "nilmap")
		}
		if g.p(o.freeP) {
			s.Free = g.pick("panic", "panicerr")
		}
		if g.p(o.missing) {
			for k := g.upto(1, 2); k > 0; k-- {
				s.Missing = append(s.Missing, required[g.r.Intn(len(required))])
			}
			if len(s.Missing) == 2 && s.Missing[0] == s.Missing[1] {
				s.Missing = s.Missing[:1]
			}
			if g.p(0.25) {
				s.Mistyped, s.Missing = s.Missing, nil
			}
		}
		out[n] = s
	}
	return out
}

func fileMap(m map[string]*PSpec) map[string]*PSpec {
	out := map[string]*PSpec{}
	for k, v := range m {
		out[k+".so"] = v
	}
	return out
}

func clone(s *PSpec) *PSpec {
	c := *s
	c.Fields = append([]FieldSpec(nil), s.Fields...)
	return &c
}

// mutate: change some files' content for the next reload
func (g *G) mutate(m map[string]*PSpec, closed bool) map[string]*PSpec {
	out := map[string]*PSpec{}
	ch := map[string]bool{}
	for n := range m {
		if g.p(0.4) {
			ch[strings.ToLower(n)] = true
		}
	}
	if closed { // dependants of changed plugins change too
		for again := true; again; {
			again = false
			for n, s := range m {
				k := strings.ToLower(n)
				if ch[k] {
					continue
				}
				for _, f := range s.Fields {
					if ch[strings.ToLower(f.Name)] {
						ch[k], again = true, true
					}
				}
			}
		}
	}
	for n, s := range m {
		if ch[strings.ToLower(n)] {
			c := clone(s)
			g.n++
			c.V = g.n
			out[n] = c
			m[n] = c
		}
	}
	return out
}

func (g *G) gen(family string) *Scenario {
	sc := &Scenario{Family: family, FreeDelay: []int{0, 1000, 15000, 40000, 300000}[g.r.Intn(5)]}
	firstOp := func() string { return g.pick("load", "load", "reload", "reloadcb") }
	reOp := func() string { return g.pick("reload", "reload", "load", "reloadcb") }
	n := g.upto(1, 5)
	if g.p(0.3) {
		n = g.upto(1, 2)
	}
	names := g.names(n)
	static := func(o opt) {
		sc.IsStatic = true
		sc.Static = g.specs(names, o)
	}
	adv := func() Step { return Step{Op: "advance", Adv: []int{1, 500, 2000, 16000, 50000, 400000}[g.r.Intn(6)]} }
	switch family {
	case "general", "failing", "panics", "callbacks", "release", "reload", "rebuilt", "vault", "locks":
		o := opt{dag: 0.3, live: 0.3, freeP: 0.1, pinned: 0.1}
		closed := true
		switch family {
		case "general":
			o.fail, o.panics, o.missing, o.inv, o.export = 0.04, 0.04, 0.02, 0.1, g.p(0.5)
			closed = g.p(0.7)
			if g.p(0.1) {
				o.anyDep = 0.1
			}
		case "failing":
			o.fail = 0.25
		case "panics":
			o.panics, o.freeP, o.inv = 0.25, 0.3, 0.2
		case "release":
			o.freeP = 0.2
			if g.p(0.3) {
				o.fail = 0.05
			}
		case "rebuilt":
			o.dag, o.pinned, closed = 0.35, 0.2, g.p(0.5)
		case "vault":
			o.live, o.clash = 0.7, []float64{0, 0.15, 0.3}[g.r.Intn(3)]
		case "reload":
			o.pinned = 0.3
		}
		if o.pinned > 0 && family != "rebuilt" { // keep dependencies of pinned plugins pinned
			defer func() {}()
		}
		if (family != "release" && family != "reload" && family != "rebuilt") && g.p(0.15) {
			static(o)
			g.fixPinned(sc.Static)
		}
		sc.HasCB = g.p(0.5)
		sc.HasExt = g.p(0.4)
		ok := func() string {
			if family == "callbacks" || g.p(0.1) {
				return g.pick("ok", "ok", "err", "panic")
			}
			return "ok"
		}
		specs := g.specs(names, o)
		if family != "rebuilt" {
			g.fixPinned(specs)
		}
		st := Step{Op: firstOp(), Set: fileMap(specs), CB: ok(), MainCB: ok()}
		if family == "failing" || family == "panics" || family == "callbacks" || family == "general" {
			if g.p(0.5) { // a good first version, then a bad one
				good := g.specs(names, opt{dag: o.dag, live: 0.3})
				st = Step{Op: firstOp(), Set: fileMap(good), CB: "ok", MainCB: "ok"}
				sc.Steps = append(sc.Steps, st)
				if g.p(0.5) {
					sc.Steps = append(sc.Steps, adv())
				}
				part := map[string]*PSpec{}
				for k, v := range specs {
					if g.p(0.6) || k == names[0] {
						part[k] = v
					} else {
						specs[k] = good[k]
					}
				}
				st = Step{Op: reOp(), Set: fileMap(part), CB: ok(), MainCB: ok()}
			}
		}
		if family == "locks" {
			sc.HasExt = true
		}
		sc.Steps = append(sc.Steps, st)
		for k := g.upto(1, 4); k > 0; k-- {
			if g.p(0.4) {
				sc.Steps = append(sc.Steps, adv())
			}
			if g.p(0.2) {
				sc.Steps = append(sc.Steps, Step{Op: g.pick("each", "back")})
			}
			s := Step{Op: reOp(), CB: ok(), MainCB: ok()}
			switch g.r.Intn(8) {
			case 0: // nothing changed
			case 1: // one removed
				v := names[g.r.Intn(len(names))]
				s.Del = append(s.Del, v+".so")
			case 2: // repaired
				s.Set = fileMap(g.specs(names, opt{dag: o.dag, live: 0.3, pinned: 0}))
				specs = map[string]*PSpec{}
				for f, v := range s.Set {
					specs[strings.TrimSuffix(f, ".so")] = v
				}
			default:
				s.Set = fileMap(g.mutate(specs, closed))
			}
			if family == "general" && g.p(0.05) {
				s.Dang = []string{"px.so"}
			}
			if family == "locks" && g.p(0.5) {
				s.Ext = "panic"
			}
			if family == "callbacks" && g.p(0.1) {
				s.CB = "nil"
			}
			sc.Steps = append(sc.Steps, s)
		}
		if family == "locks" {
			sc.Steps = append(sc.Steps, Step{Op: "reload"}, Step{Op: "load"})
		}
	case "graph":
		n = g.upto(1, 8)
		names = g.names(n)
		o := opt{dag: []float64{0.15, 0.3, 0.6, 0.9}[g.r.Intn(4)]}
		if g.p(0.4) {
			o.anyDep = 0.5 / float64(n)
			o.dag /= 2
		}
		o.export = false
		if g.p(0.25) {
			static(o)
		}
		specs := g.specs(names, o)
		if sc.IsStatic {
			specs = sc.Static
		}
		if g.p(0.3) { // one back edge
			a, b := names[g.r.Intn(n)], names[g.r.Intn(n)]
			addField(specs[a], g.field(b))
		}
		sc.Steps = append(sc.Steps, Step{Op: "load", Set: fileMap(specs)})
		if !sc.IsStatic && g.p(0.3) {
			sc.Steps = append(sc.Steps, Step{Op: "reload", Set: fileMap(g.mutate(specs, true))})
		}
	case "imports":
		specs := g.specs(names, opt{export: true, dag: 0.5})
		if g.p(0.3) {
			sc.IsStatic = true
		}
		types := []string{"any", "any", "s", "i", "m", "iface", "str"}
		natural := map[string]string{"s": "s", "i": "i", "m": "m", "str": "str", "zero": "i"}
		for _, a := range names {
			s := specs[a]
			for i := range s.Fields {
				if g.p(0.6) {
					s.Fields[i].Type = types[g.r.Intn(len(types))]
				}
				for b, t := range specs {
					if strings.EqualFold(b, s.Fields[i].Name) && g.p(0.75) && natural[t.Exp] != "" {
						s.Fields[i].Type = natural[t.Exp]
					}
				}
				if g.p(0.15) {
					s.Fields[i].Tag = g.pick(`hotswap:"-"`, `hotswap:"-"`, `hotswap:"x"`, `json:"-"`, `json:"a" hotswap:"-"`)
				}
			}
			if g.p(0.2) {
				addField(s, FieldSpec{Name: g.pick(names...), Type: "any"})
				f := &s.Fields[len(s.Fields)-1]
				if !upperFirst(f.Name) {
					f.Unexp = true
				}
			}
			if g.p(0.06) {
				addField(s, FieldSpec{Name: g.pick("éa", "ñb", "žc", "ḁd", "ａe"), Type: "any", Unexp: true})
			}
			if g.p(0.06) {
				addField(s, FieldSpec{Name: "_", Type: "any", Unexp: true})
			}
			if g.p(0.05) {
				addField(s, FieldSpec{Name: "Emb", Type: "any", Anon: true, Tag: g.pick("", `hotswap:"-"`)})
			}
			if g.p(0.05) {
				addField(s, FieldSpec{Name: "Nobody", Type: "any", Tag: g.pick("", "", `hotswap:"-"`)})
			}
			if g.p(0.08) {
				s.Imp, s.Fields = g.pick("struct", "ptrint", "typednil"), nil
			}
			if g.p(0.3) {
				g.r.Shuffle(len(s.Fields), func(i, j int) { s.Fields[i], s.Fields[j] = s.Fields[j], s.Fields[i] })
			}
		}
		if g.p(0.05) && !sc.IsStatic {
			// plugins whose names begin with a non-ASCII letter
			u := g.pick("éa", "ḁb", "жc")
			g.n++
			specs[u] = &PSpec{V: g.n, Exp: "s"}
			addField(specs[names[0]], FieldSpec{Name: strings.ToUpper(u[:len(u)-1]) + u[len(u)-1:], Type: "any"})
		}
		if sc.IsStatic {
			sc.Static = specs
		}
		sc.Steps = append(sc.Steps, Step{Op: "load", Set: fileMap(specs)})
		if g.p(0.4) && !sc.IsStatic {
			sc.Steps = append(sc.Steps, Step{Op: "reload", Set: fileMap(g.mutate(specs, g.p(0.7)))})
		}
	case "names":
		specs := g.specs(names, opt{dag: 0.2})
		set := fileMap(specs)
		if g.p(0.4) {
			v := names[g.r.Intn(len(names))]
			w := strings.ToUpper(v)
			if g.p(0.5) {
				w = strings.ToUpper(v[:1]) + v[1:]
			}
			g.n++
			set[w+".so"] = &PSpec{V: g.n}
		}
		if g.p(0.2) {
			g.n++
			set[g.pick("a.b", "x-y", "q.so", "Z9")+".so"] = &PSpec{V: g.n}
		}
		sc.Steps = append(sc.Steps, Step{Op: firstOp(), Set: set, CB: "ok"})
		sc.Steps = append(sc.Steps, Step{Op: reOp(), CB: "ok", Set: fileMap(g.mutate(specs, true))})
	case "fanout":
		if g.p(0.2) {
			static(opt{dag: 0.3, inv: 0.4})
		}
		sc.Steps = append(sc.Steps, Step{Op: "load", Set: fileMap(g.specs(names, opt{dag: 0.4, inv: 0.4}))})
		for k := g.upto(1, 3); k > 0; k-- {
			sc.Steps = append(sc.Steps, Step{Op: g.pick("each", "back")})
		}
	case "whitelist":
		specs := g.specs(names, opt{})
		if g.p(0.3) {
			sc.IsStatic = true
			sc.Static = specs
		}
		if g.p(0.85) {
			for k := g.upto(1, 3); k > 0; k-- {
				x := namePool[g.r.Intn(len(namePool))]
				if g.p(0.85) {
					x = names[g.r.Intn(len(names))]
				}
				if g.p(0.03) {
					x = strings.ToUpper(x)
				}
				sc.Whitelist = append(sc.Whitelist, x)
			}
		}
		set := fileMap(specs)
		if g.p(0.4) {
			g.n++
			set[g.pick("readme.txt", "so", "pz.so.bak", "px.SO", "py.dll", "pq.soo", ".hidden", "xso")] = &PSpec{V: g.n}
		}
		st := Step{Op: firstOp(), Set: set, CB: "ok"}
		if g.p(0.4) {
			st.Mkdir = []string{g.pick("dir", "dir.so", "pz.so", namePool[g.r.Intn(len(namePool))]+".so")}
		}
		sc.Steps = append(sc.Steps, st)
		s2 := Step{Op: reOp(), CB: "ok"}
		if g.p(0.6) {
			s2.Del = []string{names[g.r.Intn(len(names))] + ".so"}
		}
		if g.p(0.3) {
			s2.Del = nil
			for _, n := range names {
				s2.Del = append(s2.Del, n+".so")
			}
		}
		sc.Steps = append(sc.Steps, s2)
		if g.p(0.5) {
			g.n++
			sc.Steps = append(sc.Steps, Step{Op: reOp(), CB: "ok", Set: map[string]*PSpec{names[0] + ".so": {V: g.n}}})
		}
	case "missing":
		o := opt{dag: 0.2, missing: 0.4}
		if g.p(0.4) {
			static(o)
		}
		sc.Steps = append(sc.Steps, Step{Op: firstOp(), CB: "ok", Set: fileMap(g.specs(names, o))})
		if g.p(0.4) {
			sc.Steps = append(sc.Steps, Step{Op: reOp(), CB: "ok", Set: fileMap(g.specs(names, o))})
		}
	case "static":
		o := opt{dag: 0.3, live: 0.3, freeP: 0.1}
		if g.p(0.2) {
			o.fail = 0.1
		}
		static(o)
		if g.p(0.05) {
			sc.Static = map[string]*PSpec{}
		}
		sc.HasCB = g.p(0.3)
		sc.HasExt = g.p(0.3)
		ops := []string{"load", "reload", "reloadcb", "load", "each", "reload"}
		st := Step{Op: g.pick("load", "load", "reload"), MainCB: "ok", CB: "ok"}
		if g.p(0.5) {
			st.Set = fileMap(g.specs(g.names(2), opt{}))
		}
		sc.Steps = append(sc.Steps, st)
		for k := g.upto(1, 3); k > 0; k-- {
			sc.Steps = append(sc.Steps, Step{Op: ops[g.r.Intn(len(ops))], CB: g.pick("ok", "err", "nil")})
		}
	case "lookup":
		if g.p(0.2) {
			static(opt{})
		}
		sc.Steps = append(sc.Steps, Step{Op: "load", Set: fileMap(g.specs(g.names(1), opt{}))}, Step{Op: "lookup"})
	case "conc":
		o := opt{dag: 0.3}
		names = g.names(g.upto(1, 3))
		if g.p(0.2) {
			static(o)
		}
		sc.HasCB = true
		sc.Misc = []string{g.pick("Reloadable", "Export", "Import", "OnLoad", "OnInit", "callback"), g.pick("load", "reload", "reloadcb"), g.pick("load", "reload", "reloadcb")}
		if sc.IsStatic {
			sc.Misc[1], sc.Misc[2] = "load", "load"
		}
		sc.Steps = append(sc.Steps, Step{Op: "load", Set: fileMap(g.specs(names, o))})
	}
	return sc
}

// fixPinned: a pinned plugin depends on pinned ones only
func (g *G) fixPinned(m map[string]*PSpec) {
	for again := true; again; {
		again = false
		for _, s := range m {
			if !s.Pinned {
				continue
			}
			for _, f := range s.Fields {
				for b, t := range m {
					if strings.EqualFold(b, f.Name) && !t.Pinned {
						t.Pinned, again = true, true
					}
				}
			}
		}
	}
}
