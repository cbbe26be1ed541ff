// ssadump writes the typed SSA of the packages under verification as JSON.
//
// usage: ssadump DIR PKG... > out.json
//
// It reads DIR's working tree through go/packages and go/ssa: the dump is the
// code the compiler sees, with every instruction of every function body.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

type dumper struct {
	fset   *token.FileSet
	prog   *ssa.Program
	tids   map[types.Type]int
	types  []M
	tkeys  map[string]int
	funcs  map[string]M
	done   map[*ssa.Function]bool
	work   []*ssa.Function
	inPkg  map[*types.Package]bool
	root   string
	ext    map[string]M
	global map[string]M
}

func (d *dumper) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := d.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, d.root+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (d *dumper) typ(t types.Type) int {
	if t == nil {
		return -1
	}
	t = types.Unalias(t)
	if id, ok := d.tids[t]; ok {
		return id
	}
	key := types.TypeString(t, nil)
	if id, ok := d.tkeys[key]; ok {
		d.tids[t] = id
		return id
	}
	id := len(d.types)
	m := M{"id": id, "str": key}
	d.types = append(d.types, m)
	d.tids[t] = id
	d.tkeys[key] = id
	switch tt := t.(type) {
	case *types.Named:
		m["kind"] = "named"
		m["name"] = tt.Obj().Name()
		if p := tt.Obj().Pkg(); p != nil {
			m["pkg"] = p.Path()
			m["internal"] = d.inPkg[p]
		} else {
			m["pkg"] = ""
			m["internal"] = false
		}
		m["under"] = d.typ(tt.Underlying())
	case *types.Basic:
		m["kind"] = "basic"
		m["name"] = tt.Name()
		m["info"] = int(tt.Info())
	case *types.Pointer:
		m["kind"] = "ptr"
		m["elem"] = d.typ(tt.Elem())
	case *types.Slice:
		m["kind"] = "slice"
		m["elem"] = d.typ(tt.Elem())
	case *types.Array:
		m["kind"] = "array"
		m["elem"] = d.typ(tt.Elem())
		m["len"] = tt.Len()
	case *types.Map:
		m["kind"] = "map"
		m["key"] = d.typ(tt.Key())
		m["elem"] = d.typ(tt.Elem())
	case *types.Chan:
		m["kind"] = "chan"
		m["elem"] = d.typ(tt.Elem())
	case *types.Struct:
		m["kind"] = "struct"
		var fs []M
		for i := 0; i < tt.NumFields(); i++ {
			f := tt.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": d.typ(f.Type()), "embedded": f.Embedded(), "exported": f.Exported(), "tag": tt.Tag(i)})
		}
		m["fields"] = fs
	case *types.Interface:
		m["kind"] = "iface"
	case *types.Signature:
		m["kind"] = "func"
		m["params"] = d.tuple(tt.Params())
		m["results"] = d.tuple(tt.Results())
		m["variadic"] = tt.Variadic()
	case *types.Tuple:
		m["kind"] = "tuple"
		m["elems"] = d.tuple(tt)
	default:
		m["kind"] = fmt.Sprintf("other:%T", t)
	}
	return id
}

func (d *dumper) tuple(t *types.Tuple) []int {
	r := []int{}
	for i := 0; i < t.Len(); i++ {
		r = append(r, d.typ(t.At(i).Type()))
	}
	return r
}

func (d *dumper) need(f *ssa.Function) {
	if f == nil || d.done[f] {
		return
	}
	d.done[f] = true
	d.work = append(d.work, f)
}

func fname(f *ssa.Function) string {
	return f.String()
}

func (d *dumper) fn(f *ssa.Function) {
	name := fname(f)
	m := M{"name": name, "pos": d.pos(f.Pos()), "synthetic": f.Synthetic}
	sig := f.Signature
	m["results"] = d.tuple(sig.Results())
	m["variadic"] = sig.Variadic()
	rn := []string{}
	for i := 0; i < sig.Results().Len(); i++ {
		rn = append(rn, sig.Results().At(i).Name())
	}
	m["resultNames"] = rn
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	}
	m["pkg"] = pkg
	m["short"] = f.RelString(func() *types.Package {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		return nil
	}())
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	ids := map[ssa.Value]int{}
	next := 0
	vid := func(v ssa.Value) int {
		if id, ok := ids[v]; ok {
			return id
		}
		next++
		ids[v] = next
		return next
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"id": vid(p), "name": p.Name(), "type": d.typ(p.Type())})
	}
	m["params"] = ps
	fvs := []M{}
	for _, p := range f.FreeVars {
		fvs = append(fvs, M{"id": vid(p), "name": p.Name(), "type": d.typ(p.Type())})
	}
	m["freevars"] = fvs
	if len(f.Blocks) == 0 {
		m["external"] = true
		d.ext[name] = m
		return
	}
	var val func(v ssa.Value) M
	val = func(v ssa.Value) M {
		switch x := v.(type) {
		case nil:
			return nil
		case *ssa.Const:
			c := M{"k": "const", "type": d.typ(x.Type())}
			if x.Value == nil {
				c["zero"] = true
			} else {
				switch x.Value.Kind() {
				case constant.Bool:
					c["bool"] = constant.BoolVal(x.Value)
				case constant.String:
					c["str"] = constant.StringVal(x.Value)
				case constant.Int:
					c["int"] = x.Value.ExactString()
				default:
					c["other"] = x.Value.ExactString()
				}
			}
			return c
		case *ssa.Function:
			if x.Pkg == nil || d.inPkg[x.Pkg.Pkg] || x.Synthetic != "" {
				d.need(x)
			}
			pk := ""
			if x.Pkg != nil {
				pk = x.Pkg.Pkg.Path()
			}
			return M{"k": "func", "name": fname(x), "pkg": pk, "type": d.typ(x.Type())}
		case *ssa.Global:
			d.global[x.String()] = M{"name": x.String(), "type": d.typ(x.Type())}
			return M{"k": "global", "name": x.String(), "type": d.typ(x.Type())}
		case *ssa.Builtin:
			return M{"k": "builtin", "name": x.Name(), "type": d.typ(x.Type())}
		default:
			return M{"k": "reg", "id": vid(v), "type": d.typ(v.Type())}
		}
	}
	vals := func(vs []ssa.Value) []M {
		r := []M{}
		for _, v := range vs {
			r = append(r, val(v))
		}
		return r
	}
	call := func(c *ssa.CallCommon) M {
		cm := M{"args": vals(c.Args), "sig": d.typ(c.Signature())}
		if c.IsInvoke() {
			cm["invoke"] = c.Method.Name()
			cm["recv"] = val(c.Value)
			cm["itype"] = d.typ(c.Value.Type())
			if c.Method.Pkg() != nil {
				cm["mpkg"] = c.Method.Pkg().Path()
			}
		} else {
			cm["fn"] = val(c.Value)
			if sc := c.StaticCallee(); sc != nil {
				cm["static"] = fname(sc)
			}
		}
		return cm
	}
	blocks := []M{}
	for _, b := range f.Blocks {
		bm := M{"idx": b.Index, "comment": b.Comment}
		preds, succs := []int{}, []int{}
		for _, p := range b.Preds {
			preds = append(preds, p.Index)
		}
		for _, s := range b.Succs {
			succs = append(succs, s.Index)
		}
		bm["preds"], bm["succs"] = preds, succs
		if id := b.Idom(); id != nil {
			bm["idom"] = id.Index
		} else {
			bm["idom"] = -1
		}
		ins := []M{}
		for _, in := range b.Instrs {
			im := M{"pos": d.pos(in.Pos())}
			if v, ok := in.(ssa.Value); ok {
				im["id"] = vid(v)
				im["type"] = d.typ(v.Type())
				im["reg"] = v.Name()
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				if x.IsAddr {
					continue
				}
				if o := x.Object(); o != nil {
					if _, isVar := o.(*types.Var); isVar {
						switch x.X.(type) {
						case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
							continue
						}
						im["op"] = "debug"
						im["name"] = o.Name()
						im["x"] = val(x.X)
						break
					}
				}
				continue
			case *ssa.Alloc:
				im["op"] = "alloc"
				im["heap"] = x.Heap
				im["comment"] = x.Comment
			case *ssa.Phi:
				im["op"] = "phi"
				im["edges"] = vals(x.Edges)
				im["comment"] = x.Comment
			case *ssa.BinOp:
				im["op"] = "binop"
				im["tok"] = x.Op.String()
				im["x"] = val(x.X)
				im["y"] = val(x.Y)
			case *ssa.UnOp:
				im["op"] = "unop"
				im["tok"] = x.Op.String()
				im["x"] = val(x.X)
				im["commaok"] = x.CommaOk
			case *ssa.Call:
				im["op"] = "call"
				im["call"] = call(&x.Call)
			case *ssa.Go:
				im["op"] = "go"
				im["call"] = call(&x.Call)
			case *ssa.Defer:
				im["op"] = "defer"
				im["call"] = call(&x.Call)
			case *ssa.ChangeType:
				im["op"] = "changetype"
				im["x"] = val(x.X)
			case *ssa.Convert:
				im["op"] = "convert"
				im["x"] = val(x.X)
			case *ssa.MultiConvert:
				im["op"] = "convert"
				im["x"] = val(x.X)
			case *ssa.ChangeInterface:
				im["op"] = "changeiface"
				im["x"] = val(x.X)
			case *ssa.SliceToArrayPointer:
				im["op"] = "slice2arr"
				im["x"] = val(x.X)
			case *ssa.MakeInterface:
				im["op"] = "makeiface"
				im["x"] = val(x.X)
			case *ssa.MakeClosure:
				im["op"] = "makeclosure"
				im["fn"] = val(x.Fn)
				im["bindings"] = vals(x.Bindings)
			case *ssa.MakeMap:
				im["op"] = "makemap"
			case *ssa.MakeChan:
				im["op"] = "makechan"
				im["size"] = val(x.Size)
			case *ssa.MakeSlice:
				im["op"] = "makeslice"
				im["len"] = val(x.Len)
				im["cap"] = val(x.Cap)
			case *ssa.Slice:
				im["op"] = "slice"
				im["x"] = val(x.X)
				im["low"] = val(x.Low)
				im["high"] = val(x.High)
				im["max"] = val(x.Max)
			case *ssa.FieldAddr:
				im["op"] = "fieldaddr"
				im["x"] = val(x.X)
				im["field"] = x.Field
			case *ssa.Field:
				im["op"] = "field"
				im["x"] = val(x.X)
				im["field"] = x.Field
			case *ssa.IndexAddr:
				im["op"] = "indexaddr"
				im["x"] = val(x.X)
				im["index"] = val(x.Index)
			case *ssa.Index:
				im["op"] = "index"
				im["x"] = val(x.X)
				im["index"] = val(x.Index)
			case *ssa.Lookup:
				im["op"] = "lookup"
				im["x"] = val(x.X)
				im["index"] = val(x.Index)
				im["commaok"] = x.CommaOk
			case *ssa.Select:
				im["op"] = "select"
				im["blocking"] = x.Blocking
				st := []M{}
				for _, s := range x.States {
					st = append(st, M{"dir": int(s.Dir), "chan": val(s.Chan), "send": val(s.Send)})
				}
				im["states"] = st
			case *ssa.Range:
				im["op"] = "range"
				im["x"] = val(x.X)
			case *ssa.Next:
				im["op"] = "next"
				im["x"] = val(x.Iter)
				im["isstring"] = x.IsString
			case *ssa.TypeAssert:
				im["op"] = "typeassert"
				im["x"] = val(x.X)
				im["asserted"] = d.typ(x.AssertedType)
				im["commaok"] = x.CommaOk
			case *ssa.Extract:
				im["op"] = "extract"
				im["x"] = val(x.Tuple)
				im["index"] = x.Index
			case *ssa.Jump:
				im["op"] = "jump"
			case *ssa.If:
				im["op"] = "if"
				im["x"] = val(x.Cond)
			case *ssa.Return:
				im["op"] = "return"
				im["results"] = vals(x.Results)
			case *ssa.RunDefers:
				im["op"] = "rundefers"
			case *ssa.Panic:
				im["op"] = "panic"
				im["x"] = val(x.X)
			case *ssa.Send:
				im["op"] = "send"
				im["chan"] = val(x.Chan)
				im["x"] = val(x.X)
			case *ssa.Store:
				im["op"] = "store"
				im["addr"] = val(x.Addr)
				im["x"] = val(x.Val)
			case *ssa.MapUpdate:
				im["op"] = "mapupdate"
				im["map"] = val(x.Map)
				im["key"] = val(x.Key)
				im["x"] = val(x.Value)
			default:
				im["op"] = fmt.Sprintf("unknown:%T", in)
			}
			ins = append(ins, im)
		}
		bm["instrs"] = ins
		blocks = append(blocks, bm)
	}
	m["blocks"] = blocks
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	for _, a := range f.AnonFuncs {
		d.need(a)
	}
	d.funcs[name] = m
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   dir,
		Env:   os.Environ(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	d := &dumper{fset: prog.Fset, prog: prog, tids: map[types.Type]int{}, tkeys: map[string]int{}, funcs: map[string]M{},
		done: map[*ssa.Function]bool{}, inPkg: map[*types.Package]bool{}, root: dir, ext: map[string]M{}, global: map[string]M{}}
	for _, p := range spkgs {
		d.inPkg[p.Pkg] = true
	}
	named := map[string]int{}
	for _, p := range spkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := p.Members[n].(type) {
			case *ssa.Function:
				d.need(x)
			case *ssa.Type:
				t := x.Type()
				named[t.String()] = d.typ(t)
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					d.typ(tt)
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == p {
							d.need(f)
						}
					}
				}
			case *ssa.Global:
				d.global[x.String()] = M{"name": x.String(), "type": d.typ(x.Type())}
			}
		}
	}
	for len(d.work) > 0 {
		f := d.work[0]
		d.work = d.work[1:]
		d.fn(f)
	}
	var pk []string
	for _, p := range pkgs {
		pk = append(pk, p.PkgPath)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(M{"packages": pk, "types": d.types, "funcs": d.funcs, "externals": d.ext, "globals": d.global, "named": named}); err != nil {
		panic(err)
	}
}
