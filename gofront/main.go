// gofront loads packages of the repository under verification and prints the
// SSA form (golang.org/x/tools/go/ssa) of every function as JSON.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]any

var (
	typeIDs  = map[string]int{}
	typeDefs []J
	prog     *ssa.Program
	funcs    = map[string]J{}
	queue    []*ssa.Function
	seen     = map[*ssa.Function]bool{}
	local    = map[string]bool{}
)

func typeID(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if tp, ok := t.(*types.TypeParam); ok {
		key = fmt.Sprintf("tparam %s#%d in %p", tp.Obj().Name(), tp.Index(), tp)
	} else if hasTParam(t) {
		key = fmt.Sprintf("%s|%s", key, tpKey(t))
	}
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeDefs)
	typeIDs[key] = id
	typeDefs = append(typeDefs, nil)
	d := J{"str": types.TypeString(t, func(p *types.Package) string { return p.Path() })}
	switch t := t.(type) {
	case *types.Basic:
		d["k"] = "basic"
		d["name"] = t.Name()
	case *types.Pointer:
		d["k"] = "ptr"
		d["elem"] = typeID(t.Elem())
	case *types.Slice:
		d["k"] = "slice"
		d["elem"] = typeID(t.Elem())
	case *types.Array:
		d["k"] = "array"
		d["elem"] = typeID(t.Elem())
		d["len"] = t.Len()
	case *types.Map:
		d["k"] = "map"
		d["key"] = typeID(t.Key())
		d["elem"] = typeID(t.Elem())
	case *types.Chan:
		d["k"] = "chan"
	case *types.Struct:
		d["k"] = "struct"
		fs := []J{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, J{"name": f.Name(), "t": typeID(f.Type()), "emb": f.Embedded(), "tag": t.Tag(i)})
		}
		d["fields"] = fs
	case *types.Signature:
		d["k"] = "func"
		ps, rs := []int{}, []int{}
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, typeID(t.Params().At(i).Type()))
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, typeID(t.Results().At(i).Type()))
		}
		d["params"], d["results"], d["variadic"] = ps, rs, t.Variadic()
	case *types.Tuple:
		d["k"] = "tuple"
		es := []int{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, typeID(t.At(i).Type()))
		}
		d["elems"] = es
	case *types.Interface:
		d["k"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		d["methods"] = ms
	case *types.Named:
		d["k"] = "named"
		if t.Obj().Pkg() != nil {
			d["pkg"] = t.Obj().Pkg().Path()
		}
		d["name"] = t.Obj().Name()
		as := []int{}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			as = append(as, typeID(t.TypeArgs().At(i)))
		}
		d["args"] = as
		d["under"] = typeID(t.Underlying())
	case *types.TypeParam:
		d["k"] = "tparam"
		d["name"] = t.Obj().Name()
		d["under"] = typeID(t.Constraint().Underlying())
	default:
		d["k"] = "other"
	}
	typeDefs[id] = d
	return id
}

func hasTParam(t types.Type) bool { return tpKey(t) != "" }

func tpKey(t types.Type) string {
	var sb strings.Builder
	vis := map[types.Type]bool{}
	var w func(types.Type)
	w = func(t types.Type) {
		t = types.Unalias(t)
		if vis[t] {
			return
		}
		vis[t] = true
		switch t := t.(type) {
		case *types.TypeParam:
			fmt.Fprintf(&sb, "%p,", t)
		case *types.Pointer:
			w(t.Elem())
		case *types.Slice:
			w(t.Elem())
		case *types.Array:
			w(t.Elem())
		case *types.Map:
			w(t.Key())
			w(t.Elem())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				w(t.Field(i).Type())
			}
		case *types.Signature:
			w(t.Params())
			w(t.Results())
		case *types.Tuple:
			for i := 0; i < t.Len(); i++ {
				w(t.At(i).Type())
			}
		case *types.Named:
			for i := 0; i < t.TypeArgs().Len(); i++ {
				w(t.TypeArgs().At(i))
			}
		case *types.Interface:
			for i := 0; i < t.NumMethods(); i++ {
				w(t.Method(i).Type())
			}
		}
	}
	w(t)
	return sb.String()
}

func fname(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	s := f.RelString(nil)
	return s
}

func val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		j := J{"c": "const", "t": typeID(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["v"] = constant.BoolVal(v.Value)
			case constant.String:
				j["v"] = constant.StringVal(v.Value)
			case constant.Int:
				j["i"] = v.Value.ExactString()
			case constant.Float:
				if i := constant.ToInt(v.Value); i.Kind() == constant.Int {
					j["i"] = i.ExactString()
				} else {
					j["f"] = v.Value.ExactString()
				}
			default:
				j["f"] = v.Value.ExactString()
			}
		}
		return j
	case *ssa.Global:
		return J{"c": "global", "name": v.RelString(nil), "t": typeID(v.Type())}
	case *ssa.Function:
		enqueue(v)
		return J{"c": "func", "name": fname(v), "t": typeID(v.Type())}
	case *ssa.Builtin:
		return J{"c": "builtin", "name": v.Name()}
	default:
		return v.Name()
	}
}

func vals(vs []ssa.Value) []any {
	o := []any{}
	for _, v := range vs {
		o = append(o, val(v))
	}
	return o
}

func enqueue(f *ssa.Function) {
	if f == nil || seen[f] {
		return
	}
	seen[f] = true
	if o := f.Origin(); o != nil && o != f && fname(o) == fname(f) { // the instance over the type parameters themselves
		enqueue(o)
		return
	}
	queue = append(queue, f)
}

func callJ(c *ssa.CallCommon, j J) {
	j["args"] = vals(c.Args)
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["recv"] = val(c.Value)
		j["recvt"] = typeID(c.Value.Type())
	} else {
		j["fn"] = val(c.Value)
		if sf := c.StaticCallee(); sf != nil {
			j["static"] = fname(sf)
			if o := sf.Origin(); o != nil {
				j["origin"] = fname(o)
			}
			if sf.Object() != nil && sf.Object().Pkg() != nil {
				j["pkg"] = sf.Object().Pkg().Path()
			}
		}
	}
	j["sig"] = typeID(c.Signature())
}

func emit(f *ssa.Function) {
	n := fname(f)
	if _, ok := funcs[n]; ok {
		return
	}
	d := J{"name": n, "short": f.Name(), "sig": typeID(f.Signature)}
	if f.Pkg != nil {
		d["pkg"] = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		d["pkg"] = f.Object().Pkg().Path()
	}
	if f.Synthetic != "" {
		d["synth"] = f.Synthetic
	}
	if o := f.Origin(); o != nil {
		d["origin"] = fname(o)
	}
	if f.Parent() != nil {
		d["parent"] = fname(f.Parent())
	}
	pos := prog.Fset.Position(f.Pos())
	d["pos"] = fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
	if r := f.Signature.Recv(); r != nil {
		d["recv"] = typeID(r.Type())
	}
	ps, fv := []J{}, []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": typeID(p.Type())})
	}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": p.Name(), "t": typeID(p.Type())})
	}
	d["params"], d["freevars"] = ps, fv
	rs := []int{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, typeID(f.Signature.Results().At(i).Type()))
	}
	d["results"] = rs
	rn := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	d["resnames"] = rn
	funcs[n] = d
	if len(f.Blocks) == 0 {
		d["external"] = true
		return
	}
	blocks := []J{}
	for _, b := range f.Blocks {
		ins := []J{}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			j := J{}
			if v, ok := i.(ssa.Value); ok {
				j["n"] = v.Name()
				j["t"] = typeID(v.Type())
				if refs := v.Referrers(); refs == nil || len(*refs) == 0 {
					j["dead"] = true
				}
			}
			p := prog.Fset.Position(i.Pos())
			if p.IsValid() {
				j["line"] = p.Line
			}
			switch i := i.(type) {
			case *ssa.Alloc:
				j["op"], j["heap"], j["comment"] = "alloc", i.Heap, i.Comment
			case *ssa.Phi:
				j["op"], j["edges"], j["comment"] = "phi", vals(i.Edges), i.Comment
			case *ssa.Call:
				j["op"] = "call"
				callJ(&i.Call, j)
			case *ssa.Go:
				j["op"] = "go"
				callJ(&i.Call, j)
			case *ssa.Defer:
				j["op"] = "defer"
				callJ(&i.Call, j)
			case *ssa.RunDefers:
				j["op"] = "rundefers"
			case *ssa.BinOp:
				j["op"], j["bop"], j["x"], j["y"] = "binop", i.Op.String(), val(i.X), val(i.Y)
				j["xt"] = typeID(i.X.Type())
				j["yt"] = typeID(i.Y.Type())
			case *ssa.UnOp:
				j["op"], j["uop"], j["x"], j["commaok"] = "unop", i.Op.String(), val(i.X), i.CommaOk
				j["xt"] = typeID(i.X.Type())
			case *ssa.ChangeType:
				j["op"], j["x"], j["xt"] = "changetype", val(i.X), typeID(i.X.Type())
			case *ssa.Convert:
				j["op"], j["x"], j["xt"] = "convert", val(i.X), typeID(i.X.Type())
			case *ssa.MultiConvert:
				j["op"], j["x"], j["xt"] = "multiconvert", val(i.X), typeID(i.X.Type())
			case *ssa.ChangeInterface:
				j["op"], j["x"] = "changeiface", val(i.X)
			case *ssa.SliceToArrayPointer:
				j["op"], j["x"], j["xt"] = "slice2arrptr", val(i.X), typeID(i.X.Type())
			case *ssa.MakeInterface:
				j["op"], j["x"], j["xt"] = "makeiface", val(i.X), typeID(i.X.Type())
			case *ssa.MakeClosure:
				j["op"], j["fn"], j["binds"] = "closure", val(i.Fn), vals(i.Bindings)
			case *ssa.MakeMap:
				j["op"] = "makemap"
			case *ssa.MakeChan:
				j["op"] = "makechan"
			case *ssa.MakeSlice:
				j["op"], j["len"], j["cap"] = "makeslice", val(i.Len), val(i.Cap)
			case *ssa.Slice:
				j["op"], j["x"], j["xt"], j["low"], j["high"], j["max"] = "slice", val(i.X), typeID(i.X.Type()), val(i.Low), val(i.High), val(i.Max)
			case *ssa.FieldAddr:
				j["op"], j["x"], j["field"], j["xt"] = "fieldaddr", val(i.X), i.Field, typeID(i.X.Type())
			case *ssa.Field:
				j["op"], j["x"], j["field"], j["xt"] = "field", val(i.X), i.Field, typeID(i.X.Type())
			case *ssa.IndexAddr:
				j["op"], j["x"], j["i"], j["xt"] = "indexaddr", val(i.X), val(i.Index), typeID(i.X.Type())
			case *ssa.Index:
				j["op"], j["x"], j["i"], j["xt"] = "index", val(i.X), val(i.Index), typeID(i.X.Type())
			case *ssa.Lookup:
				j["op"], j["x"], j["i"], j["xt"], j["commaok"] = "lookup", val(i.X), val(i.Index), typeID(i.X.Type()), i.CommaOk
			case *ssa.Range:
				j["op"], j["x"], j["xt"] = "range", val(i.X), typeID(i.X.Type())
			case *ssa.Next:
				j["op"], j["x"], j["isstr"] = "next", val(i.Iter), i.IsString
			case *ssa.TypeAssert:
				j["op"], j["x"], j["at"], j["commaok"], j["xt"] = "typeassert", val(i.X), typeID(i.AssertedType), i.CommaOk, typeID(i.X.Type())
			case *ssa.Extract:
				j["op"], j["x"], j["idx"] = "extract", val(i.Tuple), i.Index
			case *ssa.Select:
				j["op"] = "select"
			case *ssa.Jump:
				j["op"] = "jump"
			case *ssa.If:
				j["op"], j["x"] = "if", val(i.Cond)
			case *ssa.Return:
				j["op"], j["xs"] = "return", vals(i.Results)
			case *ssa.Panic:
				j["op"], j["x"] = "panic", val(i.X)
			case *ssa.Store:
				j["op"], j["addr"], j["x"] = "store", val(i.Addr), val(i.Val)
				j["xt"] = typeID(i.Val.Type())
			case *ssa.MapUpdate:
				j["op"], j["m"], j["k"], j["x"] = "mapupdate", val(i.Map), val(i.Key), val(i.Value)
			case *ssa.Send:
				j["op"] = "send"
			default:
				j["op"] = fmt.Sprintf("%T", i)
			}
			ins = append(ins, j)
		}
		pr, su := []int{}, []int{}
		for _, x := range b.Preds {
			pr = append(pr, x.Index)
		}
		for _, x := range b.Succs {
			su = append(su, x.Index)
		}
		blocks = append(blocks, J{"preds": pr, "succs": su, "ins": ins, "comment": b.Comment})
	}
	d["blocks"] = blocks
	if f.Recover != nil {
		d["recoverblk"] = f.Recover.Index
	}
	for _, a := range f.AnonFuncs {
		enqueue(a)
	}
}

func main() {
	dir := flag.String("dir", "/repo", "module directory")
	tags := flag.String("tags", "", "build tags")
	out := flag.String("o", "", "output file")
	inst := flag.Bool("inst", false, "instantiate generics")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: *dir}
	if *tags != "" {
		cfg.BuildFlags = []string{"-tags=" + *tags}
	}
	pkgs, err := packages.Load(cfg, flag.Args()...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(3)
	}
	mode := ssa.BuilderMode(0)
	if *inst {
		mode |= ssa.InstantiateGenerics
	}
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.Packages(pkgs, mode)
	prog.Build()
	for _, p := range spkgs {
		if p != nil {
			local[p.Pkg.Path()] = true
		}
	}
	all := ssautil.AllFunctions(prog)
	names := []*ssa.Function{}
	for f := range all {
		names = append(names, f)
	}
	// generic functions and methods of generic types are not in AllFunctions roots: add members explicitly
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				names = append(names, m)
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						if f := prog.FuncValue(nt.Method(i)); f != nil {
							names = append(names, f)
						}
					}
				}
			}
		}
	}
	sort.Slice(names, func(i, k int) bool { return fname(names[i]) < fname(names[k]) })
	for _, f := range names {
		if f.Pkg != nil && local[f.Pkg.Pkg.Path()] || f.Origin() != nil && f.Origin().Pkg != nil && local[f.Origin().Pkg.Pkg.Path()] {
			enqueue(f)
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		emit(f)
	}
	globals := []J{}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			if c, ok := m.(*ssa.NamedConst); ok {
				globals = append(globals, J{"name": p.Pkg.Path() + "." + c.Name(), "const": c.Value.Value.ExactString(), "t": typeID(c.Type())})
			}
			if g, ok := m.(*ssa.Global); ok {
				globals = append(globals, J{"name": g.RelString(nil), "t": typeID(g.Type())})
			}
		}
	}
	_ = token.NoPos
	o := J{"types": typeDefs, "funcs": funcs, "globals": globals}
	w := os.Stdout
	if *out != "" {
		w, err = os.Create(*out)
		if err != nil {
			panic(err)
		}
	}
	e := json.NewEncoder(w)
	if err := e.Encode(o); err != nil {
		panic(err)
	}
	w.Close()
}
