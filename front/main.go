// Command front loads Go packages from the working tree, builds go/ssa for
// them and dumps every function (as JSON) for the verification-condition
// generator in /verif/gvc.  It does no analysis of its own: the SSA printed is
// exactly what golang.org/x/tools/go/ssa builds from the current sources.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

type dumper struct {
	fset  *token.FileSet
	types []M
	tid   map[string]int
	funcs map[*ssa.Function]bool
	out   []M
	dir   string
}

func qual(p *types.Package) string { return p.Path() }

func (d *dumper) ty(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, qual)
	if tp, ok := t.(*types.TypeParam); ok {
		key = fmt.Sprintf("tp:%s:%p", tp.Obj().Name(), tp)
	} else if hasTP(t) {
		// the same spelling can denote different type parameters
		key = fmt.Sprintf("%s@%s", key, tpKey(t))
	}
	if id, ok := d.tid[key]; ok {
		return id
	}
	id := len(d.types)
	m := M{"id": id, "s": types.TypeString(t, qual)}
	d.types = append(d.types, m)
	d.tid[key] = id
	switch t := t.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["n"] = t.Name()
		if t.Kind() == types.Uint8 {
			m["n"] = "uint8"
		}
		if t.Kind() == types.Int32 {
			m["n"] = "int32"
		}
	case *types.Named:
		m["k"] = "named"
		n := t.Obj().Name()
		if t.Obj().Pkg() != nil {
			n = t.Obj().Pkg().Path() + "." + n
		}
		m["n"] = n
		var ta []int
		for i := 0; i < t.TypeArgs().Len(); i++ {
			ta = append(ta, d.ty(t.TypeArgs().At(i)))
		}
		if t.TypeArgs().Len() == 0 {
			for i := 0; i < t.TypeParams().Len(); i++ {
				ta = append(ta, d.ty(t.TypeParams().At(i)))
			}
		}
		m["targs"] = ta
		m["u"] = d.ty(t.Underlying())
		var tps []int
		o := t.Origin()
		for i := 0; i < o.TypeParams().Len(); i++ {
			tps = append(tps, d.ty(o.TypeParams().At(i)))
		}
		m["tparams"] = tps
		if o != t {
			m["ou"] = d.ty(o.Underlying())
		}
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = d.ty(t.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = d.ty(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = d.ty(t.Elem())
		m["len"] = t.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = d.ty(t.Key())
		m["e"] = d.ty(t.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = d.ty(t.Elem())
	case *types.Struct:
		m["k"] = "struct"
		var fs []M
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"n": f.Name(), "t": d.ty(f.Type()), "emb": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["k"] = "iface"
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Signature:
		m["k"] = "func"
		var ps, rs []int
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, d.ty(t.Params().At(i).Type()))
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, d.ty(t.Results().At(i).Type()))
		}
		m["params"] = ps
		m["results"] = rs
		m["variadic"] = t.Variadic()
	case *types.Tuple:
		m["k"] = "tuple"
		var es []int
		for i := 0; i < t.Len(); i++ {
			es = append(es, d.ty(t.At(i).Type()))
		}
		m["es"] = es
	case *types.TypeParam:
		m["k"] = "tparam"
		m["n"] = t.Obj().Name()
		m["constraint"] = types.TypeString(t.Constraint(), qual)
		m["comparable"] = types.Comparable(t)
	default:
		m["k"] = "other"
	}
	return id
}

func hasTP(t types.Type) bool { return tpKey(t) != "" }

func tpKey(t types.Type) string {
	var sb strings.Builder
	seen := map[types.Type]bool{}
	var w func(t types.Type)
	w = func(t types.Type) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		switch t := t.(type) {
		case *types.TypeParam:
			fmt.Fprintf(&sb, "%p,", t)
		case *types.Named:
			for i := 0; i < t.TypeArgs().Len(); i++ {
				w(t.TypeArgs().At(i))
			}
		case *types.Pointer:
			w(t.Elem())
		case *types.Slice:
			w(t.Elem())
		case *types.Array:
			w(t.Elem())
		case *types.Chan:
			w(t.Elem())
		case *types.Map:
			w(t.Key())
			w(t.Elem())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				w(t.Field(i).Type())
			}
		case *types.Signature:
			w(t.Params())
			w(t.Results())
		case *types.Tuple:
			for i := 0; i < t.Len(); i++ {
				w(t.At(i).Type())
			}
		}
	}
	w(t)
	return sb.String()
}

func fname(f *ssa.Function) string {
	if f.Origin() != nil && f.Origin() != f {
		f = f.Origin()
	}
	return f.String()
}

func (d *dumper) fref(f *ssa.Function) M {
	m := M{"k": "func", "n": fname(f)}
	if len(f.TypeArgs()) > 0 && f.Origin() != f {
		var ta []int
		for _, t := range f.TypeArgs() {
			ta = append(ta, d.ty(t))
		}
		m["targs"] = ta
	}
	return m
}

func (d *dumper) op(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": d.ty(v.Type())}
		if v.Value == nil {
			m["zero"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(v.Value)
			case constant.String:
				m["str"] = []byte(constant.StringVal(v.Value))
				m["isstr"] = true
			case constant.Int:
				m["v"] = v.Value.ExactString()
			default:
				m["f"] = v.Value.ExactString()
			}
		}
		return m
	case *ssa.Parameter:
		return M{"k": "reg", "n": "p$" + v.Name()}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": "f$" + v.Name()}
	case *ssa.Global:
		return M{"k": "global", "n": v.String(), "t": d.ty(v.Type())}
	case *ssa.Function:
		m := d.fref(v)
		m["t"] = d.ty(v.Type())
		return m
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name()}
	default:
		return M{"k": "reg", "n": v.Name()}
	}
}

func (d *dumper) ops(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, d.op(v))
	}
	return r
}

func (d *dumper) call(m M, c *ssa.CallCommon) {
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = d.op(c.Value)
		m["recvt"] = d.ty(c.Value.Type())
	} else {
		m["fn"] = d.op(c.Value)
	}
	m["args"] = d.ops(c.Args)
	var ats []int
	for _, a := range c.Args {
		ats = append(ats, d.ty(a.Type()))
	}
	m["argts"] = ats
	m["sig"] = d.ty(c.Signature())
}

func (d *dumper) fn(f *ssa.Function) {
	if f == nil || d.funcs[f] {
		return
	}
	d.funcs[f] = true
	if f.Origin() != nil && f.Origin() != f {
		return // instance: body taken from its origin
	}
	m := M{"n": fname(f), "synthetic": f.Synthetic, "name": f.Name()}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	p := d.fset.Position(f.Pos())
	m["file"], m["line"] = p.Filename, p.Line
	var ps []M
	for _, x := range f.Params {
		ps = append(ps, M{"n": x.Name(), "t": d.ty(x.Type())})
	}
	m["params"] = ps
	var fv []M
	for _, x := range f.FreeVars {
		fv = append(fv, M{"n": x.Name(), "t": d.ty(x.Type())})
	}
	m["freevars"] = fv
	var tps []int
	for i := 0; f.TypeParams() != nil && i < f.TypeParams().Len(); i++ {
		tps = append(tps, d.ty(f.TypeParams().At(i)))
	}
	m["tparams"] = tps
	m["sig"] = d.ty(f.Signature)
	var rs []M
	for i := 0; i < f.Signature.Results().Len(); i++ {
		r := f.Signature.Results().At(i)
		rs = append(rs, M{"n": r.Name(), "t": d.ty(r.Type())})
	}
	m["results"] = rs
	if f.Signature.Recv() != nil {
		m["recv"] = d.ty(f.Signature.Recv().Type())
	}
	if f.Parent() != nil {
		m["parent"] = fname(f.Parent())
	}
	var bs []M
	for _, b := range f.Blocks {
		bm := M{"i": b.Index, "c": b.Comment}
		var pr, su []int
		for _, x := range b.Preds {
			pr = append(pr, x.Index)
		}
		for _, x := range b.Succs {
			su = append(su, x.Index)
		}
		bm["preds"], bm["succs"] = pr, su
		var is []M
		for _, in := range b.Instrs {
			is = append(is, d.instr(in))
		}
		bm["instrs"] = is
		bs = append(bs, bm)
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	d.out = append(d.out, m)
	for _, a := range f.AnonFuncs {
		d.fn(a)
	}
}

func (d *dumper) instr(in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = d.ty(v.Type())
	}
	if p := in.Pos(); p.IsValid() {
		pp := d.fset.Position(p)
		m["l"] = pp.Line
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["c"] = x.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["o"] = x.Op.String()
		m["x"], m["y"] = d.op(x.X), d.op(x.Y)
		m["xt"], m["yt"] = d.ty(x.X.Type()), d.ty(x.Y.Type())
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["o"] = x.Op.String()
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
		m["ok"] = x.CommaOk
	case *ssa.Call:
		m["op"] = "Call"
		d.call(m, &x.Call)
	case *ssa.Go:
		m["op"] = "Go"
		d.call(m, &x.Call)
	case *ssa.Defer:
		m["op"] = "Defer"
		d.call(m, &x.Call)
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = d.op(x.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
	case *ssa.MultiConvert:
		m["op"] = "Convert"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = d.op(x.Tuple)
		m["i"] = x.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
		m["i"] = x.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
		m["i"] = x.Field
	case *ssa.Index:
		m["op"] = "Index"
		m["x"], m["y"] = d.op(x.X), d.op(x.Index)
		m["xt"], m["yt"] = d.ty(x.X.Type()), d.ty(x.Index.Type())
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"], m["y"] = d.op(x.X), d.op(x.Index)
		m["xt"], m["yt"] = d.ty(x.X.Type()), d.ty(x.Index.Type())
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.If:
		m["op"] = "If"
		m["x"] = d.op(x.Cond)
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"], m["y"] = d.op(x.X), d.op(x.Index)
		m["xt"], m["yt"] = d.ty(x.X.Type()), d.ty(x.Index.Type())
		m["ok"] = x.CommaOk
	case *ssa.MakeChan:
		m["op"] = "MakeChan"
		m["x"] = d.op(x.Size)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = d.op(x.Fn)
		m["args"] = d.ops(x.Bindings)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["x"], m["y"] = d.op(x.Len), d.op(x.Cap)
		m["xt"], m["yt"] = d.ty(x.Len.Type()), d.ty(x.Cap.Type())
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["m"], m["x"], m["y"] = d.op(x.Map), d.op(x.Key), d.op(x.Value)
		m["mt"] = d.ty(x.Map.Type())
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = d.op(x.Iter)
		m["isstr"] = x.IsString
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = d.op(x.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		m["edges"] = d.ops(x.Edges)
		m["c"] = x.Comment
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
	case *ssa.Return:
		m["op"] = "Return"
		m["args"] = d.ops(x.Results)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.Select:
		m["op"] = "Select"
		m["blocking"] = x.Blocking
		var ss []M
		for _, s := range x.States {
			sm := M{"send": s.Dir == types.SendOnly, "ch": d.op(s.Chan), "cht": d.ty(s.Chan.Type())}
			if s.Send != nil {
				sm["v"] = d.op(s.Send)
			}
			ss = append(ss, sm)
		}
		m["states"] = ss
	case *ssa.Send:
		m["op"] = "Send"
		m["x"], m["y"] = d.op(x.Chan), d.op(x.X)
		m["xt"] = d.ty(x.Chan.Type())
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = d.op(x.X)
		m["xt"] = d.ty(x.X.Type())
		m["lo"], m["hi"], m["max"] = d.op(x.Low), d.op(x.High), d.op(x.Max)
		if x.Low != nil {
			m["lot"] = d.ty(x.Low.Type())
		}
		if x.High != nil {
			m["hit"] = d.ty(x.High.Type())
		}
	case *ssa.Store:
		m["op"] = "Store"
		m["x"], m["y"] = d.op(x.Addr), d.op(x.Val)
		m["xt"] = d.ty(x.Addr.Type())
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = d.op(x.X)
		m["at"] = d.ty(x.AssertedType)
		m["ok"] = x.CommaOk
	case *ssa.DebugRef:
		m["op"] = "DebugRef"
	default:
		m["op"] = fmt.Sprintf("%T", in)
	}
	return m
}

func main() {
	dir := os.Args[1]
	outp := os.Args[2]
	pats := os.Args[3:]
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	d := &dumper{fset: prog.Fset, tid: map[string]int{}, funcs: map[*ssa.Function]bool{}, dir: dir}
	methods := []M{}
	globals := []M{}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch mem := sp.Members[n].(type) {
			case *ssa.Function:
				d.fn(mem)
			case *ssa.Global:
				globals = append(globals, M{"n": mem.String(), "t": d.ty(mem.Type())})
			case *ssa.Type:
				nt, ok := types.Unalias(mem.Type()).(*types.Named)
				if !ok {
					continue
				}
				d.ty(nt)
				for j := 0; j < nt.NumMethods(); j++ {
					mo := nt.Method(j)
					f := prog.FuncValue(mo)
					if f == nil {
						continue
					}
					d.fn(f)
					_, isptr := mo.Type().(*types.Signature).Recv().Type().(*types.Pointer)
					methods = append(methods, M{"type": pkgs[i].PkgPath + "." + n, "m": mo.Name(), "ptr": isptr, "fn": fname(f)})
				}
			}
		}
	}
	res := M{"types": d.types, "funcs": d.out, "methods": methods, "globals": globals}
	f, err := os.Create(outp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	enc := json.NewEncoder(f)
	if err := enc.Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f.Close()
}
