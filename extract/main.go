// Command extract lowers the Go packages of the repository to SSA and dumps it as JSON.
// It drops nothing but comments and positions of individual instructions inside a line: every
// function (methods, closures, wrappers, package initialisers) of every repository package
// is dumped instruction by instruction as golang.org/x/tools/go/ssa produced it.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const mod = "github.com/scouter-contrib/scouter-agent-golang/"

func isRepo(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path()+"/", mod) }

func qual(p *types.Package) string {
	if isRepo(p) {
		return p.Name()
	}
	return p.Path()
}

type J = map[string]any

var typeTab = map[string]J{}
var typeList []types.Type
var namedSeen = map[string]types.Type{}

func ts(t types.Type) string { return types.TypeString(t, qual) }

func typ(t types.Type) string {
	s := ts(t)
	if _, ok := typeTab[s]; ok {
		return s
	}
	j := J{}
	typeTab[s] = j
	switch u := t.(type) {
	case *types.Alias:
		j["k"] = "alias"
		j["e"] = typ(types.Unalias(u))
	case *types.Named:
		j["k"] = "named"
		namedSeen[s] = t
		j["u"] = typ(u.Underlying())
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typ(u.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typ(u.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typ(u.Elem())
		j["n"] = u.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = typ(u.Key())
		j["e"] = typ(u.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["e"] = typ(u.Elem())
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = u.Name()
		if u.Kind() == types.Byte {
			j["name"] = "uint8"
		}
		if u.Kind() == types.Rune {
			j["name"] = "int32"
		}
	case *types.Struct:
		j["k"] = "struct"
		fs := []J{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, J{"name": f.Name(), "t": typ(f.Type()), "emb": f.Embedded()})
		}
		j["fields"] = fs
	case *types.Interface:
		j["k"] = "iface"
		ms := []string{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		j["methods"] = ms
	case *types.Signature:
		j["k"] = "func"
		ps, rs := []string{}, []string{}
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, typ(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, typ(u.Results().At(i).Type()))
		}
		j["params"], j["results"] = ps, rs
		j["variadic"] = u.Variadic()
	case *types.Tuple:
		j["k"] = "tuple"
		es := []string{}
		for i := 0; i < u.Len(); i++ {
			es = append(es, typ(u.At(i).Type()))
		}
		j["es"] = es
	case *types.TypeParam:
		j["k"] = "typeparam"
	default:
		j["k"] = "opaque"
	}
	typeList = append(typeList, t)
	return s
}

func fname(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Parent() != nil {
		return fname(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	if recv := f.Signature.Recv(); recv != nil {
		return "(" + ts(recv.Type()) + ")." + f.Name()
	}
	if len(f.FreeVars) > 0 && f.Synthetic != "" { // bound method
		return "(" + ts(f.FreeVars[0].Type()) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return qual(f.Pkg.Pkg) + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return qual(f.Object().Pkg()) + "." + f.Name()
	}
	return f.String()
}

type fnDump struct {
	regs map[ssa.Value]string
}

func (d *fnDump) val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		j := J{"k": "c", "t": typ(x.Type())}
		if x.Value == nil {
			j["v"] = nil
			j["zero"] = true
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				j["v"] = constant.BoolVal(x.Value)
			case constant.String:
				b := []byte(constant.StringVal(x.Value))
				arr := make([]int, len(b))
				for i := range b {
					arr[i] = int(b[i])
				}
				j["v"] = arr
				j["s"] = true
			case constant.Int:
				j["v"] = x.Value.ExactString()
				j["i"] = true
			case constant.Float:
				f, _ := constant.Float64Val(x.Value)
				j["v"] = fmt.Sprintf("%v", f)
				j["f"] = true
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if iv := constant.ToInt(x.Value); iv.Kind() == constant.Int {
						j["v"] = iv.ExactString()
						j["i"] = true
						delete(j, "f")
					}
				}
			default:
				j["v"] = x.Value.ExactString()
				j["o"] = true
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "g", "n": gname(x), "t": typ(x.Type())}
	case *ssa.Function:
		return J{"k": "f", "n": fname(x), "t": typ(x.Signature)}
	case *ssa.Builtin:
		return J{"k": "b", "n": x.Name()}
	}
	n, ok := d.regs[v]
	if !ok {
		n = "?" + v.Name()
	}
	return J{"k": "r", "n": n, "t": typ(v.Type())}
}

func gname(g *ssa.Global) string {
	if g.Pkg != nil {
		return qual(g.Pkg.Pkg) + "." + g.Name()
	}
	return g.Name()
}

func (d *fnDump) vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, d.val(v))
	}
	return r
}

func (d *fnDump) call(c *ssa.CallCommon) J {
	j := J{}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["iface"] = typ(c.Value.Type())
		j["recv"] = d.val(c.Value)
	} else {
		j["fn"] = d.val(c.Value)
	}
	j["args"] = d.vals(c.Args)
	j["sig"] = typ(c.Signature())
	return j
}

func (d *fnDump) instr(fset *token.FileSet, in ssa.Instruction) J {
	j := J{}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = d.regs[v]
		j["t"] = typ(v.Type())
	}
	if in.Pos().IsValid() {
		j["line"] = fset.Position(in.Pos()).Line
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		j["op"] = "alloc"
		j["heap"] = x.Heap
		j["c"] = x.Comment
	case *ssa.BinOp:
		j["op"] = "binop"
		j["o"] = x.Op.String()
		j["x"], j["y"] = d.val(x.X), d.val(x.Y)
	case *ssa.UnOp:
		j["op"] = "unop"
		j["o"] = x.Op.String()
		j["x"] = d.val(x.X)
		j["ok"] = x.CommaOk
	case *ssa.Call:
		j["op"] = "call"
		j["call"] = d.call(&x.Call)
	case *ssa.Go:
		j["op"] = "go"
		j["call"] = d.call(&x.Call)
	case *ssa.Defer:
		j["op"] = "defer"
		j["call"] = d.call(&x.Call)
	case *ssa.ChangeInterface:
		j["op"] = "changeiface"
		j["x"] = d.val(x.X)
	case *ssa.ChangeType:
		j["op"] = "changetype"
		j["x"] = d.val(x.X)
	case *ssa.Convert:
		j["op"] = "convert"
		j["x"] = d.val(x.X)
	case *ssa.MultiConvert:
		j["op"] = "convert"
		j["x"] = d.val(x.X)
	case *ssa.SliceToArrayPointer:
		j["op"] = "slicetoarrayptr"
		j["x"] = d.val(x.X)
	case *ssa.Extract:
		j["op"] = "extract"
		j["x"] = d.val(x.Tuple)
		j["i"] = x.Index
	case *ssa.Field:
		j["op"] = "field"
		j["x"] = d.val(x.X)
		j["i"] = x.Field
	case *ssa.FieldAddr:
		j["op"] = "fieldaddr"
		j["x"] = d.val(x.X)
		j["i"] = x.Field
	case *ssa.Index:
		j["op"] = "index"
		j["x"], j["y"] = d.val(x.X), d.val(x.Index)
	case *ssa.IndexAddr:
		j["op"] = "indexaddr"
		j["x"], j["y"] = d.val(x.X), d.val(x.Index)
	case *ssa.Lookup:
		j["op"] = "lookup"
		j["x"], j["y"] = d.val(x.X), d.val(x.Index)
		j["ok"] = x.CommaOk
	case *ssa.MakeChan:
		j["op"] = "makechan"
		j["x"] = d.val(x.Size)
	case *ssa.MakeClosure:
		j["op"] = "makeclosure"
		j["fn"] = d.val(x.Fn)
		j["b"] = d.vals(x.Bindings)
	case *ssa.MakeInterface:
		j["op"] = "makeiface"
		j["x"] = d.val(x.X)
		j["xt"] = typ(x.X.Type())
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.MakeSlice:
		j["op"] = "makeslice"
		j["len"], j["cap"] = d.val(x.Len), d.val(x.Cap)
	case *ssa.Next:
		j["op"] = "next"
		j["x"] = d.val(x.Iter)
		j["str"] = x.IsString
	case *ssa.Phi:
		j["op"] = "phi"
		j["es"] = d.vals(x.Edges)
		j["c"] = x.Comment
	case *ssa.Range:
		j["op"] = "range"
		j["x"] = d.val(x.X)
	case *ssa.Select:
		j["op"] = "select"
		ss := []J{}
		for _, s := range x.States {
			ss = append(ss, J{"dir": int(s.Dir), "ch": d.val(s.Chan), "send": d.val(s.Send)})
		}
		j["states"] = ss
		j["block"] = x.Blocking
	case *ssa.Slice:
		j["op"] = "slice"
		j["x"], j["lo"], j["hi"], j["max"] = d.val(x.X), d.val(x.Low), d.val(x.High), d.val(x.Max)
	case *ssa.TypeAssert:
		j["op"] = "typeassert"
		j["x"] = d.val(x.X)
		j["at"] = typ(x.AssertedType)
		j["ok"] = x.CommaOk
	case *ssa.If:
		j["op"] = "if"
		j["x"] = d.val(x.Cond)
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.Return:
		j["op"] = "return"
		j["xs"] = d.vals(x.Results)
	case *ssa.Panic:
		j["op"] = "panic"
		j["x"] = d.val(x.X)
	case *ssa.RunDefers:
		j["op"] = "rundefers"
	case *ssa.Send:
		j["op"] = "send"
		j["ch"], j["x"] = d.val(x.Chan), d.val(x.X)
	case *ssa.Store:
		j["op"] = "store"
		j["a"], j["x"] = d.val(x.Addr), d.val(x.Val)
	case *ssa.MapUpdate:
		j["op"] = "mapupdate"
		j["m"], j["key"], j["x"] = d.val(x.Map), d.val(x.Key), d.val(x.Value)
	case *ssa.DebugRef:
		return nil
	default:
		j["op"] = "unknown"
		j["s"] = in.String()
	}
	return j
}

func dumpFn(fset *token.FileSet, f *ssa.Function) J {
	d := &fnDump{regs: map[ssa.Value]string{}}
	ps := []J{}
	for i, p := range f.Params {
		d.regs[p] = fmt.Sprintf("p%d", i)
		ps = append(ps, J{"name": p.Name(), "t": typ(p.Type())})
	}
	fvs := []J{}
	for i, p := range f.FreeVars {
		d.regs[p] = fmt.Sprintf("fv%d", i)
		fvs = append(fvs, J{"name": p.Name(), "t": typ(p.Type())})
	}
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				d.regs[v] = fmt.Sprintf("t%d", n)
				n++
			}
		}
	}
	blocks := []J{}
	for _, b := range f.Blocks {
		ins := []J{}
		for _, in := range b.Instrs {
			if j := d.instr(fset, in); j != nil {
				ins = append(ins, j)
			}
		}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		blocks = append(blocks, J{"i": b.Index, "succs": su, "preds": pr, "ins": ins, "c": b.Comment})
	}
	rs := []string{}
	rn := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, typ(f.Signature.Results().At(i).Type()))
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	pos := fset.Position(f.Pos())
	j := J{"name": fname(f), "params": ps, "freevars": fvs, "results": rs, "rnames": rn, "blocks": blocks,
		"file": strings.TrimPrefix(pos.Filename, "/repo/"), "line": pos.Line, "syn": f.Synthetic, "variadic": f.Signature.Variadic()}
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	if f.Parent() != nil {
		j["parent"] = fname(f.Parent())
	}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Name()
		j["pkgpath"] = f.Pkg.Pkg.Path()
	}
	return j
}

func main() {
	dir := "/repo"
	if len(os.Args) > 1 {
		dir = os.Args[1]
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedModule, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			nerr++
		}
	})
	if nerr > 0 {
		os.Exit(3)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	repoPkgs := map[*ssa.Package]bool{}
	for _, p := range spkgs {
		if p != nil && isRepo(p.Pkg) {
			repoPkgs[p] = true
		}
	}
	fns := map[string]J{}
	var order []string
	methods := map[string]map[string]string{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil {
			return
		}
		n := fname(f)
		if _, ok := fns[n]; ok {
			return
		}
		if f.Blocks == nil {
			return
		}
		own := f.Pkg != nil && repoPkgs[f.Pkg]
		if !own && f.Synthetic == "" {
			return
		}
		fns[n] = dumpFn(prog.Fset, f)
		order = append(order, n)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	globals := map[string]string{}
	all := ssautil.AllFunctions(prog)
	var fl []*ssa.Function
	for f := range all {
		if (f.Pkg != nil && repoPkgs[f.Pkg]) || (f.Synthetic != "" && f.Signature.Recv() != nil && strings.Contains(f.String(), mod)) || (f.Synthetic != "" && strings.Contains(f.String(), mod)) {
			fl = append(fl, f)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fname(fl[i]) < fname(fl[j]) })
	for _, f := range fl {
		add(f)
	}
	for p := range repoPkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Global:
				globals[gname(x)] = typ(x.Type().(*types.Pointer).Elem())
			case *ssa.Type:
				t := x.Type()
				if _, isI := t.Underlying().(*types.Interface); isI {
					typ(t)
					continue
				}
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					typ(tt)
					ms := prog.MethodSets.MethodSet(tt)
					mm := map[string]string{}
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f == nil {
							continue
						}
						add(f)
						mm[ms.At(i).Obj().Name()] = fname(f)
					}
					methods[ts(tt)] = mm
				}
			}
		}
	}
	// method names of every other named type seen (to resolve type assertions to interfaces)
	for i := 0; i < len(typeList); i++ {
		t := typeList[i]
		s := ts(t)
		if _, ok := methods[s]; ok {
			continue
		}
		if _, isI := t.Underlying().(*types.Interface); isI {
			continue
		}
		ms := types.NewMethodSet(t)
		mm := map[string]string{}
		for k := 0; k < ms.Len(); k++ {
			nm := ms.At(k).Obj().Name()
			mm[nm] = "(" + s + ")." + nm
		}
		methods[s] = mm
	}
	sort.Strings(order)
	var fl2 []J
	for _, n := range order {
		fl2 = append(fl2, fns[n])
	}
	out := J{"functions": fl2, "types": typeTab, "globals": globals, "methods": methods}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
