// ssaexport loads the packages of a Go module and prints their go/ssa form as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}

var prog *ssa.Program
var own = map[*types.Package]bool{}
var typeIds = map[string]int{}
var typeTab []J
var queue []*ssa.Function
var seen = map[*ssa.Function]string{}
var fset *token.FileSet

func tid(t types.Type) int {
	key := types.TypeString(t, nil)
	if n, ok := t.(*types.Named); ok && n.TypeArgs() == nil {
		key = "N:" + key
	}
	if id, ok := typeIds[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIds[key] = id
	typeTab = append(typeTab, nil)
	j := J{"str": types.TypeString(t, func(p *types.Package) string { return p.Name() })}
	typeTab[id] = j
	switch t := t.(type) {
	case *types.Named:
		j["k"] = "named"
		j["name"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			j["pkg"] = t.Obj().Pkg().Name()
		}
		j["under"] = tid(t.Underlying())
		if t.Obj().Pkg() == nil || own[t.Obj().Pkg()] {
			ms := J{}
			if _, isI := t.Underlying().(*types.Interface); !isI {
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					mset := prog.MethodSets.MethodSet(tt)
					for i := 0; i < mset.Len(); i++ {
						fn := prog.MethodValue(mset.At(i))
						if fn != nil {
							pre := ""
							if tt != types.Type(t) {
								pre = "*"
							}
							ms[pre+mset.At(i).Obj().Name()] = fref(fn)
						}
					}
				}
			}
			j["methods"] = ms
		}
	case *types.Alias:
		j["k"] = "alias"
		j["under"] = tid(types.Unalias(t))
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = t.Name()
		j["info"] = int(t.Info())
	case *types.Pointer:
		j["k"] = "ptr"
		j["elem"] = tid(t.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["elem"] = tid(t.Elem())
	case *types.Array:
		j["k"] = "array"
		j["elem"] = tid(t.Elem())
		j["len"] = t.Len()
	case *types.Map:
		j["k"] = "map"
		j["key"] = tid(t.Key())
		j["elem"] = tid(t.Elem())
	case *types.Chan:
		j["k"] = "chan"
		j["elem"] = tid(t.Elem())
	case *types.Struct:
		j["k"] = "struct"
		fs := []J{}
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, J{"n": t.Field(i).Name(), "t": tid(t.Field(i).Type()), "emb": t.Field(i).Embedded()})
		}
		j["fields"] = fs
	case *types.Signature:
		j["k"] = "func"
		ps := []int{}
		for i := 0; i < t.Params().Len(); i++ {
			ps = append(ps, tid(t.Params().At(i).Type()))
		}
		rs := []int{}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, tid(t.Results().At(i).Type()))
		}
		j["params"], j["results"], j["variadic"] = ps, rs, t.Variadic()
	case *types.Interface:
		j["k"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		j["methods"] = ms
	case *types.Tuple:
		j["k"] = "tuple"
		ts := []int{}
		for i := 0; i < t.Len(); i++ {
			ts = append(ts, tid(t.At(i).Type()))
		}
		j["types"] = ts
	default:
		j["k"] = "other"
	}
	return id
}

func fname(f *ssa.Function) string {
	if n, ok := seen[f]; ok {
		return n
	}
	n := f.RelString(nil)
	// shorten module paths
	n = short(n)
	for o, on := range seen {
		if on == n && o != f {
			n = fmt.Sprintf("%s#%d", n, len(seen))
		}
	}
	seen[f] = n
	queue = append(queue, f)
	return n
}

func short(n string) string {
	const m = "github.com/g-dx/clarac"
	out := ""
	for len(n) > 0 {
		if len(n) >= len(m) && n[:len(m)] == m {
			n = n[len(m):]
			if len(n) > 0 && n[0] == '/' {
				n = n[1:]
			} else {
				out += "main"
			}
			continue
		}
		out += n[:1]
		n = n[1:]
	}
	return out
}

func fref(f *ssa.Function) string { return fname(f) }

func val(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"k": "const", "t": tid(v.Type())}
		if v.Value == nil {
			j["nil"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["b"] = constant.BoolVal(v.Value)
			case constant.String:
				j["s"] = []byte(constant.StringVal(v.Value))
			case constant.Int:
				j["i"] = v.Value.ExactString()
			case constant.Float:
				// may be integral
				iv := constant.ToInt(v.Value)
				if iv.Kind() == constant.Int {
					j["i"] = iv.ExactString()
				} else {
					j["f"] = v.Value.ExactString()
				}
			default:
				j["f"] = v.Value.ExactString()
			}
		}
		return j
	case *ssa.Global:
		return J{"k": "global", "n": short(v.RelString(nil)), "t": tid(v.Type().(*types.Pointer).Elem())}
	case *ssa.Function:
		return J{"k": "func", "n": fref(v)}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": v.Name()}
	case *ssa.Parameter, *ssa.FreeVar:
		return v.Name()
	default:
		return v.Name()
	}
}

func call(c *ssa.CallCommon) J {
	j := J{}
	args := []interface{}{}
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	j["args"] = args
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
		j["x"] = val(c.Value)
	} else {
		j["x"] = val(c.Value)
	}
	j["nres"] = c.Signature().Results().Len()
	rs := []int{}
	for i := 0; i < c.Signature().Results().Len(); i++ {
		rs = append(rs, tid(c.Signature().Results().At(i).Type()))
	}
	j["rts"] = rs
	return j
}

func instr(i ssa.Instruction) J {
	j := J{}
	if v, ok := i.(ssa.Value); ok {
		j["r"] = v.Name()
		j["t"] = tid(v.Type())
	}
	if i.Pos().IsValid() {
		p := fset.Position(i.Pos())
		j["pos"] = p.Line
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		j["op"] = "alloc"
		j["elem"] = tid(x.Type().(*types.Pointer).Elem())
		j["heap"] = x.Heap
		j["c"] = x.Comment
	case *ssa.BinOp:
		j["op"] = "bin"
		j["o"] = x.Op.String()
		j["x"], j["y"] = val(x.X), val(x.Y)
		j["xt"] = tid(x.X.Type())
		j["yt"] = tid(x.Y.Type())
	case *ssa.UnOp:
		j["op"] = "un"
		j["o"] = x.Op.String()
		j["x"] = val(x.X)
		j["ok"] = x.CommaOk
	case *ssa.Call:
		j["op"] = "call"
		j["call"] = call(&x.Call)
	case *ssa.Defer:
		j["op"] = "defer"
		j["call"] = call(&x.Call)
	case *ssa.Go:
		j["op"] = "go"
		j["call"] = call(&x.Call)
	case *ssa.ChangeInterface:
		j["op"] = "chgiface"
		j["x"] = val(x.X)
	case *ssa.ChangeType:
		j["op"] = "chgtype"
		j["x"] = val(x.X)
	case *ssa.Convert:
		j["op"] = "convert"
		j["x"] = val(x.X)
		j["xt"] = tid(x.X.Type())
	case *ssa.Extract:
		j["op"] = "extract"
		j["x"] = val(x.Tuple)
		j["i"] = x.Index
	case *ssa.Field:
		j["op"] = "field"
		j["x"] = val(x.X)
		j["i"] = x.Field
		j["xt"] = tid(x.X.Type())
	case *ssa.FieldAddr:
		j["op"] = "fieldaddr"
		j["x"] = val(x.X)
		j["i"] = x.Field
		j["xt"] = tid(x.X.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.If:
		j["op"] = "if"
		j["x"] = val(x.Cond)
	case *ssa.Index:
		j["op"] = "index"
		j["x"], j["i"] = val(x.X), val(x.Index)
	case *ssa.IndexAddr:
		j["op"] = "indexaddr"
		j["x"], j["i"] = val(x.X), val(x.Index)
	case *ssa.Jump:
		j["op"] = "jump"
	case *ssa.Lookup:
		j["op"] = "lookup"
		j["x"], j["i"], j["ok"] = val(x.X), val(x.Index), x.CommaOk
		j["xt"] = tid(x.X.Type())
	case *ssa.MakeChan:
		j["op"] = "makechan"
		j["x"] = val(x.Size)
	case *ssa.MakeClosure:
		j["op"] = "closure"
		j["x"] = val(x.Fn)
		bs := []interface{}{}
		for _, b := range x.Bindings {
			bs = append(bs, val(b))
		}
		j["b"] = bs
	case *ssa.MakeInterface:
		j["op"] = "makeiface"
		j["x"] = val(x.X)
		j["xt"] = tid(x.X.Type())
	case *ssa.MakeMap:
		j["op"] = "makemap"
	case *ssa.MakeSlice:
		j["op"] = "makeslice"
		j["x"], j["y"] = val(x.Len), val(x.Cap)
	case *ssa.MapUpdate:
		j["op"] = "mapupdate"
		j["x"], j["i"], j["y"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Next:
		j["op"] = "next"
		j["x"] = val(x.Iter)
		j["str"] = x.IsString
	case *ssa.Panic:
		j["op"] = "panic"
		j["x"] = val(x.X)
	case *ssa.Phi:
		j["op"] = "phi"
		es := []interface{}{}
		for _, e := range x.Edges {
			es = append(es, val(e))
		}
		j["e"] = es
		j["c"] = x.Comment
	case *ssa.Range:
		j["op"] = "range"
		j["x"] = val(x.X)
		j["xt"] = tid(x.X.Type())
	case *ssa.Return:
		j["op"] = "return"
		rs := []interface{}{}
		for _, r := range x.Results {
			rs = append(rs, val(r))
		}
		j["x"] = rs
	case *ssa.RunDefers:
		j["op"] = "rundefers"
	case *ssa.Send:
		j["op"] = "send"
		j["x"], j["y"] = val(x.Chan), val(x.X)
	case *ssa.Slice:
		j["op"] = "slice"
		j["x"], j["lo"], j["hi"], j["max"] = val(x.X), val(x.Low), val(x.High), val(x.Max)
		j["xt"] = tid(x.X.Type())
	case *ssa.Store:
		j["op"] = "store"
		j["x"], j["y"] = val(x.Addr), val(x.Val)
	case *ssa.TypeAssert:
		j["op"] = "assert"
		j["x"] = val(x.X)
		j["at"] = tid(x.AssertedType)
		j["ok"] = x.CommaOk
	default:
		j["op"] = fmt.Sprintf("?%T", i)
	}
	return j
}

func fun(f *ssa.Function) J {
	j := J{"name": seen[f], "synth": f.Synthetic}
	if f.Pos().IsValid() {
		p := fset.Position(f.Pos())
		j["file"], j["line"] = p.Filename, p.Line
	}
	ps := []J{}
	for _, p := range f.Params {
		ps = append(ps, J{"n": p.Name(), "t": tid(p.Type())})
	}
	j["params"] = ps
	fv := []J{}
	for _, p := range f.FreeVars {
		fv = append(fv, J{"n": p.Name(), "t": tid(p.Type())})
	}
	j["free"] = fv
	rs := []J{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, J{"n": f.Signature.Results().At(i).Name(), "t": tid(f.Signature.Results().At(i).Type())})
	}
	j["results"] = rs
	j["recv"] = f.Signature.Recv() != nil
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	ext := true
	if f.Pkg != nil && own[f.Pkg.Pkg] {
		ext = false
	}
	if f.Pkg == nil && (f.Synthetic != "") {
		ext = false
	}
	if f.Parent() != nil {
		ext = false
		r := f
		for r.Parent() != nil {
			r = r.Parent()
		}
		if r.Pkg != nil && !own[r.Pkg.Pkg] {
			ext = true
		}
	}
	j["ext"] = ext
	if ext || f.Blocks == nil {
		j["ext"] = true
		return j
	}
	bs := []J{}
	for _, b := range f.Blocks {
		is := []J{}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(i))
		}
		pr, su := []int{}, []int{}
		for _, p := range b.Preds {
			pr = append(pr, p.Index)
		}
		for _, p := range b.Succs {
			su = append(su, p.Index)
		}
		bs = append(bs, J{"i": is, "p": pr, "s": su, "c": b.Comment})
	}
	j["blocks"] = bs
	return j
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(2)
	}
	var ssapkgs []*ssa.Package
	prog, ssapkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	fset = prog.Fset
	for _, p := range ssapkgs {
		own[p.Pkg] = true
	}
	for _, p := range ssapkgs {
		p.Build()
	}
	globals := []J{}
	inits := []string{}
	for _, p := range ssapkgs {
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				fname(m)
			case *ssa.Global:
				globals = append(globals, J{"n": short(m.RelString(nil)), "t": tid(m.Type().(*types.Pointer).Elem())})
			case *ssa.Type:
				tid(m.Type())
				tid(types.NewPointer(m.Type()))
			}
		}
		inits = append(inits, fref(p.Func("init")))
	}
	funcs := []J{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		funcs = append(funcs, fun(f))
	}
	consts := J{}
	for _, p := range ssapkgs {
		for n, m := range p.Members {
			if c, ok := m.(*ssa.NamedConst); ok {
				consts[short(p.Pkg.Path())+"."+n] = J{"v": c.Value.Value.ExactString(), "t": tid(c.Type())}
			}
		}
	}
	out := J{"types": typeTab, "funcs": funcs, "globals": globals, "inits": inits, "consts": consts}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
