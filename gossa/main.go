// gossa: extracts, on every run, the SSA form of every function of the module
// under /repo (the current working tree) as JSON, for the condition generator.
// What the extraction drops: comments, source positions other than the line of
// each instruction, debug references.  Nothing else: all functions, methods,
// package initialisers and anonymous functions of the module are emitted.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]interface{}

var (
	typeIDs  = map[string]int{}
	typeTab  []M
	modPath  = "github.com/dusk-network/dusk-crypto/"
)

func short(s string) string { return strings.ReplaceAll(s, modPath, "") }

func typeID(t types.Type) int {
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	typeTab = append(typeTab, nil)
	m := M{"str": short(key)}
	switch u := t.(type) {
	case *types.Alias:
		r := typeID(types.Unalias(t))
		m["k"] = "alias"
		m["u"] = r
	case *types.Named:
		m["k"] = "named"
		n := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			n = short(u.Obj().Pkg().Path()) + "." + n
		}
		m["name"] = n
		m["u"] = typeID(u.Underlying())
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = u.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = typeID(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = typeID(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = typeID(u.Elem())
		m["n"] = u.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = typeID(u.Key())
		m["e"] = typeID(u.Elem())
	case *types.Struct:
		m["k"] = "struct"
		var fs []M
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, M{"name": f.Name(), "t": typeID(f.Type()), "emb": f.Embedded()})
		}
		m["fields"] = fs
	case *types.Interface:
		m["k"] = "iface"
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Tuple:
		m["k"] = "tuple"
		var ts []int
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, typeID(u.At(i).Type()))
		}
		m["ts"] = ts
	case *types.Signature:
		m["k"] = "func"
		var ps, rs []int
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, typeID(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, typeID(u.Results().At(i).Type()))
		}
		m["params"] = ps
		m["results"] = rs
		m["variadic"] = u.Variadic()
	default:
		m["k"] = "other"
	}
	typeTab[id] = m
	return id
}

func val(v ssa.Value) M {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "c", "t": typeID(x.Type())}
		if x.Value == nil {
			m["v"] = nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				m["v"] = M{"s": []byte(constant.StringVal(x.Value))}
			case constant.Int:
				m["v"] = M{"i": x.Value.ExactString()}
			default:
				// typed float consts converted to ints etc.
				m["v"] = M{"x": x.Value.ExactString()}
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "g", "n": short(x.String()), "t": typeID(x.Type())}
	case *ssa.Function:
		return M{"k": "f", "n": short(x.String()), "t": typeID(x.Type())}
	case *ssa.Builtin:
		return M{"k": "b", "n": x.Name()}
	default:
		return M{"k": "r", "n": v.Name()}
	}
}

func vals(vs []ssa.Value) []M {
	r := []M{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func callCommon(m M, c *ssa.CallCommon) {
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["itype"] = typeID(c.Value.Type())
	} else {
		m["fn"] = val(c.Value)
	}
	m["args"] = vals(c.Args)
	m["sig"] = typeID(c.Signature())
}

func instr(prog *ssa.Program, in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = typeID(v.Type())
	}
	if p := in.Pos(); p.IsValid() {
		m["line"] = prog.Fset.Position(p).Line
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = x.Heap
		m["c"] = x.Comment
	case *ssa.Phi:
		m["op"] = "phi"
		m["c"] = x.Comment
		m["edges"] = vals(x.Edges)
	case *ssa.Call:
		m["op"] = "call"
		callCommon(m, &x.Call)
	case *ssa.BinOp:
		m["op"] = "binop"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["y"] = val(x.Y)
		m["xt"] = typeID(x.X.Type())
		m["yt"] = typeID(x.Y.Type())
	case *ssa.UnOp:
		m["op"] = "unop"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
		m["commaok"] = x.CommaOk
	case *ssa.ChangeType:
		m["op"] = "changetype"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "convert"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
	case *ssa.ChangeInterface:
		m["op"] = "changeiface"
		m["x"] = val(x.X)
	case *ssa.MakeInterface:
		m["op"] = "makeiface"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
	case *ssa.SliceToArrayPointer:
		m["op"] = "slice2arrptr"
		m["x"] = val(x.X)
	case *ssa.MakeClosure:
		m["op"] = "closure"
		m["fn"] = val(x.Fn)
		m["bind"] = vals(x.Bindings)
	case *ssa.MakeMap:
		m["op"] = "makemap"
	case *ssa.MakeChan:
		m["op"] = "makechan"
	case *ssa.MakeSlice:
		m["op"] = "makeslice"
		m["len"] = val(x.Len)
		m["cap"] = val(x.Cap)
	case *ssa.Slice:
		m["op"] = "slice"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
		if x.Low != nil {
			m["lo"] = val(x.Low)
		}
		if x.High != nil {
			m["hi"] = val(x.High)
		}
		if x.Max != nil {
			m["max"] = val(x.Max)
		}
	case *ssa.FieldAddr:
		m["op"] = "fieldaddr"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.Field:
		m["op"] = "field"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.IndexAddr:
		m["op"] = "indexaddr"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
		m["i"] = val(x.Index)
	case *ssa.Index:
		m["op"] = "index"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
		m["i"] = val(x.Index)
	case *ssa.Lookup:
		m["op"] = "lookup"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
		m["i"] = val(x.Index)
		m["commaok"] = x.CommaOk
	case *ssa.Select:
		m["op"] = "select"
	case *ssa.Range:
		m["op"] = "range"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
	case *ssa.Next:
		m["op"] = "next"
		m["x"] = val(x.Iter)
		m["isstring"] = x.IsString
	case *ssa.TypeAssert:
		m["op"] = "typeassert"
		m["x"] = val(x.X)
		m["at"] = typeID(x.AssertedType)
		m["commaok"] = x.CommaOk
	case *ssa.Extract:
		m["op"] = "extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.If:
		m["op"] = "if"
		m["x"] = val(x.Cond)
	case *ssa.Return:
		m["op"] = "return"
		m["res"] = vals(x.Results)
	case *ssa.Panic:
		m["op"] = "panic"
		m["x"] = val(x.X)
	case *ssa.Go:
		m["op"] = "go"
		callCommon(m, &x.Call)
	case *ssa.Defer:
		m["op"] = "defer"
		callCommon(m, &x.Call)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.Send:
		m["op"] = "send"
	case *ssa.Store:
		m["op"] = "store"
		m["addr"] = val(x.Addr)
		m["val"] = val(x.Val)
	case *ssa.MapUpdate:
		m["op"] = "mapupdate"
		m["x"] = val(x.Map)
		m["key"] = val(x.Key)
		m["val"] = val(x.Value)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = "unknown"
		m["go"] = fmt.Sprintf("%T", in)
	}
	return m
}

func main() {
	dir := "/repo"
	if len(os.Args) > 1 {
		dir = os.Args[1]
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bad := false
	for _, p := range ps {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	}
	if bad {
		os.Exit(3)
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	own := map[*types.Package]bool{}
	for _, p := range ps {
		own[p.Types] = true
	}
	fns := M{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Parent() == nil {
			// wrappers/thunks: emit when they wrap an own method
			if fn.Object() == nil || fn.Object().Pkg() == nil || !own[fn.Object().Pkg()] {
				continue
			}
		} else if fn.Pkg != nil && !own[fn.Pkg.Pkg] {
			continue
		}
		if len(fn.Blocks) == 0 {
			continue
		}
		var params []M
		for _, p := range fn.Params {
			params = append(params, M{"n": p.Name(), "t": typeID(p.Type())})
		}
		var fvs []M
		for _, p := range fn.FreeVars {
			fvs = append(fvs, M{"n": p.Name(), "t": typeID(p.Type())})
		}
		var res []int
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			res = append(res, typeID(fn.Signature.Results().At(i).Type()))
		}
		var blocks []M
		for _, b := range fn.Blocks {
			var ins []M
			for _, in := range b.Instrs {
				if m := instr(prog, in); m != nil {
					ins = append(ins, m)
				}
			}
			preds, succs := []int{}, []int{}
			for _, p := range b.Preds {
				preds = append(preds, p.Index)
			}
			for _, s := range b.Succs {
				succs = append(succs, s.Index)
			}
			blocks = append(blocks, M{"ins": ins, "preds": preds, "succs": succs, "c": b.Comment})
		}
		file, line := "", 0
		if fn.Pos().IsValid() {
			ps := prog.Fset.Position(fn.Pos())
			file, line = ps.Filename, ps.Line
		}
		obj := M{"params": params, "fv": fvs, "res": res, "blocks": blocks, "file": strings.TrimPrefix(file, dir+"/"),
			"line": line, "variadic": fn.Signature.Variadic(), "synthetic": fn.Synthetic}
		if fn.Recover != nil {
			obj["recover"] = true
		}
		fns[short(fn.String())] = obj
	}
	globals := M{}
	var mset []M
	for _, p := range ps {
		sp := prog.Package(p.Types)
		for _, mem := range sp.Members {
			if g, ok := mem.(*ssa.Global); ok {
				globals[short(g.String())] = typeID(g.Type())
			}
			if t, ok := mem.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil {
							mset = append(mset, M{"t": typeID(tt), "m": ms.At(i).Obj().Name(), "f": short(f.String())})
						}
					}
				}
			}
		}
	}
	out := M{"fns": fns, "types": typeTab, "globals": globals, "mset": mset}
	enc := json.NewEncoder(os.Stdout)
	if err := enc.Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
