// gossa DIR: the SSA form of the Go package in DIR (cgo included), as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]any

func ref(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		if x.Value == nil {
			return J{"k": "nil", "t": x.Type().String()}
		}
		return J{"k": "const", "v": x.Value.ExactString(), "t": x.Type().String()}
	case *ssa.Function:
		return J{"k": "fn", "n": x.String()}
	case *ssa.Builtin:
		return J{"k": "builtin", "n": x.Name()}
	case *ssa.Global:
		return J{"k": "global", "n": x.Name()}
	}
	return J{"k": "v", "n": v.Name()}
}

func refs(vs []ssa.Value) []any {
	out := []any{}
	for _, v := range vs {
		out = append(out, ref(v))
	}
	return out
}

func call(c *ssa.CallCommon) J {
	j := J{"f": ref(c.Value), "args": refs(c.Args)}
	if c.IsInvoke() {
		j["invoke"] = c.Method.Name()
	}
	return j
}

func instr(i ssa.Instruction) J {
	j := J{"op": fmt.Sprintf("%T", i)[5:]}
	if v, ok := i.(ssa.Value); ok {
		j["n"], j["t"] = v.Name(), v.Type().String()
	}
	switch x := i.(type) {
	case *ssa.Call:
		for k, v := range call(&x.Call) {
			j[k] = v
		}
	case *ssa.Defer:
		for k, v := range call(&x.Call) {
			j[k] = v
		}
	case *ssa.Go:
		for k, v := range call(&x.Call) {
			j[k] = v
		}
	case *ssa.BinOp:
		j["tok"], j["x"], j["y"] = x.Op.String(), ref(x.X), ref(x.Y)
	case *ssa.UnOp:
		j["tok"], j["x"] = x.Op.String(), ref(x.X)
	case *ssa.If:
		j["x"] = ref(x.Cond)
	case *ssa.FieldAddr:
		j["x"], j["i"] = ref(x.X), x.Field
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		j["field"] = st.Field(x.Field).Name()
	case *ssa.Field:
		j["x"], j["i"] = ref(x.X), x.Field
		j["field"] = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		j["x"], j["y"] = ref(x.X), ref(x.Index)
	case *ssa.Index:
		j["x"], j["y"] = ref(x.X), ref(x.Index)
	case *ssa.Store:
		j["x"], j["y"] = ref(x.Addr), ref(x.Val)
	case *ssa.Return:
		j["args"] = refs(x.Results)
	case *ssa.MakeClosure:
		j["x"], j["args"] = ref(x.Fn), refs(x.Bindings)
	case *ssa.MakeSlice:
		j["x"], j["y"] = ref(x.Len), ref(x.Cap)
	case *ssa.Phi:
		j["args"] = refs(x.Edges)
	case *ssa.Extract:
		j["x"], j["i"] = ref(x.Tuple), x.Index
	case *ssa.Convert:
		j["x"] = ref(x.X)
	case *ssa.ChangeType:
		j["x"] = ref(x.X)
	case *ssa.MakeInterface:
		j["x"] = ref(x.X)
	case *ssa.ChangeInterface:
		j["x"] = ref(x.X)
	case *ssa.TypeAssert:
		j["x"] = ref(x.X)
	case *ssa.Slice:
		j["x"], j["lo"], j["hi"] = ref(x.X), ref(x.Low), ref(x.High)
		if x.Low == nil {
			j["lo"] = nil
		}
		if x.High == nil {
			j["hi"] = nil
		}
	case *ssa.SliceToArrayPointer:
		j["x"] = ref(x.X)
	case *ssa.Panic:
		j["x"] = ref(x.X)
	case *ssa.Alloc:
		j["heap"] = x.Heap
	}
	return j
}

func main() {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: os.Args[1]}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil || len(pkgs) != 1 {
		fmt.Fprintln(os.Stderr, "load:", err, len(pkgs))
		os.Exit(3)
	}
	for _, e := range pkgs[0].Errors {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	if len(pkgs[0].Errors) > 0 {
		os.Exit(4)
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	fns := []J{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != sp[0] || f.Synthetic != "" && f.Blocks == nil {
			continue
		}
		j := J{"name": f.String(), "exported": f.Object() != nil && f.Object().Exported(), "synthetic": f.Synthetic}
		ps, fv, bbs := []J{}, []string{}, []J{}
		for _, p := range f.Params {
			ps = append(ps, J{"n": p.Name(), "t": p.Type().String()})
		}
		for _, v := range f.FreeVars {
			fv = append(fv, v.Name())
		}
		for _, b := range f.Blocks {
			is, ss, pp := []J{}, []int{}, []int{}
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.DebugRef); ok {
					continue
				}
				is = append(is, instr(i))
			}
			for _, s := range b.Succs {
				ss = append(ss, s.Index)
			}
			for _, s := range b.Preds {
				pp = append(pp, s.Index)
			}
			bbs = append(bbs, J{"is": is, "succs": ss, "preds": pp})
		}
		j["params"], j["free"], j["bbs"] = ps, fv, bbs
		rs := []string{}
		for k := 0; k < f.Signature.Results().Len(); k++ {
			rs = append(rs, f.Signature.Results().At(k).Type().String())
		}
		j["results"] = rs
		fns = append(fns, j)
	}
	consts := J{}
	sc := pkgs[0].Types.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && c.Val().Kind() == constant.Int {
			consts[n] = c.Val().ExactString()
		}
	}
	json.NewEncoder(os.Stdout).Encode(J{"fns": fns, "consts": consts})
}
