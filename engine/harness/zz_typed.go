package main

// Overlay file of /verif (never part of /repo): dumps the library as the compiler under test resolves and types it, before lowering.

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/g-dx/clarac/lex"
)

var zzTOps = map[int]string{
	opError: "error", opAdd: "+", opSub: "-", opMul: "*", opDiv: "/", opBLeft: "<<", opBRight: ">>", opBAnd: "&", opBOr: "|", opBXor: "^", opGt: ">", opGte: ">=",
	opLt: "<", opLte: "<=", opEq: "==", opDot: ".", opOr: "or", opAnd: "and", opNot: "not", opBNot: "~", opNeg: "neg", opTernary: "?:", opArray: "index",
	opFuncCall: "call", opIdentifier: "id", opLit: "lit", opArrayLit: "arraylit", opReturn: "return", opWhile: "while", opFor: "for", opRange: "range", opIf: "if",
	opElseIf: "elseif", opElse: "else", opMatch: "match", opCase: "case", opAs: "=", opDas: ":=", opBlockFnDcl: "blockfn", opExprFnDcl: "exprfn",
	opExternFnDcl: "externfn", opStructDcl: "struct", opEnumDcl: "enum", opConsFnDcl: "cons", opFuncType: "fntype", opArrayType: "arraytype",
	opNamedType: "named", opTypeList: "typelist", opRoot: "root",
}

type zzTD struct {
	syms map[*Symbol]int
	out  []interface{}
}

func (d *zzTD) sym(s *Symbol) interface{} {
	if s == nil {
		return nil
	}
	if i, ok := d.syms[s]; ok {
		return i
	}
	i := len(d.syms)
	d.syms[s] = i
	m := map[string]interface{}{"name": s.Name, "addr": s.Addr, "global": s.IsGlobal, "type": s.IsType}
	d.out = append(d.out, m)
	if s.Type != nil {
		m["typ"] = d.typ(s.Type)
		if s.Type.Is(Function) {
			f := s.Type.AsFunction()
			m["fkind"] = int(f.Kind)
			m["raw"] = f.RawValues
			if f.Kind == EnumCons {
				m["tag"] = f.AsEnumCons().Tag
			}
			var ps []interface{}
			for _, p := range f.Params {
				ps = append(ps, d.typ(p))
			}
			m["params"] = ps
			if f.ret != nil {
				m["ret"] = d.typ(f.ret)
			}
		}
	}
	return i
}

func (d *zzTD) typ(t *Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}

func (d *zzTD) node(n *Node) interface{} {
	if n == nil {
		return nil
	}
	op, ok := zzTOps[n.op]
	if !ok {
		op = "op" + strconv.Itoa(n.op)
	}
	m := map[string]interface{}{"op": op}
	if n.token != nil {
		m["val"] = n.token.Val
		m["line"] = n.token.Line
		m["file"] = filepath.Base(n.token.File)
		if op == "lit" {
			switch n.token.Kind {
			case lex.Integer:
				m["kind"] = "int"
			case lex.String:
				m["kind"] = "string"
				v := []int{}
				for _, b := range []byte(n.token.Val) {
					v = append(v, int(b))
				}
				m["bytes"] = v
			default:
				m["kind"] = "bool"
			}
		}
	}
	if n.sym != nil {
		m["sym"] = d.sym(n.sym)
	}
	if n.typ != nil {
		m["typ"] = d.typ(n.typ)
	}
	if n.left != nil {
		m["l"] = d.node(n.left)
	}
	if n.right != nil {
		m["r"] = d.node(n.right)
	}
	if len(n.stmts) > 0 {
		var st []interface{}
		for _, s := range n.stmts {
			st = append(st, d.node(s))
		}
		m["s"] = st
	}
	if len(n.params) > 0 {
		var st []interface{}
		for _, s := range n.params {
			st = append(st, d.node(s))
		}
		m["p"] = st
	}
	return m
}

func init() {
	lib := os.Getenv("CLARA_VERIF_TYPED")
	if lib == "" {
		return
	}
	res := map[string]interface{}{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				res["panic"] = fmt.Sprint(r)
			}
		}()
		rootSymtab := NewSymtab()
		rootNode := &Node{op: opRoot, symtab: rootSymtab}
		for _, s := range stdSyms() {
			rootSymtab.Define(s)
		}
		var errs []error
		paths, _ := filepath.Glob(lib + "/*.clara")
		for _, f := range append(paths, strings.Fields(os.Getenv("CLARA_VERIF_PROG"))...) {
			b, err := ioutil.ReadFile(f)
			if err != nil {
				errs = append(errs, err)
				break
			}
			errs = append(errs, lexAndParse(string(b), f, rootNode, false, ioutil.Discard)...)
		}
		if len(errs) == 0 {
			errs = append(errs, processTopLevelTypes(rootNode, rootSymtab)...)
		}
		if len(errs) == 0 {
			WalkPostOrder(rootNode, func(n *Node) { generateStructConstructors(&errs, rootNode, n) })
			WalkPreOrder(rootNode, func(n *Node) bool {
				if n == nil {
					return true
				}
				foldConstants(&errs, n)
				return true
			})
		}
		if len(errs) == 0 {
			errs = append(errs, typeCheck(rootNode, rootSymtab, nil, false)...)
		}
		if len(errs) > 0 {
			res["errors"] = fmt.Sprint(errs)
			return
		}
		d := &zzTD{syms: map[*Symbol]int{}}
		var st []interface{}
		for _, n := range rootNode.stmts {
			st = append(st, d.node(n))
		}
		res["stmts"] = st
		res["syms"] = d.out
	}()
	b, _ := json.Marshal(res)
	os.Stdout.Write(b)
	os.Exit(0)
}
