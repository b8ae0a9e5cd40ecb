package main

// Overlay file of /verif (never part of /repo): dumps what the front end of the compiler under test makes of its input.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"github.com/g-dx/clarac/lex"
	"io"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
)

var zzKinds = map[lex.Kind]string{
	lex.Err: "Err", lex.RBrace: "RBrace", lex.LBrace: "LBrace", lex.RParen: "RParen", lex.LParen: "LParen", lex.RBrack: "RBrack", lex.LBrack: "LBrack",
	lex.Comma: "Comma", lex.Colon: "Colon", lex.Dot: "Dot", lex.Hash: "Hash", lex.Question: "Question", lex.Comment: "Comment", lex.Identifier: "Identifier",
	lex.String: "String", lex.Integer: "Integer", lex.Plus: "Plus", lex.Mul: "Mul", lex.Div: "Div", lex.Min: "Min", lex.LGmet: "LGmet", lex.RGmet: "RGmet",
	lex.BAnd: "BAnd", lex.BOr: "BOr", lex.BNot: "BNot", lex.BXor: "BXor", lex.BLeft: "BLeft", lex.BRight: "BRight", lex.Gt: "Gt", lex.Gte: "Gte", lex.Lt: "Lt",
	lex.Lte: "Lte", lex.Eq: "Eq", lex.Space: "Space", lex.EOL: "EOL", lex.EOF: "EOF", lex.Das: "Das", lex.As: "As", lex.DotDot: "DotDot", lex.Fn: "Fn",
	lex.Return: "Return", lex.If: "If", lex.ElseIf: "ElseIf", lex.Else: "Else", lex.True: "True", lex.False: "False", lex.Not: "Not", lex.And: "And", lex.Or: "Or",
	lex.Struct: "Struct", lex.While: "While", lex.For: "For", lex.In: "In", lex.Enum: "Enum", lex.Match: "Match", lex.Case: "Case", lex.Type: "Type",
}

var zzOps = map[int]string{
	opError: "error", opAdd: "+", opSub: "-", opMul: "*", opDiv: "/", opBLeft: "<<", opBRight: ">>", opBAnd: "&", opBOr: "|", opBXor: "^", opGt: ">", opGte: ">=",
	opLt: "<", opLte: "<=", opEq: "==", opDot: ".", opOr: "or", opAnd: "and", opNot: "not", opBNot: "~", opNeg: "neg", opTernary: "?:", opArray: "index",
	opFuncCall: "call", opIdentifier: "id", opLit: "lit", opArrayLit: "arraylit", opReturn: "return", opWhile: "while", opFor: "for", opRange: "range", opIf: "if",
	opElseIf: "elseif", opElse: "else", opMatch: "match", opCase: "case", opAs: "=", opDas: ":=", opBlockFnDcl: "blockfn", opExprFnDcl: "exprfn",
	opExternFnDcl: "externfn", opStructDcl: "struct", opEnumDcl: "enum", opConsFnDcl: "cons", opFuncType: "fntype", opArrayType: "arraytype",
	opNamedType: "named", opTypeList: "typelist", opRoot: "root",
}

func zzTree(n *Node) interface{} {
	if n == nil {
		return nil
	}
	op, ok := zzOps[n.op]
	if !ok {
		op = "op" + strconv.Itoa(n.op)
	}
	val := ""
	if n.token != nil {
		val = n.token.Val
	}
	var st, ps []interface{}
	for _, s := range n.stmts {
		st = append(st, zzTree(s))
	}
	for _, s := range n.params {
		ps = append(ps, zzTree(s))
	}
	return []interface{}{op, val, zzTree(n.left), zzTree(n.right), st, ps, int(n.attrs)}
}

// input: frames "<bytes>\n<data>"; output: one JSON line per frame
func init() {
	mode := os.Getenv("CLARA_VERIF_DUMP")
	if mode == "" {
		return
	}
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			break
		}
		n, _ := strconv.Atoi(strings.TrimSpace(l))
		buf := make([]byte, n)
		if _, err := io.ReadFull(in, buf); err != nil {
			break
		}
		r := zzDump(mode, string(buf))
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteString("\n")
		out.Flush()
	}
	out.Flush()
	os.Exit(0)
}

func zzDump(mode, text string) (res map[string]interface{}) {
	res = map[string]interface{}{}
	defer func() {
		if r := recover(); r != nil {
			res["panic"] = fmt.Sprint(r)
		}
	}()
	switch mode {
	case "lex":
		var toks []interface{}
		l := lex.Lex(text, "f")
		for i := 0; i <= 4*len(text)+8; i++ {
			t := l.NextToken()
			v := []int{}
			for _, b := range []byte(t.Val) {
				v = append(v, int(b))
			}
			toks = append(toks, []interface{}{zzKinds[t.Kind], v, t.Line, t.Pos})
			if t.Kind == lex.EOF || t.Kind == lex.Err {
				break
			}
		}
		res["tokens"] = toks
	case "parse":
		root := &Node{op: opRoot}
		errs := lexAndParse(text, "f", root, false, ioutil.Discard)
		var es []string
		for _, e := range errs {
			es = append(es, e.Error())
		}
		res["errors"] = es
		res["tree"] = zzTree(root)
	}
	return
}
