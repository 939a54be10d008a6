package checks

// Building and running small programs against the reference interpreter.

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"unicode/utf8"
)

// refRun evaluates a program with the reference interpreter; ok is false when the
// program is too long running to be used.
func refRun(in *Interp, docs []*N, env *Env) (want []*V, rerr *evalErr, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooLong); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	want, rerr = in.Run(docs, env)
	in.raw = want
	return visibleDocs(want), rerr, true
}

func setFile(docs []*N, f string) {
	for _, d := range docs {
		d.walk(func(n *N) { n.File = f })
	}
}

func toErr(e *evalErr) error {
	if e == nil {
		return nil
	}
	return e
}

// RunProg prints a program, evaluates it and compares with the reference.
func (c *C) RunProg(docs []*N) (*Interp, []*V, *evalErr, Out) {
	setFile(docs, memLoc)
	src := printDocs(docs, c.Seed("layout"), c.Chance(15, "noise"))
	in := newInterp()
	want, rerr, ok := refRun(in, docs, newEnv())
	if !ok {
		c.T.Skip("too long")
	}
	o := c.Eval(src)
	c.Expect(o, want, toErr(rerr), true)
	return in, want, rerr, o
}

var anchorNames = []string{"v1", "v2", "foo", "x", "data", "item-1", "a_b", "r2d2"}

// callForm writes the call op(args...) in one of many equivalent ways and returns the
// whole program; the last document is a list or map holding the result.
func callForm(c *C, op string, args []*V) []*N {
	var docs []*N
	items := []*N{nStr(op)}
	if c.Chance(20, "quoted-op") {
		items[0].Q = pick(c, "op-q", byte('d'), byte('s'))
	}
	for i, a := range args {
		switch {
		case a.K == VLam || a.K == VType:
			panic("callForm: functions are passed as nodes")
		case c.Chance(22, "by-anchor"):
			name := fmt.Sprintf("%s%d", anchorNames[c.Int(0, len(anchorNames)-1, "anchor")], i)
			d := nLit(a)
			if c.Bool("anchor-quote") { // as data inside a document that is dropped or kept
				d = nOf(a)
				d.Anchor = name
				docs = append(docs, nYisp(nCall("progn", nQuote(nList(d)), nNull())))
			} else {
				d.Anchor = name
				docs = append(docs, nYisp(nCall("progn", d, nNull())))
			}
			items = append(items, nRef(name))
		case c.Chance(8, "by-expr"):
			items = append(items, nCall("progn", nLit(a)))
		case c.Chance(6, "by-if"):
			items = append(items, nCall("if", nBool(true), nLit(a), nNull()))
		case c.Chance(12, "made"):
			items = append(items, made(c, a, 2))
		default:
			n := nLit(a)
			respell(c, n)
			items = append(items, n)
		}
	}
	call := &N{K: NList, Items: items}
	return append(docs, wrapCall(c, call))
}

// made draws an expression that computes a value instead of spelling it out.
func made(c *C, v *V, d int) *N {
	if d == 0 || v.size() > 60 {
		return nLit(v)
	}
	sub := func(v *V) *N {
		if c.Bool("literal") {
			return nLit(v)
		}
		return made(c, v, d-1)
	}
	text := func(s string) *N {
		n := nStr(s)
		if c.Bool("quoted") {
			n.Q = 'd'
		}
		return n
	}
	id := func() *N { return lam([]string{"e"}, nRef("e")) }
	if inJSON(v) && c.Chance(30, "unmarshal") {
		if v.K == VList && len(v.L) > 0 && c.Bool("documents") {
			var ds []string
			for _, x := range v.L {
				ds = append(ds, x.jsonText())
			}
			return nCall("yaml.unmarshal", text(strings.Join(ds, "\n---\n")))
		}
		return nCall("lists.car", nCall("yaml.unmarshal", text(v.jsonText())))
	}
	switch v.K {
	case VInt:
		if v.I >= 0 && v.I <= 6 && c.Bool("count") {
			l := &V{K: VList}
			for i := int64(0); i < v.I; i++ {
				l.L = append(l.L, genScalar(c, "counted"))
			}
			return nCall("lists.length", sub(l))
		}
		if x := int64(c.Int(-3, 3, "part")); v.I < 1<<60 && v.I > -1<<60 {
			return nCall("+", nInt(v.I-x), sub(vInt(x)))
		}
	case VBool:
		switch c.Int(0, 2, "bool-by") {
		case 0:
			return nCall("!", sub(vBool(!v.B)))
		case 1:
			return nCall("&&", sub(v), nBool(true))
		default:
			return nCall("==", sub(vInt(1)), nInt(map[bool]int64{true: 1, false: 2}[v.B]))
		}
	case VNull:
		return nCall(pick(c, "null-by", "??", "progn"), sub(v))
	case VStr:
		if i := len(v.S) / 2; utf8.ValidString(v.S[:i]) && utf8.ValidString(v.S) {
			switch c.Int(0, 3, "string-by") {
			case 0:
				return nCall("strings.concat", sub(vStr(v.S[:i])), sub(vStr(v.S[i:])))
			case 1:
				return nCall("strings.join", sub(vList(vStr(v.S[:i]), vStr(v.S[i:]))), text(""))
			case 2:
				return nCall("maps.get", nQuote(nMapOf("k", nStr(v.S))), text("k"))
			default:
				return nCall("lists.at", sub(vList(vInt(1), v)), sub(vInt(1)))
			}
		}
	case VList:
		strs := len(v.L) > 0
		for _, x := range v.L {
			strs = strs && x.K == VStr && !strings.Contains(x.S, ";") && utf8.ValidString(x.S)
		}
		if strs && c.Bool("split") {
			var ss []string
			for _, x := range v.L {
				ss = append(ss, x.S)
			}
			return nCall("strings.split", text(strings.Join(ss, ";")), text(";"))
		}
		switch c.Int(0, 4, "list-by") {
		case 0:
			if len(v.L) > 0 {
				return nCall("lists.cons", sub(v.L[0]), sub(&V{K: VList, L: v.L[1:]}))
			}
		case 1:
			return nCall("lists.cdr", sub(&V{K: VList, L: append([]*V{vStr("first")}, v.L...)}))
		case 2:
			return nCall("lists.map", sub(v), id())
		case 3:
			return nCall("lists.filter", sub(v), lam([]string{"e"}, nBool(true)))
		default:
			l := nList()
			for _, x := range v.L {
				l.Items = append(l.Items, nYisp(nCall("progn", sub(x))))
			}
			return nQuote(l)
		}
	case VMap:
		switch c.Int(0, 2, "map-by") {
		case 0:
			n := nCall("maps.make")
			for _, k := range v.M.keys {
				n.Items = append(n.Items, text(k), sub(v.M.m[k]))
			}
			return n
		case 1:
			l := &V{K: VList}
			for _, k := range v.M.keys {
				l.L = append(l.L, vList(vStr(k), v.M.m[k]))
			}
			return nCall("maps.from-entries", sub(l))
		default:
			return nCall("lists.car", sub(vList(v, vNull())))
		}
	}
	return nLit(v)
}

// inJSON tells whether the JSON text of a value is YAML text of that value.
func inJSON(v *V) bool {
	plain := func(s string) bool {
		for _, r := range s { // what is below a space is escaped in JSON
			if r >= 0x7f && r < 0xa0 || r == utf8.RuneError || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe || r == 0xffff {
				return false
			}
		}
		return true
	}
	switch v.K {
	case VStr:
		return plain(v.S)
	case VFloat:
		return !math.IsNaN(v.F) && !math.IsInf(v.F, 0)
	case VList:
		for _, x := range v.L {
			if !inJSON(x) {
				return false
			}
		}
	case VMap:
		if !slices.IsSorted(v.M.keys) {
			return false
		}
		for _, k := range v.M.keys {
			if !plain(k) || !inJSON(v.M.m[k]) {
				return false
			}
		}
	}
	return v.K != VLam && v.K != VType
}

// wrapCall puts an expression somewhere its value becomes visible.
func wrapCall(c *C, call *N) *N {
	switch c.Int(0, 7, "wrap") {
	case 0:
		return nList(nYisp(call))
	case 1:
		return nYisp(nMapOf("r", call))
	case 2:
		return nMapOf("a", nInt(1), "r", nYisp(call), "z", nList())
	case 3: // through a function
		ps := nList(nStr("p"))
		return nList(nYisp(nList(nCall("lambda", ps, nCall("progn", nRef("p"), call)), nInt(0))))
	case 4:
		return nYisp(nMapOf("r", nMapOf("s", call)))
	case 5: // twice: results must agree with the reference each time
		return nList(nYisp(call), nYisp(call.clone()))
	case 6:
		return nList(nYisp(nCall("if", nBool(false), nNull(), call)))
	default:
		return nYisp(nMapOf("r", nQuote(nList(nYisp(call)))))
	}
}

// wrongly sometimes replaces an argument by a value of another type, or changes the count.
func wrongly(c *C, pct int, args []*V) []*V {
	if !c.Chance(pct, "wrong") {
		return args
	}
	args = append([]*V{}, args...)
	switch {
	case len(args) > 0 && c.Bool("wrong-type"):
		args[c.Int(0, len(args)-1, "wrong-at")] = genVal(c, 2, "wrong-val")
	case len(args) > 0 && c.Bool("fewer"):
		i := c.Int(0, len(args)-1, "drop")
		args = append(args[:i], args[i+1:]...)
	default:
		args = append(args, genVal(c, 1, "extra"))
	}
	return args
}

// runOp checks one operator call; wide is set when a name may take surplus arguments silently.
func runOp(c *C, op string, args []*V) (*V, *evalErr) {
	docs := callForm(c, op, args)
	var vs []string
	for _, a := range args {
		vs = append(vs, a.short())
	}
	c.Note("%s(%s)", op, strings.Join(vs, ", "))
	_, want, rerr, _ := c.RunProg(docs)
	var r *V
	if rerr == nil && len(want) > 0 {
		r = want[len(want)-1]
	}
	c.ClassIf(rerr != nil, op+"/error")
	c.ClassIf(rerr == nil, op+"/ok")
	return r, rerr
}
