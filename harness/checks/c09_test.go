package checks

import "testing"

func lam(params []string, body *N) *N {
	ps := &N{K: NList}
	for _, p := range params {
		ps.Items = append(ps.Items, nStr(p))
	}
	return nCall("lambda", ps, body)
}

// genFn1 draws a function of one argument suited to elements of kind k.
func genFn1(c *C, k VK) *N {
	ref := nRef("e")
	l := func(b *N) *N { return lam([]string{"e"}, b) }
	cs := []*N{nStr("types.of"), nStr("not"), nStr("progn"), nStr("lists.as-toplevel"), nStr("or"),
		l(ref), l(nMapOf("k", ref, "z", nInt(1))), l(nYisp(nList(nStr("lists.cons"), nRef("e"), nQuote(nList())))), l(nNull()),
		l(nCall("==", ref, nLit(genScalar(c, "cmp")))), l(nCall("if", ref, nStr("t"), nStr("f"))), l(nQuote(nList(nRef("e"), nRef("e"))))}
	switch k {
	case VInt:
		cs = append(cs, nStr("+"), nStr("-"), nStr("lists.iota"), l(nCall("+", ref, nInt(1))), l(nCall("*", ref, ref)), l(nCall("<", ref, nInt(5))), l(nCall(">=", ref, nInt(0))),
			l(nCall("if", nCall("<", ref, nInt(3)), nCall("-", ref), nStr("big"))))
		cs = append(cs, cs[len(cs)-6:]...)
	case VStr:
		cs = append(cs, nStr("strings.toUpper"), nStr("strings.trim"), nStr("strings.sha256"), l(nCall("strings.concat", ref, nStr("!"))), l(nCall("strings.contains", ref, nStr("a"))), nStr("strings.concat"))
		cs = append(cs, cs[len(cs)-6:]...)
	case VList:
		cs = append(cs, nStr("lists.length"), nStr("lists.car"), nStr("lists.flatten"), l(nCall("lists.cons", nInt(0), ref)), l(nCall("lists.map", ref, nStr("types.of"))), l(nCall(">", nCall("lists.length", ref), nInt(1))))
		cs = append(cs, cs[len(cs)-6:]...)
	case VMap:
		cs = append(cs, nStr("maps.keys"), nStr("maps.values"), nStr("maps.to-entries"), l(nRef("e.a?")), l(nCall("maps.merge", ref, nQuote(nMapOf("a", nInt(9))))), l(nRef("e.name")))
		cs = append(cs, cs[len(cs)-6:]...)
	}
	return cs[c.Int(0, len(cs)-1, "fn1")]
}

func genFn2(c *C, k VK) *N {
	a, b := nRef("p"), nRef("q")
	l := func(n *N) *N { return lam([]string{"p", "q"}, n) }
	cs := []*N{nStr("progn"), nStr("lists.flatten"), nStr("=="), l(a), l(b), l(nQuote(nList(nRef("p"), nRef("q")))), l(nMapOf("l", a, "r", b)), nStr("and"), nStr("??")}
	switch k {
	case VInt:
		cs = append(cs, nStr("+"), nStr("-"), nStr("*"), l(nCall("-", nCall("*", a, nInt(2)), b)), l(nCall("if", nCall("<", a, b), b, a)))
	case VStr:
		cs = append(cs, nStr("strings.concat"), l(nCall("strings.concat", b, a)), l(nCall("strings.concat", a, nStr(","), b)))
	case VList:
		cs = append(cs, l(nCall("lists.cons", a, b)), l(nCall("lists.flatten", nQuote(nList(nRef("p"), nRef("q"))))))
	case VMap:
		cs = append(cs, nStr("maps.merge"), l(nCall("maps.merge", b, a)))
	}
	return cs[c.Int(0, len(cs)-1, "fn2")]
}

// genElems draws a list whose elements mostly have one kind.
func genElems(c *C) (*V, VK) {
	k := pick(c, "elem", VInt, VStr, VList, VMap, VNull)
	n := genLen(c, "len")
	if c.Chance(3, "long") {
		n = c.Int(50, 300, "longlen")
	}
	l := &V{K: VList}
	for i := 0; i < n; i++ {
		var v *V
		switch k {
		case VInt:
			v = vInt(int64(c.Int(-5, 12, "e")))
		case VStr:
			v = vStr(genStr(c, "e"))
		case VList:
			v = genListV(c, 1, "e")
		case VMap:
			v = genMapV(c, 1, "e")
		default:
			v = genVal(c, 2, "e")
		}
		if c.Chance(4, "odd-one") {
			v = genVal(c, 1, "odd")
		}
		l.L = append(l.L, v)
	}
	return l, k
}

func TestC09(t *testing.T) {
	sub(t, "first-order", 1, "car, cdr, cons, at, length, contains, iota, flatten over lists of 0..300 elements of any types (indices around both ends, negative and huge; elements present, absent or almost equal), sometimes wrong types or counts, against textbook definitions; non-trivial: a non-empty list", func(c *C) {
		op := pick(c, "op", "lists.car", "lists.cdr", "lists.cons", "lists.at", "lists.at", "lists.length", "lists.contains", "lists.contains", "lists.iota", "lists.flatten", "lists.flatten")
		l, _ := genElems(c)
		var args []*V
		switch op {
		case "lists.at":
			i := int64(c.Int(-2, len(l.L)+1, "i"))
			if len(l.L) > 0 && c.Bool("anywhere") {
				i = int64(c.Even(len(l.L), "index"))
			}
			if c.Chance(5, "huge") {
				i = genInt(c, "hugei")
			}
			args = []*V{l, vInt(i)}
		case "lists.cons":
			args = []*V{genVal(c, 2, "head"), l}
		case "lists.contains":
			x := genVal(c, 1, "x")
			if len(l.L) > 0 && c.Chance(75, "near") {
				x = related(c, l.L[c.Int(0, len(l.L)-1, "which")])
				if c.Bool("num") && (x.K == VInt || x.K == VFloat) {
					x = closeTo(c, x)
				}
			}
			args = []*V{l, x}
		case "lists.iota":
			n := int64(c.Int(-2, 40, "n"))
			if c.Chance(15, "many") {
				n = int64(c.Even(1200, "count"))
			}
			args = []*V{vInt(n)}
			if c.Bool("start") {
				s := int64(c.Int(-2, 30, "s"))
				if c.Chance(20, "far") {
					s = int64(c.Even(8000, "from")) * 131071
				}
				args = append(args, vInt(s))
			}
		case "lists.flatten":
			args = nil
			n := pick(c, "nargs", 1, 1, 1, 2, 3, 0)
			for i := 0; i < n; i++ {
				x := &V{K: VList}
				m := c.Int(0, 4, "m")
				if c.Chance(4, "wide") {
					m = c.Even(150, "width")
				}
				for j := 0; j < m; j++ {
					if c.Bool("nest") {
						x.L = append(x.L, genListV(c, 2, "in"))
					} else {
						x.L = append(x.L, genVal(c, 1, "in"))
					}
				}
				args = append(args, x)
			}
		default:
			args = []*V{l}
		}
		if c.Chance(6, "wrong") {
			if op == "lists.iota" { // counts of other types only, never huge ones; surplus arguments are accepted silently
				args[0] = pick(c, "w", vStr("3"), vFloat(2), vNull(), vBool(true), vList(vInt(1)))
			} else if op != "lists.flatten" {
				args = wrongly(c, 100, args)
			}
		}
		c.NonTrivialIf(len(args) > 0 && args[0].size() > 1 || op == "lists.iota")
		runOp(c, op, args)
	})
	sub(t, "higher-order", 1, "map, filter and reduce with operator names and lambdas suited to the elements (and sometimes not), over lists of 0..300 elements, against the reference interpreter; non-trivial: at least two elements", func(c *C) {
		l, k := genElems(c)
		op := pick(c, "op", "lists.map", "lists.map", "lists.filter", "lists.reduce")
		var fn *N
		if op == "lists.reduce" {
			fn = genFn2(c, k)
		} else {
			fn = genFn1(c, k)
		}
		if c.Chance(5, "nofn") {
			fn = pick(c, "notfn", nStr("nope"), nInt(3), nNull(), nStr("lists.nope"), lam(nil, nInt(1)), lam([]string{"a", "b", "c"}, nRef("a")))
		}
		var docs []*N
		f := fn
		if fn.K != NNull && c.Chance(30, "fn-anchor") {
			fn.Anchor = "fun"
			docs = append(docs, nYisp(fn))
			if fn.K != NList {
				docs[0] = nYisp(nCall("progn", fn, nNull()))
			}
			f = nRef("fun")
		}
		ln := nLit(l)
		if c.Chance(30, "list-anchor") {
			ln.Anchor = "lst"
			docs = append(docs, nYisp(nCall("progn", ln, nNull())))
			ln = nRef("lst")
		}
		if c.Chance(3, "notlist") {
			ln = nLit(pick(c, "nl", vNull(), vStr("abc"), vMapOf("a", vInt(1)), vInt(3)))
		}
		call := nCall(op, ln, f)
		if c.Chance(20, "chain") {
			call = nCall("lists.length", call)
		}
		docs = append(docs, wrapCall(c, call))
		c.NonTrivialIf(len(l.L) >= 2)
		_, _, rerr, _ := c.RunProg(docs)
		c.ClassIf(rerr != nil, op+"/error")
		c.ClassIf(rerr == nil, op+"/ok")
	})
	sub(t, "laws", 0.4, "cons/car/cdr, map with identity, filter partition, flatten of singletons, reduce with cons, at over all indices: evaluated in one program and compared inside it; non-trivial: at least two elements", func(c *C) {
		l, _ := genElems(c)
		if len(l.L) > 40 {
			l.L = l.L[:40]
		}
		c.NonTrivialIf(len(l.L) >= 2)
		id := lam([]string{"e"}, nRef("e"))
		docs := []*N{nYisp(nCall("progn", nLit(l).anchored("l"), nNull())), nYisp(nMapOf(
			"carcons", nCall("==", nCall("lists.car", nCall("lists.cons", nRef("l"), nRef("l"))), nRef("l")),
			"cdrcons", nCall("==", nCall("lists.cdr", nCall("lists.cons", nInt(1), nRef("l"))), nRef("l")),
			"mapid", nCall("==", nCall("lists.map", nRef("l"), id), nRef("l")),
			"filter", nCall("==", nCall("+", nCall("lists.length", nCall("lists.filter", nRef("l"), id)), nCall("lists.length", nCall("lists.filter", nRef("l"), nStr("not")))), nCall("lists.length", nRef("l"))),
			"wrap", nCall("==", nCall("lists.flatten", nCall("lists.map", nRef("l"), lam([]string{"e"}, nQuote(nList(nRef("e")))))), nRef("l")),
			"at", nCall("==", nCall("lists.map", nCall("lists.iota", nCall("lists.length", nRef("l"))), lam([]string{"i"}, nCall("lists.at", nRef("l"), nRef("i")))), nRef("l")),
			"member", nCall("lists.reduce", nCall("lists.cons", nBool(true), nCall("lists.map", nRef("l"), lam([]string{"e"}, nCall("lists.contains", nRef("l"), nRef("e"))))), nStr("and")),
		))}
		tr := vBool(true)
		o := c.Eval(printDocs(docs, c.Seed("layout"), false))
		c.Expect(o, []*V{vMapOf("carcons", tr, "cdrcons", tr, "mapid", tr, "filter", tr, "wrap", tr, "at", tr, "member", tr)}, nil, true)
	})
}
