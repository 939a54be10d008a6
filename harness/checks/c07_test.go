package checks

import "testing"

func TestC07(t *testing.T) {
	sub(t, "equal", 1, "== and != of two values that are equal, equal with other key order, equal with other number type, or differ in one place anywhere; non-trivial: a collection is involved or the types differ", func(c *C) {
		var a, b *V
		if c.Chance(35, "numbers") {
			a = genNum(c, "a")
			b = closeTo(c, a)
		} else {
			a = genVal(c, 3, "a")
			b = related(c, a)
		}
		if c.Bool("swap") {
			a, b = b, a
		}
		c.ClassIf(dataEqual(a, b), "equal")
		c.NonTrivialIf(a.K != b.K || a.K == VList || a.K == VMap)
		args := []*V{a, b}
		if c.Chance(4, "count") {
			args = wrongly(c, 100, args)
		}
		runOp(c, pick(c, "op", "==", "!=", "eq", "neq"), args)
	})
	sub(t, "logic", 0.7, "and/or/not/??/if over 0..5 (rarely up to 40) arbitrary values with emphasis on falsy ones, functions included; non-trivial: a falsy non-boolean or a collection among them", func(c *C) {
		op := pick(c, "op", "&&", "and", "||", "or", "!", "not", "??", "default", "if")
		n := c.atMost(0, 5, 40, "n")
		if op == "!" || op == "not" {
			n = 1
			if c.Chance(5, "bad-count") {
				n = pick(c, "n2", 0, 2)
			}
		}
		var items []*N
		nontr := false
		for i := 0; i < n; i++ {
			var v *V
			if c.Chance(60, "falsy") {
				v = pick(c, "falsy-v", vBool(false), vNull(), vInt(0), vFloat(0), vStr(""), vList(), vMapOf(), vFloat(negZero()))
				if op == "??" && c.Bool("more-null") {
					v = vNull()
				}
			} else {
				v = pick(c, "truthy-v", vBool(true), vInt(-1), vFloat(5e-324), vStr(" "), vStr("false"), vStr("0"), vList(vNull()), vMapOf("a", vNull()), vList(vList()), genVal(c, 2, "v"))
			}
			nontr = nontr || v.K != VBool
			it := nLit(v)
			if c.Chance(5, "lambda") {
				it = nCall("lambda", nList(nStr("q")), nRef("q"))
			}
			if c.Chance(8, "computed") && it.K != NList {
				it = nCall("progn", it)
			}
			items = append(items, it)
		}
		c.NonTrivialIf(nontr)
		if op == "if" {
			var cond *N = nLit(genVal(c, 2, "cond"))
			if len(items) > 0 {
				cond = items[0]
			}
			c.RunProg([]*N{wrapCall(c, nCall("if", cond, nStr("yes"), nStr("no")))})
			return
		}
		call := nCall(op, items...)
		c.RunProg([]*N{wrapCall(c, call)})
	})
	sub(t, "negation", 0.3, "laws: == is symmetric and reflexive, != its negation, not-not gives truthiness, if agrees with not; evaluated in one program over a pair of values", func(c *C) {
		a := genVal(c, 3, "a")
		b := related(c, a)
		docs := []*N{
			nYisp(nCall("progn", nLit(a).anchored("a"), nLit(b).anchored("b"), nNull())),
			nYisp(nMapOf(
				"sym", nCall("==", nCall("==", nRef("a"), nRef("b")), nCall("==", nRef("b"), nRef("a"))),
				"refl", nCall("==", nRef("a"), nRef("a")),
				"neg", nCall("==", nCall("!=", nRef("a"), nRef("b")), nCall("not", nCall("==", nRef("a"), nRef("b")))),
				"truth", nCall("==", nCall("if", nRef("a"), nBool(true), nBool(false)), nCall("not", nCall("not", nRef("a")))),
				"and", nCall("==", nCall("and", nRef("a"), nRef("b")), nCall("not", nCall("or", nCall("not", nRef("a")), nCall("not", nRef("b"))))),
				"coalesce", nCall("==", nCall("??", nRef("a"), nRef("b")), nCall("if", nCall("==", nRef("a"), nNull()), nRef("b"), nRef("a"))),
			)),
		}
		c.NonTrivialIf(a.size() > 1)
		o := c.Eval(printDocs(docs, c.Seed("layout"), false))
		tr := vBool(true)
		c.Expect(o, []*V{vMapOf("sym", tr, "refl", tr, "neg", tr, "truth", tr, "and", tr, "coalesce", tr)}, nil, true)
	})
}

func negZero() float64 { z := 0.0; return -z }
