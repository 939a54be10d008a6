package checks

import (
	"strings"
	"testing"
)

func TestC10(t *testing.T) {
	genM := func(c *C) *V { return genMapV(c, 2, "m") }
	sub(t, "ops", 1, "keys, values, to-entries, from-entries, make and get over maps of 0..40 entries with any strings as keys (repeated keys, missing keys, malformed entries, wrong types and counts included), against an ordered-map reference; non-trivial: at least two entries", func(c *C) {
		op := pick(c, "op", "maps.keys", "maps.values", "maps.to-entries", "maps.from-entries", "maps.from-entries", "maps.make", "maps.make", "maps.get", "maps.get")
		m := genM(c)
		if (op == "maps.from-entries" || op == "maps.make") && c.Chance(2, "long-key") {
			m.M.Set(strings.Repeat(pick(c, "long", "k", "é", "a b "), []int{120, 300, 513, 1024, 1025, 1300}[c.Even(6, "long-size")]), vInt(1))
		}
		var args []*V
		switch op {
		case "maps.from-entries":
			l := &V{K: VList}
			for _, k := range m.M.keys {
				l.L = append(l.L, vList(vStr(k), m.M.m[k]))
			}
			if len(l.L) > 0 && c.Chance(40, "repeat") {
				k := m.M.keys[c.Int(0, len(m.M.keys)-1, "rep")]
				l.L = append(l.L, vList(vStr(k), genVal(c, 1, "again")))
			}
			if c.Chance(10, "malformed") {
				bad := pick(c, "bad", vList(vStr("k")), vList(vStr("k"), vInt(1), vInt(2)), vList(), vList(vInt(1), vInt(2)), vList(vNull(), vInt(2)), vStr("k"), vNull(), vMapOf("k", vInt(1)))
				i := c.Int(0, len(l.L), "bad-at")
				l.L = append(append(append([]*V{}, l.L[:i]...), bad), l.L[i:]...)
			}
			args = []*V{l}
		case "maps.make":
			for _, k := range m.M.keys {
				args = append(args, vStr(k), m.M.m[k])
			}
			if len(args) > 0 && c.Chance(40, "repeat") {
				args = append(args, args[2*c.Int(0, len(args)/2-1, "rep")], genVal(c, 1, "again"))
			}
			if len(args) > 0 && c.Chance(5, "key-type") {
				args[2*c.Int(0, len(args)/2-1, "kt")] = genVal(c, 1, "ktv")
			}
		case "maps.get":
			k := genKey(c, "k")
			if m.M.Len() > 0 && c.Chance(75, "present") {
				k = m.M.keys[c.Int(0, m.M.Len()-1, "which")]
			}
			args = []*V{m, vStr(k)}
		default:
			args = []*V{m}
		}
		args = wrongly(c, 6, args)
		c.NonTrivialIf(m.M.Len() >= 2)
		runOp(c, op, args)
	})
	sub(t, "laws", 0.5, "from-entries of to-entries, zip of keys and values, make of alternating keys and values, get of every key: compared inside one program, order by output; non-trivial: at least two entries", func(c *C) {
		m := genM(c)
		c.NonTrivialIf(m.M.Len() >= 2)
		zip := lam([]string{"i"}, nQuote(nList(nYisp(nCall("lists.at", nCall("maps.keys", nRef("m")), nRef("i"))), nYisp(nCall("lists.at", nCall("maps.values", nRef("m")), nRef("i"))))))
		mk := &N{K: NList, Items: []*N{nStr("maps.make")}}
		for _, k := range m.M.keys {
			mk.Items = append(mk.Items, nStr(k), nCall("maps.get", nRef("m"), nStr(k)))
		}
		docs := []*N{nYisp(nCall("progn", nLit(m).anchored("m"), nNull())),
			nYisp(nMapOf("a", nCall("maps.from-entries", nCall("maps.to-entries", nRef("m"))))),
			nYisp(nMapOf("b", nCall("maps.from-entries", nCall("lists.map", nCall("lists.iota", nCall("lists.length", nCall("maps.keys", nRef("m")))), zip)))),
			nYisp(nMapOf("c", mk)),
		}
		if m.M.Len() > 15 {
			docs = append(docs[:2], docs[3])
		}
		want := []*V{vMapOf("a", m), vMapOf("b", m), vMapOf("c", m)}
		if m.M.Len() > 15 {
			want = append(want[:1], want[2])
		}
		o := c.Eval(printDocs(docs, c.Seed("layout"), false))
		c.Expect(o, want, nil, true)
	})
}
