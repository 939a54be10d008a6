package checks

import (
	"fmt"
	"testing"
)

// overlay draws a value that overlaps with v: same keys, some changed, some new.
func overlay(c *C, v *V, d int) *V {
	if v.K != VMap || d == 0 {
		if c.Chance(60, "same-kind") {
			switch v.K {
			case VList:
				return genListV(c, 1, "ov-list")
			case VMap:
				return genMapV(c, 1, "ov-map")
			}
		}
		return genVal(c, 1, "ov")
	}
	keep := 65
	if d > 10 { // a deep value
		keep = 96
	}
	m := newOMap()
	ks := append([]string{}, v.M.keys...)
	if len(ks) > 1 && c.Bool("rotate") {
		ks = append(ks[1:], ks[0])
	}
	for _, k := range ks {
		if c.Chance(keep, "keep-key") {
			m.Set(k, overlay(c, v.M.m[k], d-1))
		}
	}
	n := c.Int(0, 3, "new-keys")
	if d > 10 {
		n = c.Int(0, 1, "new-keys")
	}
	for i := 0; i < n; i++ {
		m.Set(genKey(c, "new-key"), genVal(c, 1, "new-val"))
	}
	return vMap(m)
}

// genMergeSch draws a schema for maps with lists that merge in different ways, and
// returns it with a generator of values that satisfy it.
func genMergeSch(c *C, d int) (*Sch, func() *V) {
	s := &Sch{Type: "object", Props: map[string]*Sch{}, K8sNames: c.Bool("k8s-names")}
	gens := map[string]func() *V{}
	n := c.Int(1, 4, "props")
	str := &Sch{Type: "string"}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("p%d", i)
		var p *Sch
		kind := c.Int(0, 5, "prop-kind")
		if d == 0 && kind >= 4 {
			kind = 3
		}
		switch kind {
		case 0: // replaced list
			p = &Sch{Type: "array", Items: str, PatchStrategy: pick(c, "rep", "", "replace")}
			gens[k] = func() *V { return genStrs(c) }
		case 1: // appended list
			p = &Sch{Type: "array", Items: str, PatchStrategy: "merge"}
			gens[k] = func() *V { return genStrs(c) }
		case 2, 4: // list merged by key
			key := pick(c, "mkey", "name", "id", "port")
			it := &Sch{Type: "object", Props: map[string]*Sch{}, Addl: 2, K8sNames: s.K8sNames}
			it.PropNames = []string{key, "args", "env"}
			it.Props[key] = pick(c, "keytype", str, &Sch{Type: "integer"})
			it.Props["args"] = &Sch{Type: "array", Items: str, PatchStrategy: pick(c, "args-strat", "", "merge"), K8sNames: s.K8sNames}
			it.Props["env"] = &Sch{Type: "object", Addl: 2}
			if kind == 4 {
				it.PropNames = append(it.PropNames, "sub")
				it.Props["sub"] = &Sch{Type: "array", PatchStrategy: "merge", PatchMergeKey: "k", K8sNames: s.K8sNames, Items: &Sch{Type: "object", Addl: 2, Props: map[string]*Sch{"k": str}, PropNames: []string{"k"}}}
			}
			p = &Sch{Type: "array", Items: it, PatchStrategy: pick(c, "keyed-strat", "merge", "merge", "merge,retainKeys"), PatchMergeKey: key}
			gens[k] = func() *V {
				l := &V{K: VList}
				m := c.Int(0, 4, "items")
				keys := 4
				if c.rarely("many-items") {
					m, keys = c.Int(5, 40, "items"), 60
				}
				used := map[int]bool{}
				again := c.Chance(12, "same-key-again")
				keyless := c.Chance(8, "keyless")
				for j := 0; j < m; j++ {
					x := newOMap()
					kv := c.Int(0, keys, "keyval")
					if used[kv] && !again {
						continue
					}
					used[kv] = true
					if c.Bool("key-late") {
						x.Set("extra", vInt(int64(c.Int(0, 3, "ex"))))
					}
					if keyless && c.Bool("no-key") {
						x.Set("extra", vInt(int64(kv)))
					} else if it.Props[key].Type == "integer" {
						x.Set(key, vInt(int64(kv)))
					} else {
						x.Set(key, vStr(fmt.Sprintf("n%d", kv)))
					}
					if c.Bool("has-args") {
						x.Set("args", genStrs(c))
					}
					if c.Bool("has-env") {
						x.Set("env", genMapV(c, 1, "env"))
					}
					if kind == 4 && c.Bool("has-sub") {
						sl := &V{K: VList}
						for q := 0; q < 3; q++ {
							if c.Bool("sub") {
								sl.L = append(sl.L, vMapOf("k", vStr(fmt.Sprintf("s%d", q)), "v", genScalar(c, "sv")))
							}
						}
						x.Set("sub", sl)
					}
					l.L = append(l.L, vMap(x))
				}
				return l
			}
		case 3: // open map
			p = &Sch{Type: "object", Addl: 2}
			gens[k] = func() *V { return genMapV(c, 2, "open") }
		case 5:
			var g func() *V
			p, g = genMergeSch(c, d-1)
			gens[k] = g
		}
		p.K8sNames = s.K8sNames
		s.Props[k] = p
		s.PropNames = append(s.PropNames, k)
	}
	return s, func() *V {
		m := newOMap()
		for _, k := range s.PropNames {
			if c.Chance(75, "present") {
				m.Set(k, gens[k]())
			}
		}
		return vMap(m)
	}
}

func genStrs(c *C) *V {
	l := &V{K: VList}
	n := c.Int(0, 3, "strs")
	if c.Chance(30, "any-length") {
		n = c.Even(6, "strs")
	}
	for i := 0; i < n; i++ {
		l.L = append(l.L, vStr(words[c.Even(len(words), "str")]))
	}
	return l
}

func TestC11(t *testing.T) {
	sub(t, "plain", 1, "merge of 0..5 values, mostly maps overlapping at several depths, with lists, nulls and scalars colliding with maps, against a reference merge; non-trivial: at least two values sharing a key", func(c *C) {
		n := c.atMost(0, 5, 20, "n")
		var args []*V
		base := genMapV(c, 3, "base")
		levels := 3
		if c.rarely("deep") {
			levels = 40
			for i := c.Int(4, 25, "levels"); i > 0; i-- {
				m := newOMap()
				if c.Chance(30, "beside") {
					m.Set(genKey(c, "key"), genScalar(c, "beside"))
				}
				m.Set(genKey(c, "key"), base)
				base = vMap(m)
			}
		}
		for i := 0; i < n; i++ {
			switch {
			case i == 0:
				args = append(args, base)
			case c.Chance(8, "nonmap"):
				args = append(args, genVal(c, 2, "nonmap-v"))
			default:
				args = append(args, overlay(c, args[c.Int(0, i-1, "of")], levels))
			}
		}
		c.NonTrivialIf(n >= 2 && base.M.Len() > 0)
		runOp(c, "maps.merge", args)
	})
	sub(t, "laws", 0.5, "associativity, identity ({} and null), idempotence over overlapping maps, compared by output including key order; non-trivial: overlapping non-empty maps", func(c *C) {
		a := genMapV(c, 3, "a")
		b := overlay(c, a, 3)
		d := overlay(c, pick(c, "of", a, b), 3)
		c.NonTrivialIf(a.M.Len() > 0 && b.size() > 1)
		m := func(x ...*N) *N { return nCall("maps.merge", x...) }
		A, B, D := nRef("a"), nRef("b"), nRef("d")
		docs := []*N{
			nYisp(nCall("progn", nLit(a).anchored("a"), nLit(b).anchored("b"), nLit(d).anchored("d"), nNull())),
			nYisp(nMapOf("v", m(m(A, B), D))), nYisp(nMapOf("v", m(A, m(B, D)))), nYisp(nMapOf("v", m(A, B, D))),
			nYisp(nMapOf("v", m(A, A))), nYisp(nMapOf("v", m(A, nQuote(nMapOf())))), nYisp(nMapOf("v", m(nNull(), A))), nYisp(nMapOf("v", m(A))),
			nYisp(nMapOf("v", A, "w", B, "x", D)),
		}
		w1, _ := mergeRef(a, b, nil)
		w, _ := mergeRef(w1, d, nil)
		v := func(x *V) *V { return vMapOf("v", x) }
		o := c.Eval(printDocs(docs, c.Seed("layout"), false))
		var bd *V
		bd, _ = mergeRef(b, d, nil)
		right, _ := mergeRef(a, bd, nil)
		c.Expect(o, []*V{v(w), v(right), v(w), v(a), v(a), v(a), v(a), vMapOf("v", a, "w", b, "x", d)}, nil, true)
		if b.K == VMap && d.K == VMap && !sameUnordered(w, right) && noKindClash(a, b, d) {
			c.Harness("reference merge is not associative")
		}
	})
	sub(t, "schema", 0.7, "merge of 2..4 typed maps whose schema appends lists, merges them by key (nested too) or replaces them, against a reference merge; non-trivial: a list with a strategy present on both sides", func(c *C) {
		s, gen := genMergeSch(c, c.atMost(2, 2, 6, "depth"))
		n := c.atMost(2, 4, 12, "n")
		sn := nLit(s.value())
		docs := []*N{nYisp(nCall("schema", sn).anchored("T"))}
		call := &N{K: NList, Items: []*N{nStr("maps.merge")}}
		for i := 0; i < n; i++ {
			v := gen()
			x := nOf(v)
			if v.M.Len() == 0 {
				x.Flow = true
			}
			x.Tag = "!T"
			x.Anchor = fmt.Sprintf("x%d", i)
			docs = append(docs, nMapOf("def", x))
			call.Items = append(call.Items, nRef(x.Anchor))
		}
		docs = append(docs, wrapCall(c, call), nMapOf("again", nRef("x0")))
		c.NonTrivial()
		c.RunProg(docs)
	})
}

// noKindClash: maps meet only maps (merging is associative only then)
func noKindClash(vs ...*V) bool {
	keys := map[string][]*V{}
	for _, v := range vs {
		if v.K != VMap {
			return false
		}
		for _, k := range v.M.keys {
			keys[k] = append(keys[k], v.M.m[k])
		}
	}
	for _, l := range keys {
		maps := 0
		for _, v := range l {
			if v.K == VMap {
				maps++
			}
		}
		if maps != 0 && maps != len(l) {
			return false
		}
		if maps > 0 && !noKindClash(l...) {
			return false
		}
	}
	return true
}
