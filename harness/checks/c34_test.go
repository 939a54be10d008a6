package checks

import "testing"

func TestC34(t *testing.T) {
	sub(t, "merges", 1, "maps with 0..4 merge keys and 0..5 explicit keys in any order (keys overlapping, repeated merges of the same map, nested maps with merges inside merges, merged-in values: literals, variables, optional variables that are missing, conditionals, calls, inline maps with merges of their own, lists of maps with nulls, empty maps and lists, and wrong kinds), block and flow, quoted and evaluated, then the sources listed again; against a reference; non-trivial: a merge key with at least one entry and an explicit key", func(c *C) {
		var srcs []*N
		var names []string
		for i := c.atMost(1, 3, 7, "sources"); i > 0; i-- {
			v := genMapV(c, 2, "src")
			n := nLit(v)
			n.Anchor = string(rune('s'+i)) + "rc"
			names = append(names, n.Anchor)
			srcs = append(srcs, n)
		}
		keys := []string{"a", "b", "c", "x"}
		var mk func(d int, q bool) *N
		var mv func(d int, q bool) *N
		entries := 0
		mv = func(d int, q bool) *N {
			call := func(n *N) *N { return nYisp(n) }
			r := func() *N { return nRef(names[c.Int(0, len(names)-1, "src")]) }
			switch c.Int(0, 13, "merged") {
			case 0, 1, 2, 3:
				entries++
				return r()
			case 4:
				return nRef("missing?")
			case 5:
				return call(nCall("if", nBool(c.Bool("cond")), r(), nNull()))
			case 6:
				entries++
				return call(nCall("maps.merge", r(), r()))
			case 7:
				entries++
				if d > 0 {
					n := mk(d-1, q)
					if len(n.Ents) == 0 {
						n.Flow = true
					}
					return n
				}
				return r()
			case 8, 9: // a list of maps
				n := &N{K: NList, Tag: "!quote"}
				for i := c.Int(0, 3, "maps"); i > 0; i-- {
					switch c.Int(0, 3, "element") {
					case 0:
						n.Items = append(n.Items, nNull())
					case 1:
						if d > 0 {
							n.Items = append(n.Items, mk(d-1, true))
						} else {
							n.Items = append(n.Items, r())
						}
					default:
						entries++
						n.Items = append(n.Items, r())
					}
				}
				if c.Chance(4, "bad-element") {
					n.Items = append(n.Items, nInt(3))
				}
				return n
			case 10:
				entries++
				return call(nCall("lists.map", nQuote(nList(nInt(1), nInt(2))), nCall("lambda", nList(nStr("i")), nQuote(nMapOf("i", nRef("i"), "a", nRef("i"))))))
			case 11:
				return nNull()
			case 12:
				if c.Chance(12, "wrong") {
					return pick(c, "wrong-kind", nStr("x"), nInt(1), nBool(true), nFloat(1.5))
				}
				return nNull()
			default: // function result
				entries++
				return call(nList(nCall("lambda", nList(nStr("p")), nRef("p")), r()))
			}
		}
		mk = func(d int, q bool) *N {
			n := &N{K: NMap}
			if c.Bool("mode") {
				n.Tag = "!yisp"
				q = false
			}
			used := map[string]bool{}
			for i := c.Int(0, 7, "entries"); i > 0; i-- {
				if c.Chance(50, "merge-key") {
					n.Ents = append(n.Ents, &Ent{Merge: true, Val: mv(d, q)})
					continue
				}
				k := keys[c.Int(0, 3, "key")]
				if c.Chance(30, "other-key") {
					k = genKey(c, "k")
				}
				if used[k] || k == "<<" {
					continue
				}
				used[k] = true
				var v *N
				switch c.Int(0, 4, "value") {
				case 0:
					if d > 0 {
						v = mk(d-1, q)
						break
					}
					fallthrough
				case 1:
					v = nRef(names[c.Int(0, len(names)-1, "src")])
				default:
					if q {
						v = nOf(genVal(c, 1, "v"))
					} else {
						v = nLit(genVal(c, 1, "v"))
					}
				}
				n.Ents = append(n.Ents, &Ent{Key: k, Val: v})
			}
			return n
		}
		m := mk(2, true)
		defs := nYisp(&N{K: NList, Items: append(append([]*N{nStr("progn")}, srcs...), nNull())})
		docs := []*N{defs}
		if c.Chance(25, "in-function") {
			docs = append(docs, nMapOf("r", nYisp(nList(nCall("lambda", nList(nStr("p")), nQuote(nList(m))), nInt(0)))))
		} else {
			docs = append(docs, m)
		}
		again := &N{K: NMap}
		for _, nm := range names {
			again.Ents = append(again.Ents, &Ent{Key: nm, Val: nRef(nm)})
		}
		docs = append(docs, again)
		explicit := 0
		m.walk(func(n *N) {
			for _, e := range n.Ents {
				if !e.Merge {
					explicit++
				}
			}
		})
		c.ClassIf(entries > 1, "merges>1")
		c.NonTrivialIf(entries > 0 && explicit > 0)
		c.RunProg(docs)
	})
}
