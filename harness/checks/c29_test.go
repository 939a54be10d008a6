package checks

import (
	"fmt"
	"strings"
	"testing"
)

// genManifest draws a manifest-like map.
func genManifest(c *C, i int) *V {
	m := newOMap()
	m.Set("apiVersion", vStr(pick(c, "av", "v1", "apps/v1")))
	m.Set("kind", vStr(pick(c, "kind", "Pod", "Service")))
	md := newOMap()
	md.Set("name", vStr(pick(c, "mname", "a", "b", "c")))
	if c.Bool("ns") {
		md.Set("namespace", vStr(pick(c, "mns", "x", "y")))
	}
	if c.Bool("labels") {
		md.Set("labels", genMapV(c, 1, "labels"))
	}
	m.Set("metadata", vMap(md))
	m.Set("spec", genMapV(c, 2, "spec"))
	return vMap(m)
}

// appends tells whether some property is a list whose schema appends on merge.
func (s *Sch) appends() bool {
	for _, p := range s.Props {
		if p.PatchStrategy == "merge" && p.PatchMergeKey == "" {
			return true
		}
	}
	return false
}

// Items0 is the operator of a call, "" for anything else.
func (n *N) Items0() string {
	if n.K == NList && len(n.Items) > 0 && n.Items[0].K == NStr {
		return n.Items[0].S
	}
	return ""
}

func TestC29(t *testing.T) {
	sub(t, "operators", 1, "values that share substructure are bound to variables; then 1..6 random operator calls use them (maps.merge plain and with list strategies, k8s.patch, casts with defaults, types.assert, merge keys, every list, map and string operator, functions, marshal, nested patches of fresh copies); the results are bound too and used by later calls; the variables and earlier results are listed after each: all listings must be equal; non-trivial: at least two calls succeed", func(c *C) {
		var defs []*N
		nm, nl := c.Int(2, 4, "maps"), c.Int(1, 2, "lists")
		var mapNames, listNames, all []string
		for i := 0; i < nm; i++ {
			n := nLit(genMapV(c, 3, "m"))
			if i > 0 && c.Chance(60, "shared") { // contains an earlier value twice
				n.Ents = append(n.Ents, &Ent{Key: "sh1", Val: nRef(mapNames[c.Int(0, i-1, "which")])}, &Ent{Key: "sh2", Val: nRef(mapNames[0])})
				dedup(n)
			}
			n.Anchor = fmt.Sprintf("m%d", i)
			mapNames = append(mapNames, n.Anchor)
			defs = append(defs, n)
		}
		for i := 0; i < nl; i++ {
			n := nLit(genListV(c, 2, "l"))
			for _, m := range mapNames {
				if c.Bool("holds") {
					n.Items = append(n.Items, nRef(m))
				}
			}
			if len(n.Items) == 0 {
				n.Flow = true
			}
			n.Anchor = fmt.Sprintf("l%d", i)
			listNames = append(listNames, n.Anchor)
			defs = append(defs, n)
		}
		// manifests and patches
		ml, pl := &N{K: NList, Tag: "!quote", Anchor: "mans"}, &N{K: NList, Tag: "!quote", Anchor: "pats"}
		for i := c.Int(1, 3, "nm"); i > 0; i-- {
			ml.Items = append(ml.Items, nOf(genManifest(c, i)))
			pl.Items = append(pl.Items, nOf(genManifest(c, i)))
		}
		defs = append(defs, ml, pl)
		// typed values
		merging := c.Chance(40, "merging") // typed merges of typed merges, mainly
		s, gen := genMergeSch(c, 1)
		for i := 0; merging && i < 4 && !s.appends(); i++ {
			s, gen = genMergeSch(c, 1)
		}
		defs = append(defs, nCall("schema", nLit(s.value())).anchored("MT"))
		typed, results := []string{}, 0
		for i := c.Int(2, 5, "typed"); i > 0; i-- {
			x := nOf(gen())
			if len(x.Ents) == 0 {
				x.Flow = true
			}
			x.Tag = "!MT"
			x.Anchor = fmt.Sprintf("t%d", len(typed))
			typed = append(typed, x.Anchor)
			defs = append(defs, nQuote(nList(x)))
		}
		ds, dv := genDefaults(c, 2)
		defs = append(defs, nCall("schema", nLit(ds.value())).anchored("DT"), nLit(dv).anchored("d0"))
		all = append(append(append(all, mapNames...), listNames...), "mans", "pats", "d0")
		all = append(all, typed...)
		given := len(typed)
		dump := func() *N {
			n := &N{K: NMap}
			for _, a := range all {
				n.Ents = append(n.Ents, &Ent{Key: a, Val: nRef(a)})
			}
			// as text of this moment: what is emitted is looked at only when all documents
			// are evaluated. Null when the call failed or stands inside a function.
			for i := 0; i < results; i++ {
				n.Ents = append(n.Ents, &Ent{Key: fmt.Sprintf("r%d", i), Val: nYisp(nCall("yaml.marshal", nRef(fmt.Sprintf("r%d?", i))))})
			}
			return n
		}
		docs := []*N{nYisp(&N{K: NList, Items: append(append([]*N{nStr("progn")}, defs...), nNull())}), dump()}
		m := func() *N {
			n := mapNames[c.Int(0, len(mapNames)-1, "m")]
			return nRef(n)
		}
		l := func() *N { return nRef(listNames[c.Int(0, len(listNames)-1, "l")]) }
		anyv := func() *N { return nRef(all[c.Int(0, len(all)-1, "v")]) }
		var steps []string
		base := printDocs(docs, c.Seed("layout"), false)
		ref := c.Eval(base)
		if ref.Err != nil {
			c.Violate("error: %s", errText(ref.Err))
		}
		want := c.Docs(ref)
		for i := c.Int(1, 6, "calls"); i > 0; i-- {
			var e *N
			ty := func() *N { return nRef(typed[c.Int(0, len(typed)-1, "t")]) }
			merged := false
			op := c.Int(0, 19, "op")
			if merging && c.Chance(80, "merge") {
				op = 2
			}
			switch op {
			case 0, 1:
				e = nCall("maps.merge", m(), m(), m())
			case 2, 3:
				left := ty()
				if merging && len(typed) > given && c.Bool("one-left") {
					left = nRef(typed[given])
				}
				e, merged = nCall("maps.merge", left, ty()), true
			case 4:
				e, merged = nCall("maps.merge", ty(), ty(), ty()), true
			case 5, 6:
				e = nCall("k8s.patch", nRef("mans"), nRef("pats"))
			case 7:
				e = nMapOf("z", nInt(1))
				e.Tag = "!yisp"
				e.Ents = append(e.Ents, &Ent{Merge: true, Val: m()}, &Ent{Merge: true, Val: m()}, &Ent{Key: "zz", Val: nInt(2)})
			case 8: // a cast fills defaults into a copy
				x := &N{K: NMap, Tag: "!DT", Ents: []*Ent{{Merge: true, Val: nRef("d0")}}}
				e = nQuote(nList(x))
			case 9:
				e = nCall("types.assert", nRef("DT"), nRef("d0"))
			case 10:
				e = nCall("lists.map", l(), nCall("lambda", nList(nStr("p")), nQuote(nMapOf("k", nRef("p")))))
			case 11:
				e = nCall("lists.flatten", l(), l())
			case 12:
				e = nCall("lists.cons", anyv(), nCall("lists.cdr", l()))
			case 13:
				e = nCall("lists.filter", l(), nStr("progn"))
			case 14:
				e = nCall("lists.reduce", nCall("lists.filter", l(), nCall("lambda", nList(nStr("p")), nCall("==", nCall("types.of", nRef("p")), nStr("map")))), nStr("maps.merge"))
			case 15:
				e = nCall("maps.from-entries", nCall("maps.to-entries", m()))
			case 16:
				e = nCall("yaml.unmarshal", nCall("yaml.marshal", anyv()))
			case 17: // merging the same map with parts of itself
				e = nCall("maps.merge", m(), nQuote(nMapOf("sh1", nMapOf("deep", nInt(1)), "a", nMapOf("b", nInt(2)), "x", nList(nInt(3)))))
			case 18:
				e = nCall("lists.as-toplevel", l(), m())
			default:
				e = nCall("strings.format", nStr("%v %v"), anyv(), nCall("==", anyv(), anyv()))
			}
			doc := nList(nYisp(e))
			inFn := !merging && c.Chance(30, "fn")
			e.Anchor = fmt.Sprintf("r%d", results)
			results++
			if merged && !inFn {
				typed = append(typed, e.Anchor)
			}
			if inFn { // inside a function that is given the value
				doc = nList(nYisp(nList(nCall("lambda", nList(nStr("q")), nCall("progn", e, nRef("q"))), anyv())))
			}
			if !inFn && c.Chance(40, "result-again") { // later calls work on the result
				switch e.Items0() {
				case "maps.merge":
					mapNames = append(mapNames, e.Anchor)
				case "lists.map", "lists.flatten", "lists.cons", "lists.filter", "k8s.patch":
					listNames = append(listNames, e.Anchor)
				}
			}
			step := printDocs([]*N{nNull(), doc, dump()}, c.Seed("layout"), false)
			steps = append(steps, "\n"+dashes(step))
		}
		text := base + strings.Join(steps, "")
		ok := len(steps)
		if c.EvalOpt(text, memLoc, memOpts).Err != nil { // leave out the calls that fail
			text, ok = base, 0
			for _, s := range steps {
				if c.EvalOpt(text+s, memLoc, memOpts).Err != nil {
					c.Class("call-fails")
					continue
				}
				text += s
				ok++
			}
		}
		c.NonTrivialIf(ok >= 2)
		c.Note("--- calls ---\n%s", text[len(base):])
		o := c.EvalOpt(text, memLoc, memOpts)
		if o.Err != nil {
			c.Violate("error: %s", errText(o.Err))
		}
		got := c.Docs(o)
		n := 0
		first := map[string]*V{}
		for _, d := range got {
			if d.K == VMap && len(d.M.keys) >= len(all) && d.M.keys[0] == all[0] {
				n++
				for i, k := range d.M.keys {
					v := d.M.m[k]
					if i < len(all) {
						if x := diff(want[0].M.m[k], v, k, true); x != "" {
							c.Violate("listing %d of the variables differs from the first: %s", n, x)
						}
					} else if first[k] == nil {
						first[k] = v
					} else if x := diff(first[k], v, k, true); x != "" {
						c.Violate("listing %d: the result of an earlier call has changed: %s", n, x)
					}
				}
			}
		}
		if n != ok+1 {
			c.Violate("%d listings instead of %d", n, ok+1)
		}
	})
	sub(t, "programs", 0.5, "random programs whose last document lists all variables, against a reference interpreter that never modifies values; non-trivial: five or more calls", func(c *C) {
		g := newGen(c)
		g.anchors = 25
		g.merges = 30
		docs := g.program(5, c.Int(3, 4, "depth"))
		docs = append(docs, g.dump())
		in, _, rerr, _ := c.RunProg(docs)
		c.NonTrivialIf(in.calls >= 5 && rerr == nil)
	})
	sub(t, "patch-copies", 0.4, "maps.patch puts one value at several places (from the value member, copy, move) and then changes one of them, or a value made of variables is patched through one path: the other places, the variables the parts came from and the patch itself stay as they were; non-trivial: always", func(c *C) {
		v := genMapV(c, 2, "v")
		v.M.Set("leaf", vMapOf("n", vInt(1), "l", vList(vInt(1))))
		target := nLit(genMapV(c, 1, "t"))
		for _, k := range []string{"p", "q", "r"} {
			for i := range target.Ents {
				if target.Ents[i].Key == k {
					target.Ents[i].Key = k + k
				}
			}
		}
		dedup(target)
		target.Ents = append(target.Ents, &Ent{Key: "p", Val: nMapOf()}, &Ent{Key: "q", Val: nMapOf()})
		target.Ents[len(target.Ents)-1].Val.Flow = true
		target.Ents[len(target.Ents)-2].Val.Flow = true
		x := nRef("x")
		op := func(kv ...any) *N { return nMapOf(kv...) }
		ops := nQuote(nList())
		ops.Flow = false
		how := c.Int(0, 3, "how")
		switch how {
		case 0:
			ops.Items = append(ops.Items, op("op", nStr("add"), "path", nStr("/p/a"), "value", x), op("op", nStr("add"), "path", nStr("/q/a"), "value", x))
		case 1:
			ops.Items = append(ops.Items, op("op", nStr("add"), "path", nStr("/p/a"), "value", x), op("op", nStr("copy"), "from", nStr("/p/a"), "path", nStr("/q/a")))
		case 2:
			ops.Items = append(ops.Items, op("op", nStr("add"), "path", nStr("/p/b"), "value", x), op("op", nStr("copy"), "from", nStr("/p/b"), "path", nStr("/q/a")), op("op", nStr("move"), "from", nStr("/p/b"), "path", nStr("/p/a")))
		default:
			ops.Items = append(ops.Items, op("op", nStr("add"), "path", nStr("/p/a"), "value", nQuote(nMapOf("in", x, "leaf", x))), op("op", nStr("replace"), "path", nStr("/q"), "value", nQuote(nMapOf("a", nMapOf("in", x, "leaf", x)))))
		}
		want := v
		if how == 3 {
			want = vMapOf("in", v, "leaf", v)
		}
		side := pick(c, "side", "p", "q")
		other := map[string]string{"p": "q", "q": "p"}[side]
		change := pick(c, "change",
			op("op", nStr("add"), "path", nStr("/"+side+"/a/new"), "value", nInt(7)),
			op("op", nStr("replace"), "path", nStr("/"+side+"/a/leaf"), "value", nInt(7)),
			op("op", nStr("remove"), "path", nStr("/"+side+"/a/leaf")),
			op("op", nStr("add"), "path", nStr("/"+side+"/a/leaf/n"), "value", nInt(7)))
		sep := c.Bool("second-call")
		docs := []*N{nYisp(nCall("progn", nLit(v).anchored("x"), target.anchored("t"), nNull()))}
		if sep {
			docs = append(docs, nYisp(nCall("progn", nCall("maps.patch", nRef("t"), ops).anchored("u"), nCall("maps.patch", nRef("u"), nQuote(nList(change))).anchored("w"), nNull())))
		} else {
			ops.Items = append(ops.Items, change)
			docs = append(docs, nYisp(nCall("progn", nCall("maps.patch", nRef("t"), ops).anchored("w"), nNull())))
		}
		docs = append(docs, nMapOf("other", nRef("w."+other+".a"), "x", nRef("x")))
		c.NonTrivial()
		o := c.Eval(printDocs(docs, c.Seed("layout"), false))
		c.Expect(o, []*V{vMapOf("other", want, "x", v)}, nil, true)
	})
}

// dashes makes sure the text begins a new document.
func dashes(s string) string {
	if len(s) >= 3 && s[:3] == "---" {
		return s
	}
	return "---\n" + s
}
