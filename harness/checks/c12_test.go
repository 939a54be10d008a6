package checks

import (
	"strconv"
	"strings"
	"testing"
)

func escTok(t string) string {
	return strings.ReplaceAll(strings.ReplaceAll(t, "~", "~0"), "/", "~1")
}

// patchKey draws a key for documents under patch (never "*", which is a wildcard).
func patchKey(c *C, label string) string {
	k := pick(c, label, "a", "b", "c", "name", "a/b", "m~n", "~1", "0", "1", "-", "", "a.b", "x y", "é", "~", "/", "null", "01")
	return k
}

func genPatchDoc(c *C, d int, label string) *V {
	k := c.Int(0, 9, label+"-k")
	if d <= 0 || k < 3 {
		return genScalar(c, label)
	}
	n := c.Int(0, 4, label+"-n")
	if k < 6 {
		l := &V{K: VList}
		if c.Chance(6, label+"-long") { // indices of several digits
			for i := c.Int(9, 130, label+"-n"); i > 0; i-- {
				l.L = append(l.L, vInt(int64(i)))
			}
			return l
		}
		alike := c.Chance(25, label+"-alike") // records
		for i := 0; i < n; i++ {
			if alike && i > 0 && l.L[0].K == VMap {
				l.L = append(l.L, starless(overlay(c, l.L[0], 1)))
				continue
			}
			l.L = append(l.L, genPatchDoc(c, d-1, label))
		}
		return l
	}
	m := newOMap()
	for i := 0; i < n; i++ {
		m.Set(patchKey(c, label+"-key"), genPatchDoc(c, d-1, label))
	}
	return vMap(m)
}

// pathIn draws a pointer into doc: mostly to something that exists, or to a place next to it.
func pathIn(c *C, doc *V, wild bool, label string) string {
	var toks []string
	cur := doc
	for {
		if len(toks) > 0 && c.Chance(28, label+"-stop") || cur.K != VMap && cur.K != VList {
			break
		}
		if wild && c.Chance(22, label+"-wild") {
			toks = append(toks, "*")
			var kids []*V
			if cur.K == VList {
				kids = cur.L
			} else {
				for _, k := range cur.M.keys {
					kids = append(kids, cur.M.m[k])
				}
			}
			if len(kids) == 0 {
				break
			}
			cur = kids[c.Int(0, len(kids)-1, label+"-rep")]
			continue
		}
		if cur.K == VList {
			i := c.Int(0, max(len(cur.L)-1, 0), label+"-i")
			if c.Chance(12, label+"-off") {
				toks = append(toks, pick(c, label+"-odd", "-", strconv.Itoa(len(cur.L)), strconv.Itoa(len(cur.L)+1), "-1", "-1", "01", "x", "", "1e0", "+1"))
				if c.Chance(30, label+"-through") { // goes on through it
					toks = append(toks, pick(c, label+"-after", "a", "0", "*", "b"))
				}
				break
			}
			toks = append(toks, strconv.Itoa(i))
			if i >= len(cur.L) {
				break
			}
			cur = cur.L[i]
			continue
		}
		if len(cur.M.keys) == 0 || c.Chance(15, label+"-newkey") {
			toks = append(toks, escTok(patchKey(c, label+"-nk")))
			if c.Chance(10, label+"-deeper") {
				toks = append(toks, "z")
			}
			break
		}
		k := cur.M.keys[c.Int(0, len(cur.M.keys)-1, label+"-ki")]
		toks = append(toks, escTok(k))
		cur = cur.M.m[k]
	}
	if (cur.K == VMap || cur.K == VList) && c.Chance(30, label+"-beyond") {
		if cur.K == VList {
			toks = append(toks, pick(c, label+"-lt", "-", "0", strconv.Itoa(len(cur.L))))
		} else {
			toks = append(toks, escTok(patchKey(c, label+"-bk")))
		}
	}
	if len(toks) == 0 {
		return ""
	}
	return "/" + strings.Join(toks, "/")
}

// starless is a value without the key "*", which a path can not name.
func starless(v *V) *V {
	switch v.K {
	case VList:
		for _, x := range v.L {
			starless(x)
		}
	case VMap:
		v.M.Del("*")
		for _, k := range v.M.keys {
			starless(v.M.m[k])
		}
	}
	return v
}

// anyAt is one of the values that the path, which may have wildcards, stands for.
func anyAt(c *C, v *V, toks []string) *V {
	for _, t := range toks {
		var kids []*V
		switch {
		case t == "*" && v.K == VList:
			kids = v.L
		case t == "*" && v.K == VMap:
			for _, k := range v.M.keys {
				kids = append(kids, v.M.m[k])
			}
		default:
			if x, err := getAt(v, []string{t}); err == nil {
				kids = []*V{x}
			}
		}
		if len(kids) == 0 {
			return nil
		}
		v = kids[c.Int(0, len(kids)-1, "any-at")]
	}
	return v
}

func genPatches(c *C, doc *V, n int, allowWild bool) []*V {
	var ops []*V
	cur := doc
	for i := 0; i < n; i++ {
		op := newOMap()
		kind := pick(c, "op", "add", "add", "add", "remove", "replace", "replace", "move", "copy", "copy", "test")
		wild := allowWild && (kind == "add" || kind == "remove" || kind == "replace") && c.Chance(30, "wild")
		p := pathIn(c, cur, wild, "path")
		fields := []func(){func() { op.Set("op", vStr(kind)) }, func() { op.Set("path", vStr(p)) }}
		switch kind {
		case "add", "replace":
			v := genPatchDoc(c, 2, "value")
			if toks, err := tokens(p); err == nil && (hasWild(toks) || c.Chance(25, "map-onto-map")) {
				if x := anyAt(c, cur, toks); x != nil && x.K == VMap && c.Chance(70, "onto") {
					v = starless(overlay(c, x, 2))
				}
			}
			fields = append(fields, func() { op.Set("value", v) })
		case "test":
			v := genPatchDoc(c, 1, "value")
			if toks, err := tokens(p); err == nil {
				if x, err := getAt(cur, toks); err == nil && c.Chance(85, "true-test") {
					v = x.clone()
					if c.Chance(20, "near") {
						v = related(c, x)
						if c.Bool("num") && (x.K == VInt || x.K == VFloat) {
							v = closeTo(c, x)
						}
					}
				}
			}
			fields = append(fields, func() { op.Set("value", v) })
		case "move", "copy":
			from := pathIn(c, cur, false, "from")
			fields = append(fields, func() { op.Set("from", vStr(from)) })
		}
		if c.Chance(3, "malformed") {
			switch c.Int(0, 3, "mal") {
			case 0:
				fields = fields[:len(fields)-1]
			case 1:
				kind = pick(c, "badop", "Add", "", "delete", "merge")
			case 2:
				p = strings.TrimPrefix(p, "/")
			case 3:
				p = pick(c, "badpath", "/a~2", "/~", "a", "//", "/")
			}
		}
		if c.Bool("reorder-fields") && len(fields) > 1 {
			fields[0], fields[len(fields)-1] = fields[len(fields)-1], fields[0]
		}
		for _, f := range fields {
			f()
		}
		v := vMap(op)
		ops = append(ops, v)
		if next, err := patchOnce(cur, v); err == nil {
			cur = next
		} else if c.Chance(92, "drop-failing") { // keep most sequences applicable
			ops = ops[:len(ops)-1]
		}
	}
	return ops
}

func TestC12(t *testing.T) {
	sub(t, "sequence", 1, "1..7 operations (rarely up to 40; documents rarely 20 levels deep, lists sometimes of more than 100 items) whose paths and values are drawn from the document as it evolves (escapes, `-`, array insertion, wildcards, nested moves and copies, failing ones too) applied to a random document, against an RFC 6902 reference; non-trivial: at least two operations or a wildcard", func(c *C) {
		doc := genPatchDoc(c, 4, "doc")
		if c.rarely("deep") {
			for i := c.Int(4, 20, "levels"); i > 0; i-- {
				if c.Bool("in-list") {
					doc = vList(doc)
				} else {
					doc = vMapOf(patchKey(c, "level"), doc)
				}
			}
		}
		if doc.K != VMap && doc.K != VList {
			doc = vMapOf("a", doc)
		}
		ops := genPatches(c, doc, c.atMost(1, 7, 40, "nops"), true)
		var docs []*N
		tn := nLit(doc)
		if c.Chance(30, "anchored") {
			tn.Anchor = "t"
			docs = append(docs, nYisp(nCall("progn", tn, nNull())))
			tn = nRef("t")
		}
		pl := &V{K: VList, L: ops}
		pn := nLit(pl)
		if len(ops) == 1 && c.Bool("single") {
			pn = nLit(ops[0])
		}
		call := nCall("maps.patch", tn, pn)
		docs = append(docs, pick(c, "wrap", nYisp(nMapOf("r", call)), nList(nYisp(call))))
		for _, o := range ops {
			k, _ := o.M.Get("op")
			c.Class("op-" + k.short())
			if p, ok := o.M.Get("path"); ok {
				c.ClassIf(strings.Contains(p.S, "*"), "wildcard")
				c.NonTrivialIf(strings.Contains(p.S, "*"))
			}
		}
		c.NonTrivialIf(len(ops) >= 2)
		_, _, rerr, _ := c.RunProg(docs)
		c.ClassIf(rerr == nil, "ok")
	})
	sub(t, "documents", 0.25, "the same on a list of top-level documents: every document is patched, one failing document fails all; non-trivial: at least two documents", func(c *C) {
		n := c.Int(1, 4, "ndocs")
		tl := &N{K: NList, Items: []*N{nStr("lists.as-toplevel")}}
		base := genPatchDoc(c, 3, "doc")
		if base.K != VMap {
			base = vMapOf("a", base)
		}
		for i := 0; i < n; i++ {
			d := base
			if c.Bool("vary") {
				d = base.clone()
				mutateOne(c, d)
			}
			if d.K == VList {
				d = vMapOf("l", d)
			}
			tl.Items = append(tl.Items, nLit(d))
		}
		ops := genPatches(c, base, c.Int(1, 4, "nops"), true)
		c.NonTrivialIf(n >= 2)
		c.RunProg([]*N{nYisp(nCall("maps.patch", tl, nLit(&V{K: VList, L: ops})))})
	})
	sub(t, "laws", 0.3, "add then test then remove restores the document; copy leaves the source alone when the copy is changed afterwards; move is copy and remove; non-trivial: the document has a nested collection", func(c *C) {
		doc := genPatchDoc(c, 3, "doc")
		if doc.K != VMap {
			doc = vMapOf("a", doc, "b", vMapOf("x", vInt(1)))
		}
		c.NonTrivialIf(doc.size() > 3)
		val := genPatchDoc(c, 2, "val")
		p := func(kv ...any) *V { return vMapOf(kv...) }
		ops := []*V{p("op", vStr("add"), "path", vStr("/zz"), "value", val), p("op", vStr("test"), "path", vStr("/zz"), "value", val),
			p("op", vStr("copy"), "from", vStr("/zz"), "path", vStr("/yy")), p("op", vStr("replace"), "path", vStr("/yy"), "value", vMapOf("k", vList(val, val))),
			p("op", vStr("add"), "path", vStr("/yy/k/0"), "value", vInt(5)), p("op", vStr("test"), "path", vStr("/yy/k/2"), "value", val),
			p("op", vStr("test"), "path", vStr("/zz"), "value", val), p("op", vStr("move"), "from", vStr("/yy"), "path", vStr("/xx")),
			p("op", vStr("remove"), "path", vStr("/xx")), p("op", vStr("remove"), "path", vStr("/zz"))}
		want := vMapOf("r", doc)
		o := c.Eval(printDocs([]*N{nYisp(nMapOf("r", nCall("maps.patch", nLit(doc), nLit(&V{K: VList, L: ops}))))}, c.Seed("layout"), false))
		c.Expect(o, []*V{want}, nil, true)
	})
}
