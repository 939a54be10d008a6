package checks

import "testing"

// total operators: valid with any arguments of the given number
var totalOps = []struct {
	name     string
	min, max int
}{{"progn", 1, 3}, {"??", 0, 3}, {"default", 1, 2}, {"and", 0, 3}, {"||", 0, 2}, {"not", 1, 1}, {"==", 2, 2}, {"if", 3, 3}, {"types.of", 1, 1}, {"lists.flatten", 0, 3}, {"maps.make", 0, 0}, {"strings.concat", 0, 0}, {"pipeline", 1, 1}}

var callHeads = []string{"+", "if", "lambda", "import", "include", "progn", "lists.map", "strings.concat", "nosuch", "", "==", "exec.cmd", "files.read", "quote", "maps.merge", "/", "lists.car", "schema"}

// modeTree draws a tree of lists and maps with evaluation tags anywhere.
func modeTree(c *C, d int, q bool, defs *[]string) *N {
	k := c.Int(0, 9, "node")
	if d <= 0 {
		k = 9
	}
	tag := ""
	if d > 0 && k < 7 && c.Chance(35, "tagged") {
		tag = pick(c, "tag", "!yisp", "!quote")
		q = tag == "!quote"
	}
	var n *N
	switch {
	case k < 5 && q: // data that may look like a call
		n = &N{K: NList}
		if c.Chance(60, "callish") {
			h := nStr(callHeads[c.Int(0, len(callHeads)-1, "head")])
			n.Items = append(n.Items, h)
		}
		for i := c.Int(0, 3, "items"); i > 0; i-- {
			n.Items = append(n.Items, modeTree(c, d-1, q, defs))
		}
	case k < 5:
		if c.Chance(8, "empty") {
			n = nList()
			break
		}
		op := totalOps[c.Int(0, len(totalOps)-1, "op")]
		n = nCall(op.name)
		for i := c.Int(op.min, op.max, "args"); i > 0; i-- {
			n.Items = append(n.Items, modeTree(c, d-1, q, defs))
		}
		if len(n.Items) > 0 && c.Chance(15, "applied") { // through a function
			n = nList(nCall("lambda", nList(), n))
		}
	case k < 7:
		n = &N{K: NMap}
		seen := map[string]bool{}
		for i := c.Int(0, 3, "entries"); i > 0; i-- {
			key := genKey(c, "key")
			if seen[key] || key == "<<" || key == "apiVersion" || key == "kind" || key == "$schema" {
				continue
			}
			seen[key] = true
			n.Ents = append(n.Ents, &Ent{Key: key, Val: modeTree(c, d-1, q, defs)})
		}
	default:
		if len(*defs) > 0 && c.Chance(25, "ref") {
			return nRef((*defs)[c.Int(0, len(*defs)-1, "which")])
		}
		n = nOf(genScalar(c, "leaf"))
		if c.Chance(15, "head-leaf") {
			n = nStr(callHeads[c.Int(0, len(callHeads)-1, "head")])
		}
	}
	n.Tag = tag
	if c.Chance(8, "anchor") {
		n.Anchor = pick(c, "anchor-name", "a", "b", "v1")
		*defs = append(*defs, n.Anchor+"?")
	}
	return n
}

func countModes(docs []*N) (tags, lists int) {
	for _, d := range docs {
		d.walk(func(n *N) {
			if n.Tag == "!yisp" || n.Tag == "!quote" {
				tags++
			}
			if n.K == NList && len(n.Items) > 0 {
				lists++
			}
		})
	}
	return
}

func TestC02(t *testing.T) {
	sub(t, "trees", 1, "documents of nested lists and maps with !yisp and !quote tags at random places, lists that look like calls everywhere, references to earlier results; non-trivial: two or more tags and two or more non-empty lists", func(c *C) {
		var docs []*N
		var defs []string
		for i := c.Int(1, 3, "docs"); i > 0; i-- {
			d := modeTree(c, 5, true, &defs)
			if d.K != NList && d.K != NMap || c.Chance(10, "boxed") {
				d = nList(d)
			}
			docs = append(docs, d)
		}
		tags, lists := countModes(docs)
		c.NonTrivialIf(tags >= 2 && lists >= 2)
		c.ClassIf(tags >= 4, "tags>=4")
		in, _, rerr, _ := c.RunProg(docs)
		c.ClassIf(rerr != nil, "fails")
		c.ClassIf(in.calls >= 3, "calls>=3")
	})
	sub(t, "values", 0.6, "data full of lists that look like calls is passed through variables, functions, list and map operators, merge keys and merge: nothing in it may be evaluated; non-trivial: the data contains a list with an operator name in front", func(c *C) {
		var defs []string
		v := modeTree(c, 3, true, &defs)
		strip(v)
		in0 := newInterp()
		val, _ := in0.Eval(v, newEnv(), false)
		calls := false
		v.walk(func(n *N) { calls = calls || n.K == NList && len(n.Items) > 0 && n.Items[0].K == NStr })
		c.NonTrivialIf(calls)
		v = nLit(val)
		x := nRef("x")
		wrapQ := func() *N { return nQuote(nList(nYisp(nCall("progn", x)), x)) }
		forms := []*N{
			nCall("progn", x), nCall("if", nBool(true), x, nNull()), nCall("??", nNull(), x), nList(nCall("lambda", nList(nStr("p")), nRef("p")), x),
			nCall("lists.car", wrapQ()), nCall("lists.map", wrapQ(), nCall("lambda", nList(nStr("p")), nRef("p"))), nCall("lists.map", wrapQ(), nStr("progn")),
			nCall("lists.filter", wrapQ(), nCall("lambda", nList(nStr("p")), nBool(true))), nCall("lists.reduce", wrapQ(), nStr("progn")),
			nCall("maps.make", nStr("k"), x), nCall("maps.merge", nMapOf("k", nInt(1)), nMapOf("k", x)), nCall("maps.values", nMapOf("k", x)), nCall("maps.to-entries", nMapOf("k", x)),
			nCall("maps.from-entries", nQuote(nList(nList(nStr("k"), x)))), nMapOf("m", x), nQuote(nList(x)), nCall("pipeline", x, nStr("progn")), nCall("lists.cons", x, nQuote(nList(x))),
			nCall("lists.flatten", wrapQ()), nCall("lists.at", wrapQ(), nInt(1)), nCall("lists.cdr", wrapQ()), nMapOf("z", nInt(1)),
			nCall("progn", nCall("progn", x)), nList(nCall("lambda", nList(), x)), nCall("types.of", x), nCall("default", x, nNull()),
		}
		f := forms[c.Int(0, len(forms)-1, "form")]
		if c.Chance(20, "merge-key") {
			f = nMapOf("z", nInt(1))
			f.Ents = append(f.Ents, &Ent{Merge: true, Val: nCall("maps.make", nStr("mk"), x)})
		}
		again := nCall("progn", nRef("r"))
		c.RunProg([]*N{nYisp(nCall("progn", v.anchored("x"), nNull())), nMapOf("a", nYisp(f).anchored("r")), nMapOf("b", nYisp(again))})
	})
	sub(t, "programs", 0.5, "random typed programs with redundant and mode-changing tags at most places, against the reference interpreter; non-trivial: two or more tags and two or more lists", func(c *C) {
		g := newGen(c)
		g.tags = 60
		if c.Chance(15, "with-errors") {
			g.errs = 15
		}
		docs := g.program(4, c.Int(3, 5, "depth"))
		tags, lists := countModes(docs)
		c.NonTrivialIf(tags >= 2 && lists >= 2)
		in, _, rerr, _ := c.RunProg(docs)
		c.progClasses(in, rerr)
	})
}

// strip removes evaluation tags, anchors and references: what is left is data.
func strip(n *N) {
	n.walk(func(n *N) {
		n.Tag, n.Anchor = "", ""
		if n.K == NRef {
			*n = *nStr("ref")
		}
	})
}
