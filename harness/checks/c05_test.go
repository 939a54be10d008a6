package checks

import (
	"fmt"
	"strings"
	"testing"
)

// tracer gives every probe its own page; fetching it is the visible effect of evaluating the probe.
type tracer struct {
	base string
	n    int
	rate int
	bad  int
}

func (t *tracer) url() string {
	t.n++
	return fmt.Sprintf("%s/t/%d.txt", t.base, t.n)
}

// probe is an expression of the type whose evaluation is visible.
func (t *tracer) probe(g *gen, ty *Ty, d int) *N {
	if !g.c.Chance(t.rate, "probe") || t.n > 40 {
		return nil
	}
	inc := nCall("include", nStr(t.url()))
	switch {
	case ty.K == TStr && g.c.Bool("as-text"):
		return nCall("lists.car", inc)
	case ty.K == TBool && g.c.Bool("as-bool"):
		return nCall(pick(g.c, "how", "==", "!="), nCall("lists.length", inc), nInt(1))
	case ty.K == TInt && g.c.Bool("as-int"):
		return nCall("lists.length", inc)
	}
	rate := t.rate
	t.rate /= 2
	e := g.expr(ty, d-1, false)
	t.rate = rate
	return nCall("progn", inc, e)
}

func TestC05(t *testing.T) {
	sub(t, "effects", 1, "random programs with probes (an include of a page of a loopback server, so that every evaluation is visible) at random places; the order and number of fetches, and the result or failure, must equal the reference; non-trivial: four or more probes in the program of which one is not evaluated, or one twice, or three in a row", func(c *C) {
		w := web(c)
		tr := &tracer{base: w.base, rate: 22}
		g := newGen(c)
		g.left = 90
		g.funs = 5
		g.hook = tr.probe
		g.tags = 8
		if c.Chance(30, "with-errors") {
			g.errs = 20
		}
		docs := g.program(3, c.Int(3, 4, "depth"))
		runTraced(c, w, tr, docs)
	})
	sub(t, "forms", 0.7, "one if, and/or/??, progn, pipeline, operator call, list, map, merge key, recursion or nested combination with a probe on every part; non-trivial: three or more probes", func(c *C) {
		w := web(c)
		tr := &tracer{base: w.base, rate: 0}
		var e *N
		d := c.atMost(1, 3, 6, "depth")
		e = probed(c, tr, d)
		docs := []*N{nMapOf("r", nYisp(nCall("progn", e)), "s", nYisp(probed(c, tr, 1)))}
		if c.Bool("quoted") {
			docs = []*N{nYisp(nMapOf("r", e)), nQuote(nList(nYisp(probed(c, tr, 1)), nMapOf("x", nYisp(probed(c, tr, 1)), "y", nYisp(probed(c, tr, 0)))))}
		}
		runTraced(c, w, tr, docs)
	})
}

// probed draws a form all of whose parts are visible.
func probed(c *C, tr *tracer, d int) *N {
	p := func(v *N) *N { return nCall("progn", nCall("include", nStr(tr.url())), v) }
	if d <= 0 || tr.n > 80 {
		return p(nOf(pick(c, "v", vInt(0), vInt(1), vBool(true), vBool(false), vNull(), vStr("")))) // any truthiness
	}
	sub := func() *N {
		if c.Chance(40, "deeper") {
			return probed(c, tr, d-1)
		}
		return probed(c, tr, 0)
	}
	switch c.Int(0, 11, "form") {
	case 0, 1:
		return nCall("if", sub(), sub(), sub())
	case 2, 3:
		n := nCall(pick(c, "logic", "and", "or", "&&", "||", "??", "default"))
		for i := c.atMost(1, 4, 12, "n"); i > 0; i-- {
			n.Items = append(n.Items, sub())
		}
		return n
	case 4:
		n := nCall("progn")
		for i := c.atMost(1, 4, 12, "n"); i > 0; i-- {
			n.Items = append(n.Items, sub())
		}
		return n
	case 5:
		n := nCall("pipeline", sub())
		for i := c.atMost(0, 3, 10, "n"); i > 0; i-- {
			n.Items = append(n.Items, p(nCall("lambda", nList(nStr("x")), nCall("progn", nCall("include", nStr(tr.url())), pick(c, "out", nRef("x"), sub())))))
		}
		return n
	case 6: // the operator itself is computed
		n := nList(p(nStr(pick(c, "cop", "progn", "and", "or", "??"))))
		for i := c.Int(1, 3, "n"); i > 0; i-- {
			n.Items = append(n.Items, sub())
		}
		return n
	case 7:
		n := &N{K: NList, Tag: "!quote"}
		for i := c.atMost(1, 4, 12, "n"); i > 0; i-- {
			n.Items = append(n.Items, nYisp(sub()))
		}
		return n
	case 8:
		n := &N{K: NMap}
		for i := c.atMost(1, 4, 12, "n"); i > 0; i-- {
			n.Ents = append(n.Ents, &Ent{Key: fmt.Sprintf("k%d", 9-i), Val: sub()})
		}
		if c.Bool("merge") {
			at := c.Int(0, len(n.Ents), "at")
			m := &Ent{Merge: true, Val: nMapOf("m", sub(), "k9", sub())}
			n.Ents = append(n.Ents[:at:at], append([]*Ent{m}, n.Ents[at:]...)...)
		}
		return n
	case 9: // a function whose body must run once per call and not at its definition
		return nList(p(nCall("lambda", nList(nStr("x"), nStr("y")), nCall("progn", sub(), nRef("x")))), sub(), sub())
	case 10:
		l := &N{K: NList, Tag: "!quote"}
		for i := c.atMost(0, 3, 10, "n"); i > 0; i-- {
			l.Items = append(l.Items, nInt(int64(i)))
		}
		return nCall(pick(c, "ho", "lists.map", "lists.filter"), p(l), p(nCall("lambda", nList(nStr("x")), sub())))
	default: // a part that fails stops everything after it
		n := nCall("progn", sub())
		if c.Chance(50, "fail") {
			n.Items = append(n.Items, nCall("if", sub(), nCall("lists.car", nList()), nInt(1)))
		} else {
			n.Items = append(n.Items, nCall("if", sub(), nInt(1), nRef("undefined")))
		}
		n.Items = append(n.Items, sub())
		return n
	}
}

func runTraced(c *C, w *webServer, tr *tracer, docs []*N) {
	setFile(docs, memLoc)
	src := printDocs(docs, c.Seed("layout"), false)
	in := newInterp()
	in.limit = 5000
	in.web = func(u string) *string {
		s := "page " + u[strings.LastIndex(u, "/")+1:]
		return &s
	}
	want, rerr, ok := refRun(in, docs, newEnv())
	if !ok || len(in.trace) > 300 {
		c.T.Skip("too long")
	}
	pages := map[string]page{}
	for i := 1; i <= tr.n; i++ {
		pages[fmt.Sprintf("/t/%d.txt", i)] = page{body: fmt.Sprintf("page %d.txt", i)}
	}
	w.reset(pages)
	c.Note("--- program ---\n%s", strings.ReplaceAll(src, tr.base, "http://127.0.0.1"))
	o := c.EvalOpt(src, memLoc, memOpts)
	var wantT []string
	for _, u := range in.trace {
		wantT = append(wantT, strings.TrimPrefix(u, tr.base))
	}
	got := w.taken()
	count := map[string]int{}
	for _, u := range wantT {
		count[u]++
	}
	twice := false
	for _, n := range count {
		twice = twice || n > 1
	}
	c.ClassIf(len(count) < tr.n, "not-evaluated")
	c.ClassIf(twice, "twice")
	c.ClassIf(len(wantT) >= 4, "effects>=4")
	c.NonTrivialIf(tr.n >= 4 && (len(count) < tr.n || twice || len(wantT) >= 3))
	if strings.Join(got, " ") != strings.Join(wantT, " ") {
		c.Violate("effects in the wrong order or number:\nexpected %v\ngot      %v", wantT, got)
	}
	c.Expect(o, want, toErr(rerr), true)
}
