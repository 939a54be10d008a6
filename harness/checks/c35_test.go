package checks

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	fork "github.com/totegamma/yisp/internal/yaml"
)

// locate gives the nodes of a program the positions they have in its text.
func (c *C) locate(docs []*N, text string) {
	ds, err := forkDocs(strings.NewReader(text))
	if err != nil {
		c.Harness("a printed program can not be parsed: %v\n%s", err, text)
	}
	var set func(n *N, y *fork.Node)
	set = func(n *N, y *fork.Node) {
		n.Line, n.Col = y.Line, y.Column
		switch {
		case n.K == NList && y.Kind == fork.SequenceNode && len(y.Content) == len(n.Items):
			for i, x := range n.Items {
				set(x, y.Content[i])
			}
		case n.K == NMap && y.Kind == fork.MappingNode && len(y.Content) == 2*len(n.Ents):
			for i, e := range n.Ents {
				set(e.Val, y.Content[2*i+1])
			}
		case n.K == NList || n.K == NMap:
			c.Harness("the text has another shape than the program at %d:%d\n%s", y.Line, y.Column, text)
		}
	}
	i := 0
	for _, d := range ds {
		if i < len(docs) && len(d.Content) == 1 {
			set(docs[i], d.Content[0])
			i++
		}
	}
	if i != len(docs) || len(ds) != len(docs) {
		c.Harness("%d documents of %d in the text\n%s", len(ds), len(docs), text)
	}
}

type place struct {
	file      string
	line, col int
}

func (p place) String() string { return fmt.Sprintf("%s:%d:%d", p.file, p.line, p.col) }

var tracePos = regexp.MustCompile(`(?m) at ([^\n]*):(\d+):(\d+)$`)

// places reads the positions that an error names, the root cause first.
func places(err error) (ps []place) {
	s := errText(err)
	if i := strings.LastIndex(s, "\nTraceback:\n"); i >= 0 {
		s = s[i:]
	}
	for _, m := range tracePos.FindAllStringSubmatch(s, -1) {
		l, _ := strconv.Atoi(m[2])
		k, _ := strconv.Atoi(m[3])
		f := m[1]
		if i := strings.LastIndex(f, " at "); i >= 0 && !filepath.IsAbs(f) {
			f = f[i+4:]
		}
		if f == "" && l == 0 && k == 0 {
			continue
		}
		ps = append(ps, place{filepath.Clean(f), l, k})
	}
	return
}

func placeOf(n *N) place { return place{filepath.Clean(n.File), n.Line, n.Col} }

// samePlace compares a position that was named with an absolute one.
func samePlace(got, want place) bool {
	if got.line != want.line || got.col != want.col {
		return false
	}
	f := got.file
	for strings.HasPrefix(f, "../") {
		f = f[3:]
	}
	return f == want.file || !filepath.IsAbs(f) && strings.HasSuffix(want.file, "/"+f)
}

func sameAny(n *N, in []*N) bool {
	for _, x := range in {
		if x == n {
			return true
		}
	}
	return false
}

// pointsAt checks the positions of an error.
func (c *C) pointsAt(err error, want *evalErr, main string, known []place) {
	got := places(err)
	msg := func(s string, a ...any) {
		var exp []string
		if want.Node != nil {
			exp = append(exp, placeOf(want.Node).String())
		}
		for _, n := range want.Chain {
			exp = append(exp, placeOf(n).String())
		}
		c.Violate("%s\nexpected root %v (%s), positions %v\ngot %v\n%s", fmt.Sprintf(s, a...), want.Node != nil, want.Msg, exp, got, errText(err))
	}
	if len(got) == 0 {
		msg("the error names no position")
	}
	at := 0
	if want.Node != nil {
		c.Class("expression")
		// a wrong operand may be named by its own position or by that of the call
		operand := want.Node.K != NRef && len(want.Chain) > 0 && sameAny(want.Node, want.Chain[0].Items) && want.Node != want.Chain[0].Items[0]
		if !samePlace(got[0], placeOf(want.Node)) && !(operand && samePlace(got[0], placeOf(want.Chain[0]))) {
			msg("the error is said to be at %v, not at %v", got[0], placeOf(want.Node))
		}
	} else {
		c.Class("call")
	}
	for _, n := range want.Chain {
		p := placeOf(n)
		for at < len(got) && !samePlace(got[at], p) {
			at++
		}
		if at == len(got) {
			msg("%v does not occur among the positions, or not in its order", p)
		}
	}
	last := got[len(got)-1]
	if !samePlace(place{last.file, 0, 0}, place{filepath.Clean(main), 0, 0}) {
		msg("the chain does not lead to the top-level file %s", main)
	}
	if len(want.Chain) > 0 && !samePlace(last, placeOf(want.Chain[len(want.Chain)-1])) {
		msg("the chain ends at %v", last)
	}
	if known != nil {
		for _, p := range got {
			ok := false
			for _, k := range known {
				ok = ok || samePlace(p, k)
			}
			if !ok {
				msg("no expression stands at %v", p)
			}
		}
	}
	if len(want.Chain) > 3 {
		c.Class("deep")
	}
	for _, n := range want.Chain {
		if n.File != main {
			c.Class("other file")
			break
		}
	}
}

func allPlaces(docs []*N) (ps []place) {
	for _, d := range docs {
		d.walk(func(n *N) { ps = append(ps, placeOf(n)) })
	}
	return
}

// faulty draws an expression that fails, in one of many ways.
func faulty(c *C, file string) *N {
	num := func() *N { return nInt(int64(c.Int(1, 9, "num"))) }
	switch c.Even(14, "fault") {
	case 0, 1:
		return nRef(pick(c, "undefined", "no-such-name", "nope.a.b", "zz"))
	case 2:
		return nYisp(nCall("no.such.function", num()))
	case 3:
		return nYisp(nCall(pick(c, "arith", "+", "*"), num(), num(), nStr("x")))
	case 4:
		return nYisp(nCall("/", num(), nInt(0)))
	case 5:
		return nYisp(nCall(pick(c, "one-arg", "lists.car", "lists.length", "maps.keys", "strings.trim", "strings.toUpper"), num(), num()))
	case 6:
		return nYisp(nCall("lists.length", num()))
	case 7:
		return nYisp(nCall("include", nStr("no-such-file.yaml")))
	case 8:
		return nYisp(nCall("import", nList(nStr("m"), nStr("no-such-file.yisp"))))
	case 9:
		return nYisp(nCall("if", num(), num()))
	case 10:
		return nYisp(nCall("strings.concat", nStr("a"), nRef("no-such-name")))
	case 11:
		return nYisp(nCall("maps.get", num(), nStr("a")))
	case 12:
		return nYisp(nList(nCall("lambda", nList(nStr("p")), nCall("+", nRef("p"), nRef("p2-undefined"))), num()))
	}
	return nYisp(nCall("pipeline", num(), nCall("lambda", nList(nStr("p")), nCall("lists.car", nRef("p")))))
}

// slots lists the places of a program where an expression stands.
func slots(docs []*N) (out []**N) {
	var walk func(p **N)
	walk = func(p **N) {
		n := *p
		out = append(out, p)
		if n.K == NList {
			head := ""
			if len(n.Items) > 0 && n.Items[0].K == NStr {
				head = n.Items[0].S
			}
			for i := range n.Items {
				if (head == "lambda" || head == "import") && i < 2 || i == 0 && head != "" && n.Tag != "!quote" || head == "import" || head == "schema" {
					continue
				}
				walk(&n.Items[i])
			}
		}
		for _, e := range n.Ents {
			walk(&e.Val)
		}
	}
	for i := range docs {
		walk(&docs[i])
	}
	return
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// showsSource checks the piece of source code that an error shows: the line of
// the root cause, pointed at below its column, among its neighbours.
func (c *C) showsSource(err error, at place, text string) {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	msg := ansi.ReplaceAllString(errText(err), "")
	bad := func(s string, a ...any) {
		c.Violate("the error does not show the source at %v: %s\n%s\n--- error ---\n%s", at, fmt.Sprintf(s, a...), strings.Join(lines[at.line-1:at.line], ""), msg)
	}
	end := strings.LastIndex(msg, "\nTraceback:\n")
	if at.line < 1 || at.line > len(lines) || end < 0 {
		bad("no such line, or no trace")
	}
	if first, _, _ := strings.Cut(msg[end+len("\nTraceback:\n"):], "\n"); !strings.HasSuffix(first, fmt.Sprintf(":%d:%d", at.line, at.col)) {
		return // what failed is a value without a position
	}
	shown := strings.Split(msg[:end], "\n")
	// where a line is shown, and what stands before it
	find := func(n, from int) (int, string) {
		for i := from; i < len(shown); i++ {
			if head, ok := strings.CutSuffix(shown[i], lines[n-1]); ok && lineNo.ReplaceAllString(head, "$1") == fmt.Sprint(n) {
				return i, head
			}
		}
		return -1, ""
	}
	i, head := find(at.line, 0)
	if i < 0 {
		bad("line %d is not shown", at.line)
	}
	if i+1 >= len(shown) {
		bad("nothing points at it")
	}
	mark, rest, ok := strings.Cut(shown[i+1], "^")
	if !ok || strings.Trim(mark, " ") != "" || len(mark) != len(head)+at.col-1 {
		bad("column %d is not pointed at (%q, %q)", at.col, head, shown[i+1])
	}
	if first, _, _ := strings.Cut(msg, "\n"); !strings.Contains(rest, strings.TrimSpace(first)) {
		bad("the mark does not tell the error %q", first)
	}
	if at.line > 1 {
		if j, _ := find(at.line-1, 0); j < 0 || j > i {
			bad("the line before is not shown")
		}
	}
	if at.line < len(lines) {
		if j, _ := find(at.line+1, i); j < 0 {
			bad("the line after is not shown")
		}
	}
	c.ClassIf(at.line > 4, "shown")
}

var lineNo = regexp.MustCompile(`^\s*(\d+) ?[|:]? ?$`)

func TestC35(t *testing.T) {
	sub(t, "programs", 1, "generated programs with a failing expression (undefined names, unknown functions, wrong operands, wrong numbers of arguments, missing files) planted anywhere, in random layout: the root cause has the position of the failing expression as the YAML parser gives it, and the positions of all enclosing expressions follow up to the top level; non-trivial: the program fails at an expression that is written in the program", func(c *C) {
		g := newGen(c)
		g.left = 60
		docs := append(g.program(4, 3), g.dump())
		s := slots(docs)
		x := s[c.Int(0, len(s)-1, "slot")]
		f := faulty(c, memLoc)
		if f.Anchor == "" {
			f.Anchor = (*x).Anchor
		}
		if f.K == NRef {
			f.Anchor = ""
		}
		*x = f
		setFile(docs, memLoc)
		noise := c.Chance(40, "noise")
		src := printDocs(docs, c.Seed("layout"), noise)
		c.locate(docs, src)
		c.Note("--- program ---\n%s", src)
		in := newInterp()
		_, rerr, ok := refRun(in, docs, newEnv())
		if !ok || rerr == nil {
			c.T.Skip("does not fail")
		}
		o := c.Eval(src)
		if o.Err == nil {
			c.Violate("evaluates, but must fail: %s", rerr.Msg)
		}
		c.NonTrivial()
		c.pointsAt(o.Err, rerr, memLoc, allPlaces(docs))
	})
	sub(t, "projects", 1, "generated projects of several files with a failing expression planted anywhere in one of them (modules, included programs, functions called from elsewhere), evaluated from different working directories: as above, across files; non-trivial: the failing expression is not in the top-level file", func(c *C) {
		p := genProject(c, c.Dir(), nil)
		file := "main.yisp"
		if c.Chance(80, "other-file") {
			file = p.order[c.Int(0, len(p.order)-1, "file")]
		}
		docs := p.progs[file]
		s := slots(docs)
		x := s[c.Int(0, len(s)-1, "slot")]
		f := faulty(c, file)
		if f.K != NRef {
			f.Anchor = (*x).Anchor
		}
		*x = f
		setFile(docs, p.abs(file))
		p.finish()
		for _, f := range p.order {
			c.locate(p.progs[f], p.files[f])
		}
		_, rerr, ok := p.ref()
		if !ok || rerr == nil {
			c.T.Skip("does not fail")
		}
		o := evalAnywhere(c, p.dir, "main.yisp", memOpts)
		if o.Err == nil {
			c.Violate("evaluates, but must fail: %s", rerr.Msg)
		}
		c.NonTrivialIf(file != "main.yisp")
		var known []place
		if len(p.data) == 0 {
			for _, f := range p.order {
				known = append(known, allPlaces(p.progs[f])...)
			}
		}
		c.pointsAt(o.Err, rerr, p.abs("main.yisp"), known)
		root := places(o.Err)[0]
		for f, text := range p.files {
			if samePlace(place{root.file, 0, 0}, place{filepath.Clean(p.abs(f)), 0, 0}) {
				c.showsSource(o.Err, root, text)
			}
		}
	})
}
