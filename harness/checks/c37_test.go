package checks

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/totegamma/yisp/engine"
	up "gopkg.in/yaml.v3"
)

// remark is a comment of a plain document.
type remark struct {
	text string
	kind int // 0 before the node, 1 at the end of its line, 2 after it
	node *cnode
}

// cnode is a node of a document with comments. Its name, and those of its
// parts, occur nowhere else.
type cnode struct {
	key    string // with its quotes, if it is the value of a key
	v      *V
	kids   []*cnode
	flow   bool
	lit    string // header of a block scalar
	text   []string
	tokens []string
}

type cdoc struct {
	c     *C
	b     *strings.Builder
	n     int
	rem   []*remark
	empty bool // no comments
	wild  int  // chance of a comment
}

var remarkTexts = []string{"# %s", "# %s", "# %s some words", "#%s", "## %s", "# %s: value", "# - %s", "# %s !yisp [+, 1]", "# [%s", "# é ü %s", "# '%s", "# \"%s\": {", "# %s # more", "# |%s", "# --- %s", "#\t%s", "# %s \\n", "# *%s &x", "#: %s", "#!%s", "# %s, %%d"}

func (d *cdoc) fresh(prefix string) string {
	d.n++
	return fmt.Sprintf("%s%dz", prefix, d.n)
}

func (d *cdoc) comment(kind int, n *cnode) string {
	t := fmt.Sprintf(remarkTexts[d.c.Int(0, len(remarkTexts)-1, "comment")], d.fresh("c"))
	d.rem = append(d.rem, &remark{t, kind, n})
	return t
}

func (d *cdoc) wants(what string) bool { return d.wild > 0 && d.c.Chance(d.wild, what) }

// draw makes a node.
func (d *cdoc) draw(depth int, flow bool) *cnode {
	c := d.c
	n := &cnode{}
	k := c.Int(0, 9, "node")
	if depth > 0 && c.Chance(40, "nested") {
		k = 5 + c.Even(5, "collection")
	}
	if depth <= 0 && k >= 5 {
		k -= 5
	}
	switch {
	case k >= 5: // a collection
		n.flow = flow || c.Chance(20, "flow")
		size := c.Int(1, 3, "size")
		if n.flow && c.Chance(10, "empty") {
			size = 0
		}
		list := k >= 8
		m := newOMap()
		l := vList()
		for i := 0; i < size; i++ {
			kid := d.draw(depth-1, n.flow)
			if list {
				l.L = append(l.L, kid.v)
			} else {
				name := d.fresh("k")
				m.Set(name, kid.v)
				kid.key = name
				switch c.Int(0, 5, "key-style") {
				case 0:
					kid.key = "\"" + name + "\""
				case 1:
					kid.key = "'" + name + "'"
				}
				kid.tokens = append([]string{name}, kid.tokens...)
			}
			n.kids = append(n.kids, kid)
			n.tokens = append(n.tokens, kid.tokens...)
		}
		n.v = l
		if !list {
			n.v = vMap(m)
		}
	case k == 4 && !flow: // a block scalar
		head := pick(c, "block", "|", ">", "|-", ">-")
		var lines []string
		for i := c.Int(1, 3, "lines"); i > 0; i-- {
			t := d.fresh("v")
			n.tokens = append(n.tokens, t)
			lines = append(lines, t+pick(c, "line-more", "", " and more", ": x", " # no comment", "  two", " - [", "\"'"))
		}
		n.lit = head
		n.text = lines
		s := strings.Join(lines, "\n")
		if head[0] == '>' {
			s = strings.Join(lines, " ")
		}
		if len(head) == 1 {
			s += "\n"
		}
		n.v = vStr(s)
	default:
		t := d.fresh("v")
		n.tokens = []string{t}
		s := t
		switch c.Int(0, 6, "scalar") {
		case 0:
			n.text = []string{"\"" + t + " # in quotes\""}
			s = t + " # in quotes"
		case 1:
			n.text = []string{"'" + t + "'"}
		case 2:
			n.text = []string{t + " x#y"}
			s = t + " x#y"
		case 3: // a number
			d.n++
			t = fmt.Sprint(70000000 + d.n)
			n.tokens = []string{t}
			n.text = []string{t}
			n.v = vInt(int64(70000000 + d.n))
			return n
		default:
			n.text = []string{t}
		}
		n.v = vStr(s)
	}
	return n
}

// head writes comments before a node.
func (d *cdoc) head(n *cnode, ind string) {
	c := d.c
	first := d.b.Len() == 0
	if c.Chance(10, "blank-before") {
		d.b.WriteString("\n")
	}
	if !d.wants("head-comment") {
		return
	}
	for {
		d.b.WriteString(ind + d.comment(0, n) + "\n")
		if first && c.Chance(12, "blank-after") {
			d.b.WriteString("\n")
		}
		if !c.Chance(25, "more-lines") {
			break
		}
	}
}

// end writes what may come at the end of the line of a node.
func (d *cdoc) end(n *cnode) {
	if d.wants("line-comment") {
		d.b.WriteString(pick(d.c, "gap", " ", " ", "  ", "   ") + d.comment(1, n))
	}
	d.b.WriteString("\n")
}

func (n *cnode) isMap() bool { return n.v.K == VMap }

// flowText writes a flow collection on one line.
func (d *cdoc) flowText(n *cnode) string {
	if n.v.K != VMap && n.v.K != VList {
		return n.text[0]
	}
	var parts []string
	for _, k := range n.kids {
		s := d.flowText(k)
		if n.isMap() {
			s = k.key + ": " + s
		}
		parts = append(parts, s)
	}
	if n.isMap() {
		return "{" + strings.Join(parts, ", ") + "}"
	}
	return "[" + strings.Join(parts, ", ") + "]"
}

// value writes a value after its key or dash.
func (d *cdoc) value(n *cnode, ind string, dash bool) {
	c := d.c
	switch {
	case n.lit != "":
		d.b.WriteString(" " + n.lit)
		d.end(n)
		for _, l := range n.text {
			d.b.WriteString(ind + "  " + l + "\n")
		}
	case n.flow && len(n.kids) > 0 && c.Chance(30, "over-lines"):
		open, end := "[", "]"
		if n.isMap() {
			open, end = "{", "}"
		}
		d.b.WriteString(" " + open + "\n")
		for i, k := range n.kids {
			d.head(k, ind+"  ")
			d.b.WriteString(ind + "  ")
			if n.isMap() {
				d.b.WriteString(k.key + ": ")
			}
			d.b.WriteString(d.flowText(k))
			if i < len(n.kids)-1 || c.Bool("comma") {
				d.b.WriteString(",")
			}
			d.end(k)
		}
		d.b.WriteString(ind + " " + end)
		d.end(n)
	case n.flow:
		d.b.WriteString(" " + d.flowText(n))
		d.end(n)
	case len(n.kids) > 0 || n.v.K == VMap || n.v.K == VList:
		if dash && c.Bool("on-the-line") {
			d.b.WriteString(" ")
			d.block(n, ind+"  ", true)
			return
		}
		d.end(n)
		d.block(n, ind+"  ", false)
	default:
		d.b.WriteString(" " + n.text[0])
		d.end(n)
	}
}

// block writes the entries of a block collection.
func (d *cdoc) block(n *cnode, ind string, inline bool) {
	for i, k := range n.kids {
		if i > 0 || !inline {
			d.head(k, ind)
			d.b.WriteString(ind)
		}
		if n.isMap() {
			d.b.WriteString(k.key + ":")
			d.value(k, ind, false)
		} else {
			d.b.WriteString("-")
			d.value(k, ind, true)
		}
		if (n.isMap() || (k.flow || len(k.kids) == 0)) && d.wild > 0 && d.c.Chance(d.wild/3, "comment-after") { // set off by a blank line
			d.b.WriteString(ind + d.comment(2, k) + "\n\n")
		}
	}
}

// document writes a whole document.
func (d *cdoc) document(n *cnode) {
	switch {
	case n.flow || n.v.K != VMap && n.v.K != VList:
		if n.lit == "" {
			d.head(n, "")
		} else {
			d.b.WriteString("---")
		}
		d.value(n, "", false)
	default:
		d.block(n, "", false)
	}
}

var tokenRe = regexp.MustCompile(`[kv][0-9]+z|7[0-9]{7}`)

type tokenAt struct {
	line, col int
	token     string
}

// checkRemarks compares the comments of the output with those of the source.
func (d *cdoc) checkRemarks(out string) {
	c := d.c
	lines := strings.Split(out, "\n")
	type found struct{ line, col int }
	where := map[*remark]found{}
	body := append([]string{}, lines...)
	for _, r := range d.rem {
		hits := 0
		for i, l := range lines {
			if at := strings.Index(l, r.text); at >= 0 {
				rest := l[at+len(r.text):]
				if strings.TrimSpace(rest) != "" && rest[0] >= '0' && rest[0] <= '9' {
					continue
				}
				hits++
				where[r] = found{i, at}
				if strings.TrimSpace(rest) != "" || at > 0 && l[at-1] != ' ' {
					c.Violate("the comment %q is not one of its own: %q", r.text, l)
				}
				body[i] = l[:at]
			}
		}
		if hits != 1 {
			c.Violate("the comment %q occurs %d times in the output", r.text, hits)
		}
	}
	var all []tokenAt
	for i, l := range body {
		for _, m := range tokenRe.FindAllStringIndex(l, -1) {
			all = append(all, tokenAt{i, m[0], l[m[0]:m[1]]})
		}
	}
	for _, r := range d.rem {
		f := where[r]
		var before, after string
		same := false
		for _, p := range all {
			if p.line < f.line || p.line == f.line && p.col < f.col {
				before = p.token
			} else {
				after = p.token
				break
			}
		}
		same = strings.TrimLeft(body[f.line], " -") != ""
		ok := true
		if len(r.node.tokens) > 0 {
			isHead := after == r.node.tokens[0] && !same
			switch r.kind {
			case 0:
				ok = isHead
			case 1:
				ok = isHead || same && (has(r.node.tokens, before) || r.node.lit != "" && after == r.node.tokens[0])
			case 2:
				ok = !same && before == r.node.tokens[len(r.node.tokens)-1]
			}
		}
		if !ok {
			c.Violate("the comment %q of %v stands between %s and %s", r.text, r.node.tokens, before, after)
		}
	}
}

// checkStyle compares block and flow styles.
func (n *cnode) checkStyle(c *C, y *up.Node) {
	switch {
	case n.lit != "":
		want := up.LiteralStyle
		if n.lit[0] == '>' {
			want = up.FoldedStyle
		}
		if y.Style&want == 0 {
			c.Violate("block scalar %v has style %v", n.tokens, y.Style)
		}
	case n.v.K == VMap || n.v.K == VList:
		if flow := y.Style&up.FlowStyle != 0; flow != n.flow {
			c.Violate("collection %v: flow style is %v, was %v", n.tokens, flow, n.flow)
		}
		for i, k := range n.kids {
			if n.isMap() {
				k.checkStyle(c, y.Content[2*i+1])
			} else {
				k.checkStyle(c, y.Content[i])
			}
		}
	}
}

func TestC37(t *testing.T) {
	sub(t, "documents", 1, "streams of 1..3 plain documents (block and flow collections, block scalars, quoted and plain scalars and keys, blank lines) whose keys and scalars are unique words, with comments of 21 forms before or at the end of the line of any node, between documents that are evaluated; every comment must occur once, whole, next to the same node, the data must be the written data and styles must be kept; non-trivial: at least two comments", func(c *C) {
		d := &cdoc{c: c, b: &strings.Builder{}, wild: []int{15, 40, 80, 0}[c.Int(0, 3, "comments")]}
		var docs []*cnode
		var want []*V
		shape := 0
		for i := c.Int(1, 3, "documents"); i > 0; i-- {
			if c.Chance(15, "evaluated") { // documents of a program around it
				d.b.WriteString("---\n")
				switch c.Even(3, "which") {
				case 0:
					d.b.WriteString("!yisp &f [lambda, [x], *x]\n")
				case 1:
					d.b.WriteString("r: !yisp [+, 1, 2]\n")
					want = append(want, vMapOf("r", vInt(3)))
					docs = append(docs, nil)
				default:
					d.b.WriteString("null\n")
				}
			}
			n := d.draw(c.Int(0, 3, "depth"), false)
			if n.key == "" && len(n.kids) == 0 && (n.v.K == VMap || n.v.K == VList) {
				n.flow = true
			}
			if n.lit == "" && (shape > 0 || d.b.Len() > 0 || c.Bool("start")) {
				d.b.WriteString("---\n")
			}
			shape++
			d.document(n)
			docs = append(docs, n)
			want = append(want, n.v)
		}
		src := d.b.String()
		c.NonTrivialIf(len(d.rem) >= 2)
		for _, r := range d.rem {
			k := "collection"
			switch {
			case r.node.lit != "":
				k = "block-scalar"
			case r.node.flow:
				k = "flow"
			case r.node.v.K != VMap && r.node.v.K != VList:
				k = "scalar"
			}
			c.Class([]string{"before-", "beside-", "after-"}[r.kind] + k)
		}
		o := c.EvalOpt(src, "inline", engine.Options{})
		c.Note("--- source ---\n%s--- output ---\n%s", src, o.Text)
		c.Expect(o, want, nil, true)
		d.checkRemarks(o.Text)
		dec := up.NewDecoder(strings.NewReader(o.Text))
		for _, n := range docs {
			var y up.Node
			if err := dec.Decode(&y); err != nil {
				c.Violate("the output is not YAML: %v", err)
			}
			if n != nil {
				n.checkStyle(c, y.Content[0])
			}
		}
	})
	sub(t, "anywhere", 0.4, "the same streams with comments of any indentation put between any lines and at the end of lines (after brackets, between a key and its value, after the last node), with and without the comments: the data is the same; non-trivial: at least two comments", func(c *C) {
		d := &cdoc{c: c, b: &strings.Builder{}}
		var want []*V
		var lines []string
		var inBlock []bool
		for i := c.Int(1, 2, "documents"); i > 0; i-- {
			n := d.draw(c.Int(0, 3, "depth"), false)
			d.b.Reset()
			if n.lit == "" {
				d.b.WriteString("---\n")
			}
			d.document(n)
			block := -1
			for _, l := range strings.Split(strings.TrimSuffix(d.b.String(), "\n"), "\n") {
				ind := len(l) - len(strings.TrimLeft(l, " "))
				if block >= 0 && (strings.TrimSpace(l) == "" || ind > block) {
					inBlock = append(inBlock, true)
				} else {
					block = -1
					inBlock = append(inBlock, false)
					if strings.HasSuffix(l, "|") || strings.HasSuffix(l, "|-") || strings.HasSuffix(l, ">") || strings.HasSuffix(l, ">-") {
						block = ind
						for strings.HasPrefix(l[block:], "- ") {
							block += 2
						}
						if strings.HasPrefix(l, "---") || l[block] == '|' || l[block] == '>' {
							block--
						}
						if strings.HasPrefix(l, "---") {
							block = 0
						}
					}
				}
				lines = append(lines, l)
			}
			want = append(want, n.v)
		}
		n := 0
		text := func() string {
			n++
			return fmt.Sprintf(remarkTexts[c.Int(0, len(remarkTexts)-1, "comment")], fmt.Sprintf("c%dz", n))
		}
		var out []string
		for i, l := range lines {
			if c.Chance(25, "line") && !inBlock[i] && (i > 0 || c.Bool("top")) {
				for j := c.Int(1, 2, "comments"); j > 0; j-- {
					ind := 0
					if i == 0 || !inBlock[i-1] {
						ind = c.Even(10, "indent")
					}
					out = append(out, strings.Repeat(" ", ind)+text())
					if c.Chance(20, "blank") {
						out = append(out, "")
					}
				}
			}
			if !inBlock[i] && c.Chance(20, "end") {
				l += " " + text()
			}
			out = append(out, l)
		}
		if c.Chance(30, "last") {
			out = append(out, text())
		}
		src := strings.Join(out, "\n") + "\n"
		plain := c.EvalOpt(strings.Join(lines, "\n")+"\n", "inline", engine.Options{})
		c.Expect(plain, want, nil, true)
		o := c.EvalOpt(src, "inline", engine.Options{})
		c.Note("--- source ---\n%s--- output ---\n%s", src, o.Text)
		c.NonTrivialIf(n >= 2)
		c.Expect(o, want, nil, true)
	})
}
