package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"
	"time"

	fork "github.com/totegamma/yisp/internal/yaml"
	up "gopkg.in/yaml.v3"
)

// forkDocs reads a stream with the embedded library.
func forkDocs(r io.Reader) (ds []*fork.Node, err error) {
	dec := fork.NewDecoder(r)
	for {
		n := new(fork.Node)
		if err := dec.Decode(n); err == io.EOF {
			return ds, nil
		} else if err != nil {
			return ds, err
		}
		ds = append(ds, n)
	}
}

func upDocs(text string) ([]*up.Node, error) { return upRead(strings.NewReader(text)) }

func upRead(r io.Reader) (ds []*up.Node, err error) {
	defer func() {
		if r := recover(); r != nil { // upstream panics: nothing to compare with
			err = errUpPanic
		}
	}()
	dec := up.NewDecoder(r)
	for {
		n := new(up.Node)
		if err := dec.Decode(n); err == io.EOF {
			return ds, nil
		} else if err != nil {
			return ds, err
		}
		ds = append(ds, n)
	}
}

var errUpPanic = fmt.Errorf("upstream panics")

// differ describes the first difference between the two trees.
func differ(a *up.Node, b *fork.Node, path string) string {
	x := fmt.Sprintf("kind %d style %d tag %q value %q anchor %q comments %q %q %q at %d:%d with %d", a.Kind, a.Style, a.Tag, a.Value, a.Anchor, a.HeadComment, a.LineComment, a.FootComment, a.Line, a.Column, len(a.Content))
	y := fmt.Sprintf("kind %d style %d tag %q value %q anchor %q comments %q %q %q at %d:%d with %d", b.Kind, b.Style, b.Tag, b.Value, b.Anchor, b.HeadComment, b.LineComment, b.FootComment, b.Line, b.Column, len(b.Content))
	if x != y {
		return fmt.Sprintf("%s: upstream %s, embedded %s", path, x, y)
	}
	if (a.Alias == nil) != (b.Alias == nil) || a.Alias != nil && (a.Alias.Line != b.Alias.Line || a.Alias.Column != b.Alias.Column || a.Alias.Anchor != b.Alias.Anchor) {
		return path + ": the alias stands for another node"
	}
	for i := range a.Content {
		if s := differ(a.Content[i], b.Content[i], fmt.Sprintf("%s/%d", path, i)); s != "" {
			return s
		}
	}
	return ""
}

func differs(a []*up.Node, b []*fork.Node) string {
	for i := range a {
		if i >= len(b) {
			break
		}
		if s := differ(a[i], b[i], fmt.Sprintf("document %d", i)); s != "" {
			return s
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("upstream reads %d documents, embedded %d", len(a), len(b))
	}
	return ""
}

// toFork copies a tree of upstream's nodes.
func toFork(n *up.Node, seen map[*up.Node]*fork.Node) *fork.Node {
	if n == nil {
		return nil
	}
	if f, ok := seen[n]; ok {
		return f
	}
	f := &fork.Node{Kind: fork.Kind(n.Kind), Style: fork.Style(n.Style), Tag: n.Tag, Value: n.Value, Anchor: n.Anchor, HeadComment: n.HeadComment, LineComment: n.LineComment, FootComment: n.FootComment, Line: n.Line, Column: n.Column}
	seen[n] = f
	f.Alias = toFork(n.Alias, seen)
	for _, x := range n.Content {
		f.Content = append(f.Content, toFork(x, seen))
	}
	return f
}

// extended tells whether a text may use the extensions: a name after & or *
// that goes on with a dot or a question mark.
func extended(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != '&' && s[i] != '*' {
			continue
		}
		j := i + 1
		for j < len(s) && (s[j] == '_' || s[j] == '-' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			j++
		}
		if j < len(s) && (s[j] == '.' || s[j] == '?') {
			return true
		}
	}
	return false
}

// sameText describes how two errors or their absence differ.
func unknownAnchor(err error) bool {
	return err != nil && strings.Contains(err.Error(), "unknown anchor")
}

// data returns what a tree means to any reader: kinds, tags and values.
func meaning(n *up.Node, b *strings.Builder) {
	switch n.Kind {
	case up.AliasNode:
		fmt.Fprintf(b, "*%s ", n.Value)
		return
	case up.ScalarNode:
		fmt.Fprintf(b, "&%s %s %q ", n.Anchor, n.ShortTag(), n.Value)
		return
	}
	fmt.Fprintf(b, "&%s %s(", n.Anchor, n.ShortTag())
	for _, x := range n.Content {
		meaning(x, b)
	}
	b.WriteString(") ")
}

func meaningOf(ns ...*up.Node) string {
	var b strings.Builder
	for _, n := range ns {
		meaning(n, &b)
	}
	return b.String()
}

// folds tells whether a tree has a folded scalar (upstream adds blank lines to
// some of these, which a reader drops if they are at the end) or a block scalar
// with a leading blank (where upstream's indentation hint is often wrong), or a
// collection as a key with a comment behind it (which moves behind the value).
func folds(n *up.Node) bool {
	for i, x := range n.Content {
		if folds(x) || n.Kind == up.MappingNode && i%2 == 0 && len(x.Content) > 0 && x.LineComment != "" {
			return true
		}
	}
	return strings.Contains(n.Value, "\n") && (n.Style&up.FoldedStyle != 0 || strings.ContainsAny(n.Value[:1], " \t\n"))
}

// risky tells whether a tree has a block scalar that starts with a line break
// and a comment that is set off by a blank line, which joins such a scalar.
func risky(n *up.Node) bool {
	block, foot := false, false
	var walk func(n *up.Node)
	walk = func(n *up.Node) {
		block = block || n.Kind == up.ScalarNode && (strings.HasPrefix(n.Value, "\n") || strings.HasSuffix(n.Value, "\n\n"))
		foot = foot || n.FootComment != "" || n.Kind == up.DocumentNode && n.HeadComment != ""
		for _, x := range n.Content {
			walk(x)
		}
	}
	walk(n)
	return block && foot
}

// remarks lists the comments of a tree with their places.
func remarks(n *up.Node, path string, b *strings.Builder) {
	if n.HeadComment+n.LineComment+n.FootComment != "" {
		fmt.Fprintf(b, "%s %q %q %q\n", path, n.HeadComment, n.LineComment, n.FootComment)
	}
	for i, x := range n.Content {
		remarks(x, fmt.Sprintf("%s/%d", path, i), b)
	}
}

func remarksOf(n *up.Node) string {
	var b strings.Builder
	remarks(n, "", &b)
	return b.String()
}

func upEncode(n *up.Node, indent int) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = errUpPanic
		}
	}()
	var b bytes.Buffer
	e := up.NewEncoder(&b)
	e.SetIndent(indent)
	err = e.Encode(n)
	if err == nil {
		err = e.Close()
	}
	return b.String(), err
}

func forkEncode(n *fork.Node, indent int) (string, error) {
	var b bytes.Buffer
	e := fork.NewEncoder(&b)
	e.SetIndent(indent)
	err := e.Encode(n)
	if err == nil {
		err = e.Close()
	}
	return b.String(), err
}

// encodesAlike checks the encoding of a tree: the text of upstream wherever
// that reads back as the same tree.
func (c *C) encodesAlike(n *up.Node, indent int) {
	f := toFork(n, map[*up.Node]*fork.Node{})
	want, e1 := upEncode(n, indent)
	got, e2 := forkEncode(f, indent)
	if e1 == errUpPanic {
		c.Class("upstream panics")
		return
	}
	if e1 != nil && e2 == nil {
		c.Violate("upstream can not encode (%v), embedded gives\n%s", e1, got)
	}
	if e1 != nil {
		return
	}
	if want == got && e2 == nil {
		c.Class("same text")
		return
	}
	back, err := upDocs(want)
	if err == nil && len(back) == 1 && n.Kind == up.DocumentNode && !folds(n) && !risky(n) && meaningOf(back[0]) == meaningOf(n) && remarksOf(back[0]) == remarksOf(n) {
		c.Violate("upstream encodes\n%s\nwhich reads back as the same, embedded (%v)\n%s", want, e2, got)
	}
	if risky(n) {
		c.Class("blank lines join a scalar")
		return
	}
	c.Class("upstream's text does not read back")
	if e2 != nil {
		c.Violate("upstream encodes, embedded says %v", e2)
	}
	back2, err2 := upDocs(got)
	if err == nil && len(back) == 1 && meaningOf(back[0]) == meaningOf(n) && (err2 != nil || len(back2) != 1 || meaningOf(back2[0]) != meaningOf(n)) {
		c.Violate("upstream encodes\n%s\nwhich means the same, embedded\n%s\nwhich does not", want, got)
	}
}

func sameNative(a, b any) bool {
	x, y := fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b)
	return x == y || reflect.DeepEqual(a, b)
}

func TestC27(t *testing.T) {
	read := func(c *C, text string) {
		ud, ue := upDocs(text)
		if ue == errUpPanic {
			c.T.Skip("upstream panics")
		}
		fd, fe := forkDocs(strings.NewReader(text))
		switch {
		case unknownAnchor(ue):
			c.Class("unknown anchor")
			if len(fd) < len(ud) {
				c.Violate("the embedded parser reads %d documents, upstream %d (%v, %v)", len(fd), len(ud), fe, ue)
			}
			if s := differs(ud, fd[:len(ud)]); s != "" {
				c.Violate("%s", s)
			}
			return
		case ue == nil && fe != nil:
			c.Violate("upstream accepts, embedded says %v", fe)
		case ue != nil && fe == nil:
			c.Violate("upstream rejects (%v), embedded accepts", ue)
		}
		if s := differs(ud, fd); s != "" {
			c.Violate("%s", s)
		}
		if ue != nil {
			c.Class("rejected")
			if ue.Error() != fe.Error() {
				c.Violate("upstream says %q, embedded %q", ue, fe)
			}
			return
		}
		c.Class("accepted")
		c.NonTrivial()
		if c.Chance(20, "chunks") {
			// upstream itself reads some texts differently in pieces
			pieces := pick(c, "reader", iotest.OneByteReader, iotest.HalfReader, iotest.DataErrReader)
			fd2, fe2 := forkDocs(pieces(strings.NewReader(text)))
			ud2, ue2 := upRead(pieces(strings.NewReader(text)))
			if d := differs(ud2, fd2); ue2 != errUpPanic && (d != "" || (ue2 == nil) != (fe2 == nil)) {
				c.Violate("read in pieces: %s, upstream %v, embedded %v", d, ue2, fe2)
			}
		}
		if c.Bool("encode") {
			for _, d := range ud {
				c.encodesAlike(d, pick(c, "indent", 2, 4, 3))
			}
		} else { // as Go values
			for i, d := range ud {
				var a, b any
				var e1, e2 error
				func() {
					defer func() {
						if recover() != nil {
							e1 = errUpPanic
						}
					}()
					e1 = d.Decode(&a)
				}()
				if e1 == errUpPanic {
					continue
				}
				e2 = fd[i].Decode(&b)
				if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
					c.Violate("as a value: upstream %v, embedded %v", e1, e2)
				}
				if !sameNative(a, b) {
					c.Violate("as a value: upstream %#v, embedded %#v", a, b)
				}
			}
		}
	}
	sub(t, "texts", 1, "generated YAML streams over most of the syntax (all scalar styles, block and flow collections, compact and explicit forms, tags, anchors, comments and blank lines anywhere, directives, document markers, line endings), read by both libraries whole or in pieces: same documents with kinds, styles, tags, values, anchors, comments, positions; then encoded by both with 2..4 columns, or decoded to Go values by both; non-trivial: upstream accepts", func(c *C) {
		y := &ygen{c: c, quiet: c.Chance(30, "quiet"), plain: c.Chance(30, "plain")}
		text := y.text()
		c.Note("--- text ---\n%s\n%q", text, text)
		read(c, text)
	})
	sub(t, "damaged", 1, "the same streams, programs and token sequences with 1..8 random changes to their bytes: same documents or the same error; non-trivial: upstream accepts", func(c *C) {
		var text string
		if c.Bool("ytext") {
			text = (&ygen{c: c, quiet: c.Chance(50, "quiet")}).text()
		} else {
			text = baseText(c)
		}
		text = mutate(c, text)
		if extended(text) {
			c.T.Skip("uses the extensions")
		}
		c.Note("--- text ---\n%s\n%q", text, text)
		read(c, text)
	})
	sub(t, "extensions", 0.5, "streams with anchor and alias names that contain dots and question marks and with aliases that have no anchor: read as upstream reads the text with plain names after a document that defines them all, each alias standing for the latest anchor of its name or for none; non-trivial: such a name occurs or an alias without anchor", func(c *C) {
		y := &ygen{c: c, quiet: c.Chance(50, "quiet"), dotted: true, loose: true, more: 12}
		text := strings.TrimPrefix(y.text(), "\uFEFF")
		var b strings.Builder
		r := strings.NewReplacer(".", "Q", "?", "R")
		head := "[~"
		for i := 0; i < len(text); i++ {
			j := i + 1
			if text[i] == '&' || text[i] == '*' {
				for j < len(text) && (strings.IndexByte("_-.?", text[j]) >= 0 || text[j] >= '0' && text[j] <= '9' || text[j] >= 'a' && text[j] <= 'z' || text[j] >= 'A' && text[j] <= 'Z') {
					j++
				}
			}
			if j == i+1 || i > 0 && strings.IndexByte(" \n\r\t[{,-:?", text[i-1]) < 0 {
				b.WriteByte(text[i])
				continue
			}
			n := r.Replace(text[i+1 : j])
			b.WriteString(text[i:i+1] + n)
			head += ", &" + n + " x"
			i = j - 1
		}
		plain := head + "]\n...\n" + b.String()
		text = "[~" + strings.Repeat(", x", strings.Count(head, "&")) + "]\n...\n" + text
		c.Note("--- text ---\n%s\n--- plain ---\n%s", text, plain)
		ud, ue := upDocs(plain)
		fd, fe := forkDocs(strings.NewReader(text))
		if (ue == nil) != (fe == nil) {
			c.Violate("upstream on the plain text: %v, embedded %v", ue, fe)
		}
		if ue != nil || len(ud) < 2 || len(fd) < 2 {
			return
		}
		places := map[[2]int]*fork.Node{}
		var index func(n *fork.Node)
		index = func(n *fork.Node) {
			if n.Anchor != "" {
				places[[2]int{n.Line, n.Column}] = n
			}
			for _, x := range n.Content {
				index(x)
			}
		}
		var fit func(a *up.Node, b *fork.Node)
		fit = func(a *up.Node, b *fork.Node) { // give b the names and targets that a has, if they fit
			c.NonTrivialIf(strings.ContainsAny(b.Anchor, ".?") || a.Kind == up.AliasNode && (strings.ContainsAny(b.Value, ".?") || b.Alias == nil))
			if r.Replace(b.Anchor) == a.Anchor {
				b.Anchor = a.Anchor
			}
			if a.Kind == up.AliasNode && b.Kind == fork.AliasNode && a.Alias != nil {
				var want *fork.Node
				if a.Alias.Line > 1 {
					want = places[[2]int{a.Alias.Line, a.Alias.Column}]
				} else {
					c.Class("no anchor")
				}
				if b.Alias != want {
					c.Violate("the alias *%s at %d:%d stands for %v, not %v", b.Value, b.Line, b.Column, b.Alias, want)
				}
				if r.Replace(b.Value) == a.Value {
					b.Value = a.Value
				}
				b.Alias = nil
				a.Alias = nil
			}
			for i := range a.Content {
				if i < len(b.Content) {
					fit(a.Content[i], b.Content[i])
				}
			}
		}
		for _, d := range fd {
			index(d)
		}
		for i := range ud[1:] {
			if i+1 < len(fd) {
				fit(ud[i+1], fd[i+1])
			}
		}
		if s := differs(ud[1:], fd[1:]); s != "" {
			c.Violate("%s", s)
		}
	})
	sub(t, "trees", 0.5, "generated node trees (any kind, style, tag, value, anchor and comments, not read from a text) encoded by both with 2..4 columns: the same text wherever upstream's reads back as the same tree, else no worse; non-trivial: the tree has a collection", func(c *C) {
		var anch []*up.Node
		var gen func(d int) *up.Node
		gen = func(d int) *up.Node {
			n := &up.Node{Kind: up.ScalarNode}
			k := c.Even(10, "kind")
			switch {
			case k == 0 && len(anch) > 0:
				a := anch[c.Int(0, len(anch)-1, "target")]
				return &up.Node{Kind: up.AliasNode, Alias: a, Value: a.Anchor}
			case k < 6 || d <= 0:
				n.Value = pick(c, "value", genStr(c, "s"), genStr(c, "s"), ywords[c.Even(len(ywords), "word")], "", "a\nb\n", "\n", " x", "x ", "\n\nx", "a\n b\n", "a\n\nb", "x\n\n\n", "\tx", "# x", "a: b", "- a", strings.Repeat("word ", 30))
				n.Tag = pick(c, "tag", "", "", "", "!!str", "!!int", "!!null", "!!bool", "!!float", "!t", "!!binary", "!")
				n.Style = pick(c, "style", up.Style(0), 0, up.SingleQuotedStyle, up.DoubleQuotedStyle, up.LiteralStyle, up.FoldedStyle, up.TaggedStyle, up.TaggedStyle|up.DoubleQuotedStyle)
			default:
				n.Kind = pick(c, "coll", up.SequenceNode, up.MappingNode)
				n.Style = pick(c, "cstyle", up.Style(0), 0, 0, up.FlowStyle, up.TaggedStyle)
				n.Tag = pick(c, "ctag", "", "", "", "!t", "!!map", "!!seq")
				for i := c.Int(0, 3, "len"); i > 0; i-- {
					if n.Kind == up.MappingNode {
						key := &up.Node{Kind: up.ScalarNode, Value: fmt.Sprintf("k%d", i)}
						if c.Chance(12, "odd-key") {
							key = gen(d - 1)
						} else if c.Chance(2, "long-key") {
							key.Value += strings.Repeat("x", []int{124, 126, 127, 1000, 1021, 1023, 1100, 1300}[c.Even(8, "long-key-size")])
						}
						c.annotate(key)
						n.Content = append(n.Content, key)
					}
					n.Content = append(n.Content, gen(d-1))
				}
				c.NonTrivial()
			}
			if c.Chance(8, "anchor") {
				n.Anchor = fmt.Sprintf("a%d", len(anch))
				anch = append(anch, n)
			}
			c.annotate(n)
			return n
		}
		n := &up.Node{Kind: up.DocumentNode, Content: []*up.Node{gen(3)}}
		c.annotate(n)
		c.encodesAlike(n, pick(c, "indent", 2, 4, 3, 8))
	})
	sub(t, "values", 0.5, "Go values (nested maps, slices, strings of all sorts, numbers, times, byte strings, structs with tags) marshalled by both: the same text wherever upstream's reads back, and unmarshalled back by the embedded library to the same value; non-trivial: the value is a collection", func(c *C) {
		type S struct {
			A int            `yaml:"a,omitempty"`
			B []string       `yaml:"b,flow"`
			C map[string]any `yaml:"c"`
			D *S             `yaml:"d,omitempty"`
			E string         `yaml:"-"`
			F float64
		}
		var gen func(d int) any
		gen = func(d int) any {
			n := c.Even(12, "value")
			if d <= 0 && n > 7 {
				n -= 8
			}
			switch n {
			case 0, 1:
				return genStr(c, "s")
			case 2:
				return ints[c.Even(len(ints), "int")]
			case 3:
				return pick(c, "float", 0.0, 1.5, 1e300, -0.1, 1e21, 123456789.125, math.Inf(1), 1e-7)
			case 4:
				return pick[any](c, "other", true, false, nil, uint64(math.MaxUint64), int8(-3), float32(1.1), []byte("ab"))
			case 5:
				return ywords[c.Even(len(ywords), "word")]
			case 6:
				return pick[any](c, "time", time.Date(2001, 1, 2, 3, 4, 5, 6000, time.UTC), time.Duration(90)*time.Second, time.Date(2001, 1, 2, 0, 0, 0, 0, time.UTC))
			case 7:
				return pick(c, "text", "a\nb\n", "\na", "a\n\n", " a\nb", strings.Repeat("long words ", 20), "a\tb", "é\u2028x", "\ufeffx", "a\r\nb", "\x00", "a\n # b")
			case 8, 9:
				m := map[string]any{}
				for i := c.Int(0, 4, "len"); i > 0; i-- {
					m[simpleKey(c, "k")+pick(c, "num", "", "1", "10", "2", "A")] = gen(d - 1)
				}
				c.NonTrivial()
				return m
			case 10:
				l := []any{}
				for i := c.Int(0, 4, "len"); i > 0; i-- {
					l = append(l, gen(d-1))
				}
				c.NonTrivial()
				return l
			}
			s := S{A: c.Int(0, 3, "a"), E: "e", F: 1.5}
			for i := c.Int(0, 2, "b"); i > 0; i-- {
				s.B = append(s.B, genStr(c, "b"))
			}
			if c.Bool("d") {
				s.D = &S{A: 7}
			}
			if c.Bool("c") {
				s.C = map[string]any{"x": gen(d - 1)}
			}
			return s
		}
		v := gen(3)
		c.Note("%#v", v)
		want, e1 := up.Marshal(v)
		got, e2 := fork.Marshal(v)
		if (e1 == nil) != (e2 == nil) {
			c.Violate("upstream %v, embedded %v", e1, e2)
		}
		if e1 != nil {
			return
		}
		var a, b, o any
		ae := up.Unmarshal(want, &a)
		be := fork.Unmarshal(got, &b)
		oe := up.Unmarshal(got, &o)
		if be != nil || oe != nil || !sameNative(b, o) {
			c.Violate("embedded marshals\n%s\nread back by embedded %#v (%v), by upstream %#v (%v)", got, b, be, o, oe)
		}
		if ae == nil && sameNative(a, o) && string(want) != string(got) {
			c.Violate("upstream marshals\n%s\nembedded\n%s", want, got)
		}
	})
}

// annotate adds comments to a node.
func (c *C) annotate(n *up.Node) {
	text := func() string {
		return pick(c, "comment", "# c", "c", "# a\n# b", "# a\n\n# b", "#", "# é")
	}
	if c.Chance(6, "head") {
		n.HeadComment = text()
	}
	if c.Chance(6, "line") {
		n.LineComment = pick(c, "line-comment", "# l", "l", "# l # m")
	}
	if c.Chance(5, "foot") {
		n.FootComment = text()
	}
}
