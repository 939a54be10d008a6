package checks

import (
	"errors"
	"io"
	"math"
	"strings"
	"testing"
	"time"

	"gopkg.in/yaml.v3"
)

// upstreamDocs decodes text with the upstream library. odd reports data the property
// leaves out (timestamps, keys that are not strings, NaN, binary, big integers).
func upstreamDocs(text string) (docs []*V, odd bool, err error) {
	d := yaml.NewDecoder(strings.NewReader(text))
	for {
		var x any
		e := d.Decode(&x)
		if errors.Is(e, io.EOF) {
			return docs, odd, nil
		}
		if e != nil {
			return nil, odd, e
		}
		v, o := fromNative(x)
		odd = odd || o
		docs = append(docs, v)
	}
}

func fromNative(x any) (*V, bool) {
	switch t := x.(type) {
	case nil:
		return vNull(), false
	case bool:
		return vBool(t), false
	case int:
		return vInt(int64(t)), false
	case int64:
		return vInt(t), false
	case uint64:
		return vNull(), true
	case float64:
		return vFloat(t), math.IsNaN(t)
	case string:
		return vStr(t), false
	case time.Time:
		return vNull(), true
	case []any:
		l := &V{K: VList}
		odd := false
		for _, y := range t {
			v, o := fromNative(y)
			odd = odd || o
			l.L = append(l.L, v)
		}
		return l, odd
	case map[string]any:
		m := newOMap()
		odd := false
		for k, y := range t {
			v, o := fromNative(y)
			odd = odd || o
			m.Set(k, v)
		}
		return sortKeys(vMap(m)), odd
	}
	return vNull(), true
}

// plainText draws YAML text of plain data, with anchors, aliases and merge keys now and then.
func plainText(c *C) (string, []*V) {
	docs, _ := plainStream(c, 3)
	var want []*V
	for _, d := range docs {
		v, err := dataOf(d)
		if err != nil {
			c.Harness("%v", err)
		}
		want = append(want, v)
	}
	for _, d := range docs {
		quoteTimestamps(d)
	}
	return printDocs(docs, c.Seed("text-layout"), c.Chance(30, "text-noise")), want
}

// quoteTimestamps gives strings that would read as timestamps an explicit quote.
func quoteTimestamps(n *N) {
	if n.K == NStr && isTimestamp(n.S) {
		n.Q = 'd'
	}
	for _, i := range n.Items {
		quoteTimestamps(i)
	}
	for i := range n.Ents {
		if isTimestamp(n.Ents[i].Key) {
			n.Ents[i].Q = 'd'
		}
		quoteTimestamps(n.Ents[i].Val)
	}
}

func isTimestamp(s string) bool {
	n := yaml.Node{Kind: yaml.ScalarNode, Value: s}
	return n.ShortTag() == "!!timestamp"
}

func dataOf(n *N) (*V, error) {
	switch n.K {
	case NList:
		l := &V{K: VList}
		for _, i := range n.Items {
			v, err := dataOf(i)
			if err != nil {
				return nil, err
			}
			l.L = append(l.L, v)
		}
		return l, nil
	case NMap:
		m := newOMap()
		for _, e := range n.Ents {
			v, err := dataOf(e.Val)
			if err != nil {
				return nil, err
			}
			m.Set(e.Key, v)
		}
		return vMap(m), nil
	}
	return n.V, nil
}

// damage changes a few bytes of a text.
func damage(c *C, s string) string {
	b := []byte(s)
	n := c.Int(1, 3, "damages")
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			b = append(b, pick(c, "ins0", "[", "{", "a", ":", "-", "'")...)
			continue
		}
		p := c.Int(0, len(b)-1, "at")
		switch c.Int(0, 3, "how") {
		case 0:
			b = append(b[:p:p], b[p+1:]...)
		case 1:
			ins := pick(c, "ins", "[", "]", "{", "}", ":", ": ", "- ", "'", "\"", "\n", "  ", "\t", "&a ", "*a", "*zz ", "!", "!!int ", "!x ", "#", " #", "|", ">", "%", "@", "`", "\\", "<<: ", "? ", ",", "---\n", "...\n", "\x00", "\x80", "\ufeff", "0", "~")
			b = append(b[:p:p], append([]byte(ins), b[p:]...)...)
		case 2:
			b[p] = pick(c, "byte", byte(' '), '\n', ':', '-', '[', ']', '{', '}', '\'', '"', 'x', '0', ',', '#', '&', '*', '!', '|', '>')
		case 3:
			q := min(len(b), p+c.Int(1, 12, "chunk"))
			if c.Bool("dup") {
				b = append(b[:q:q], b[p:]...)
			} else {
				b = append(b[:p:p], b[q:]...)
			}
		}
	}
	return string(b)
}

func TestC13(t *testing.T) {
	sub(t, "marshal", 1, "yaml.marshal of a random value (all scalars, lookalike strings, multi-line strings, deep nesting; written with random spellings, styles and comments, or computed) must give text that the upstream parser reads back as that value, and yaml.unmarshal of it a one-element list with it; non-trivial: more than one node", func(c *C) {
		v := genVal(c, 4, "v")
		n := nLit(v)
		respell(c, n)
		n.Anchor = "v"
		docs := []*N{nYisp(nCall("progn", n, nNull())),
			nYisp(nMapOf("text", nCall("yaml.marshal", nRef("v")))),
			nYisp(nMapOf("back", nCall("yaml.unmarshal", nCall("yaml.marshal", nRef("v"))))),
			nYisp(nMapOf("again", nRef("v")))}
		if c.Bool("nested") { // marshal text that is itself marshalled
			docs = append(docs, nYisp(nMapOf("nested", nCall("yaml.unmarshal", nCall("lists.car", nCall("yaml.unmarshal", nCall("yaml.marshal", nCall("yaml.marshal", nRef("v")))))))))
		}
		src := printDocs(docs, c.Seed("layout"), c.Chance(30, "noise"))
		c.NonTrivialIf(v.size() > 1)
		o := c.Eval(src)
		if o.Err != nil {
			c.Violate("error: %s", errText(o.Err))
		}
		got := c.Docs(o)
		if len(got) != len(docs)-1 {
			c.Violate("expected %d documents, got %s", len(docs)-1, o.Text)
		}
		text, ok := got[0].M.Get("text")
		if !ok || text.K != VStr {
			c.Violate("no text: %s", o.Text)
		}
		read, err := readYAML(text.S)
		if err != nil {
			c.Violate("marshalled text is not YAML: %v\n%s", err, text.S)
		}
		if len(read) != 1 {
			c.Violate("marshalled text has %d documents\n%s", len(read), text.S)
		}
		if d := diff(v, read[0], "", true); d != "" {
			c.Violate("marshalled text reads back differently: %s\n%s", d, text.S)
		}
		if d := diff(vMapOf("back", vList(v)), got[1], "", false); d != "" {
			c.Violate("unmarshal of marshal: %s", d)
		}
		if d := diff(vMapOf("again", v), got[2], "", true); d != "" {
			c.Violate("the value changed: %s", d)
		}
		if len(got) > 3 {
			if d := diff(vMapOf("nested", vList(v)), got[3], "", false); d != "" {
				c.Violate("nested: %s", d)
			}
		}
	})
	sub(t, "unmarshal", 0.7, "yaml.unmarshal of the text of a random stream of documents (random layout, styles, comments, null documents) must give the list of its documents; non-trivial: two or more nodes", func(c *C) {
		text, want := plainText(c)
		n := 0
		for _, w := range want {
			n += w.size()
		}
		c.NonTrivialIf(n > 1)
		c.ClassIf(len(want) != 1, "many")
		o := c.Eval(printDocs([]*N{nYisp(nMapOf("r", nCall("yaml.unmarshal", nStr(text))))}, c.Seed("layout"), false))
		c.Expect(o, []*V{vMapOf("r", &V{K: VList, L: want})}, nil, false)
	})
	sub(t, "stream", 0.2, "marshal of a list of top-level documents gives a stream of exactly these documents; non-trivial: two or more documents", func(c *C) {
		n := c.Int(1, 4, "n")
		call := &N{K: NList, Items: []*N{nStr("lists.as-toplevel")}}
		var want []*V
		for i := 0; i < n; i++ {
			v := genMapV(c, 2, "doc")
			want = append(want, v)
			call.Items = append(call.Items, nLit(v))
		}
		c.NonTrivialIf(n > 1)
		o := c.Eval(printDocs([]*N{nYisp(nMapOf("r", nCall("yaml.marshal", call)))}, c.Seed("layout"), false))
		if o.Err != nil {
			c.Violate("error: %s", errText(o.Err))
		}
		got := c.Docs(o)
		txt, _ := got[0].M.Get("r")
		read, err := readYAML(txt.S)
		if err != nil || diffDocs(want, read, true) != "" {
			c.Violate("stream differs: %v %s\n%s", err, diffDocs(want, read, true), txt.S)
		}
	})
	sub(t, "damaged", 0.8, "yaml.unmarshal of damaged YAML text (bytes deleted, inserted, duplicated) agrees with the upstream decoder: both reject, or both give the same documents; non-trivial: the text is not empty", func(c *C) {
		text, _ := plainText(c)
		text = damage(c, text)
		c.NonTrivialIf(strings.TrimSpace(text) != "")
		want, odd, err := upstreamDocs(text)
		o := c.Eval("!yisp\nr:\n  - yaml.unmarshal\n  - " + double(strings.ToValidUTF8(text, "\uFFFD")) + "\n")
		if strings.ToValidUTF8(text, "\uFFFD") != text {
			want, odd, err = upstreamDocs(strings.ToValidUTF8(text, "\uFFFD"))
		}
		if odd {
			c.Class("left-out")
			return
		}
		if err != nil {
			c.Class("rejected")
			if o.Err == nil && !strings.ContainsAny(text, "*&") {
				c.Violate("upstream rejects the text (%v), got %s", err, o.Text)
			}
			return
		}
		c.Class("accepted")
		if strings.Contains(text, "*") || strings.Contains(text, "&") {
			if o.Err != nil {
				return
			}
		}
		c.Expect(o, []*V{vMapOf("r", &V{K: VList, L: want})}, nil, false)
	})
}
