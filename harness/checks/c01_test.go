package checks

import (
	"strings"
	"testing"
)

// plainStream draws a stream of documents without any yisp construct.
func plainStream(c *C, depth int) ([]*N, []*V) {
	n := 1
	if c.Chance(45, "more-docs") {
		n = c.Int(0, 5, "ndocs")
	}
	var docs []*N
	var want []*V
	for i := 0; i < n; i++ {
		v := genVal(c, depth, "v")
		d := nOf(v)
		respell(c, d)
		if d.K == NNull && d.Src == "" {
			d.Src = "~"
		}
		docs = append(docs, d)
		if v.K != VNull {
			want = append(want, v)
		}
	}
	return docs, want
}

// longSpecial: sizes at which representations change
func TestC01(t *testing.T) {
	sub(t, "passthrough", 1, "streams of random documents (all scalar types and spellings, lookalike strings, nested lists/maps, random layout); non-trivial: at least one document with two or more nodes or a string that would read as something else unquoted", func(c *C) {
		docs, want := plainStream(c, 4)
		src := printDocs(docs, c.Seed("layout"), c.Chance(30, "noise"))
		if c.Chance(6, "crlf") && !strings.Contains(src, "|") && !strings.Contains(src, ">") {
			src = strings.ReplaceAll(src, "\n", "\r\n")
		}
		if in, err := readYAML(src); err != nil || diffDocs(dropNull(in), want, true) != "" {
			if err == nil {
				c.Harness("printed text does not denote the value: %s\n%s", diffDocs(dropNull(in), want, true), src)
			}
			c.Harness("printed text is not YAML: %v\n%s", err, src)
		}
		size := 0
		for _, v := range want {
			size += v.size()
			c.Class("kind-" + v.K.String())
		}
		c.NonTrivialIf(size >= 2 || strings.ContainsAny(src, "'\"|>"))
		c.ClassIf(len(want) > 1, "multi-doc")
		c.Expect(c.Eval(src), want, nil, true)
	})
	sub(t, "keys", 0.3, "maps whose keys are scalars of any spelling (numbers, booleans, null, lookalikes); keys must keep text and type", func(c *C) {
		n := c.Int(1, 8, "n")
		var sb strings.Builder
		seen := map[string]bool{}
		type kk struct{ text, tag string }
		ind := pick(c, "ind", "", "outer:\n  ", "- ")
		pad := strings.Repeat(" ", len(ind))
		if strings.HasPrefix(ind, "outer") {
			pad = "  "
		}
		sb.WriteString(ind)
		for i := 0; i < n; i++ {
			k := genStr(c, "key")
			if c.Bool("scalar-key") {
				k = pick(c, "k", "1", "0x10", "1.5", "true", "null", "~", "yes", "no", "on", "2024-01-01", "007", "1e3", ".inf", "-1", "False", "1_000", "<", "=", "a b", "a.b/c")
			}
			if len(k) > 100 || k == "<<" {
				continue
			}
			var text string
			switch c.Int(0, 2, "style") {
			case 0:
				text = k
				docs, err := readNodes(text + ": 1\n")
				if err != nil || len(docs) != 1 || len(docs[0].Content) != 2 || docs[0].Content[0].Value != k || docs[0].Content[0].Kind != 8 || strings.ContainsAny(k, "!&*\n") || docs[0].Content[0].Tag == "!!merge" {
					text = double(k)
				}
			case 1:
				if !okSingle(k) {
					text = double(k)
				} else {
					text = single(k)
				}
			default:
				text = double(k)
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			if sb.Len() > len(ind) {
				sb.WriteString(pad)
			}
			if strings.ContainsAny(text[:1], "\"'") && c.Chance(10, "explicit") {
				sb.WriteString("? " + text + "\n" + pad)
				sb.WriteString(": v\n")
			} else {
				sb.WriteString(text + ": v\n")
			}
		}
		if len(seen) == 0 {
			sb.WriteString("k: v\n")
		}
		src := sb.String()
		in, err := readNodes(src)
		if err != nil {
			c.Harness("not YAML: %v\n%s", err, src)
		}
		c.NonTrivialIf(len(seen) > 0)
		o := c.Eval(src)
		if o.Err != nil {
			c.Violate("error: %s", errText(o.Err))
		}
		out, err := readNodes(o.Text)
		if err != nil {
			c.Violate("output is not YAML: %v\n%s", err, o.Text)
		}
		if d := nodeDiff(in, out); d != "" {
			c.Violate("%s\n--- output ---\n%s", d, o.Text)
		}
	})
}

func dropNull(vs []*V) []*V {
	var r []*V
	for _, v := range vs {
		if v.K != VNull {
			r = append(r, v)
		}
	}
	return r
}
