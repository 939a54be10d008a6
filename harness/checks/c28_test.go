package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
)

// every operator and special form
var allOps = strings.Fields(`+ - * / == != < <= > >= ?? default && || ! not if lambda schema
 include progn pipeline schema import lambda if
 exec.cmd exec.go files.glob files.read k8s.patch
 lists.car lists.cdr lists.cons lists.contains lists.filter lists.flatten lists.map lists.reduce lists.length lists.at lists.as-toplevel lists.iota
 maps.from-entries maps.get maps.keys maps.merge maps.to-entries maps.values maps.make maps.patch
 strings.concat strings.contains strings.quote strings.format strings.join strings.replace strings.sha256 strings.split strings.toUpper strings.toLower strings.trim
 types.assert types.get types.of yaml.marshal yaml.unmarshal`)

// wild draws operands of every kind, well formed or not.
type wild struct {
	c     *C
	iota_ bool // huge counts are excluded
}

func (w *wild) str() *N {
	c := w.c
	return nStr(pick(c, "str", "", "a", "b", "name", "x.y", ".", "a.b.", "%s %d %v", "%", "{", "- 1\n- [", "a: 1", "*a", "&a 1", "!yisp [+, 1]", "no/such/file.yisp", "f.yaml", "~", "object", "array", "function", "v1", "Pod", "apiVersion", "op", "/a/0", "/", "/-", "*", "http://127.0.0.1:1/x.yisp", "-", "é日\U0001F600", "\x00", strings.Repeat("x", 300), "0", "1", "true", "null", "add", "replace", "test", "#/definitions/x"))
}

func (w *wild) num() *N {
	c := w.c
	if w.iota_ || c.Chance(60, "small") {
		return nInt(int64(c.Int(-3, 9, "int")))
	}
	switch c.Int(0, 2, "num") {
	case 0:
		return nInt(ints[c.Int(0, len(ints)-1, "edge")])
	case 1:
		return nFloat([]float64{0, -0.5, 1.5, 1e300, -1e300, 5e-324, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 63, -1 << 63}[c.Int(0, 10, "float")])
	default:
		return &N{K: NInt, Src: pick(c, "big", "9223372036854775808", "18446744073709551615", "-9223372036854775809", "99999999999999999999999", "0x7fffffffffffffff", "0o17", "0b11", "1_000")}
	}
}

// node draws an expression; d bounds the depth.
func (w *wild) node(d int) *N {
	c := w.c
	n := c.Even(22, "kind")
	if d <= 0 && n > 9 {
		n %= 10
	}
	switch n {
	case 0:
		return nNull()
	case 1:
		return nBool(c.Bool("b"))
	case 2, 3:
		return w.num()
	case 4, 5:
		return w.str()
	case 6:
		return nRef(pick(c, "ref", "v", "v", "v.a", "v.b", "l", "l", "fn", "ty", "u?", "v.a?", "v.x.y?", "v", "v.b.0", "v.", "l.0", "u", "mod.x"))
	case 7:
		l := pick(c, "empty", nList(), nQuote(nList()))
		l.Flow = true
		return l
	case 8:
		m := nMapOf()
		m.Flow = true
		return m
	case 9: // data of the shapes that operators want
		return pick(c, "shape",
			nQuote(nList(nInt(1), nStr("a"), nNull())),
			nQuote(nList(nMapOf("key", nStr("k"), "value", nInt(1)))),
			nQuote(nList(nQuote(nList(nStr("k"), nInt(1))))),
			nMapOf("type", nStr("object"), "properties", nMapOf("a", nMapOf("type", nStr("integer"), "default", nInt(1)))),
			nMapOf("type", nStr("array"), "items", nMapOf("$ref", nStr("#/definitions/none"))),
			nMapOf("cmd", nStr("true"), "args", nQuote(nList(nStr("x")))),
			nMapOf("pkg", nStr("x")),
			nMapOf("apiVersion", nStr("v1"), "kind", nStr("Pod"), "metadata", nMapOf("name", nStr("a"))),
			nQuote(nList(nMapOf("op", nStr("replace"), "path", nStr("/a"), "value", nInt(1)))),
			nMapOf("a", nInt(1), "b", nQuote(nList(nInt(1), nMapOf("c", nNull())))),
			nQuote(nList(nStr("name"), nStr("file.yisp"))))
	case 10, 11:
		l := nList()
		for i := c.Int(0, 3, "n"); i > 0; i-- {
			l.Items = append(l.Items, w.node(d-1))
		}
		l.Flow = len(l.Items) == 0
		if c.Chance(94, "quote") {
			l = nQuote(l)
		}
		return l
	case 12, 13:
		m := nMapOf()
		for i := c.Int(0, 3, "n"); i > 0; i-- {
			k := pick(c, "key", "a", "b", "type", "properties", "items", "op", "path", "value", "from", "key", "cmd", "args", "stdin", "asString", "pkg", "apiVersion", "kind", "metadata", "$schema", "default", "required", "oneOf", "additionalProperties", "minimum", "multipleOf", "minLength", "format", "arguments", "returns", "patchStrategy", "patchMergeKey", "", "$ref")
			if m.has(k) {
				continue
			}
			m.Ents = append(m.Ents, &Ent{Key: k, Val: w.node(d - 1)})
		}
		if c.Chance(8, "merge-key") {
			m.Ents = append(m.Ents, &Ent{Merge: true, Val: w.node(d - 1)})
		}
		m.Flow = len(m.Ents) == 0
		return m
	case 14: // a function
		ps := nList()
		for i := c.Int(0, 3, "params"); i > 0; i-- {
			p := nStr(fmt.Sprintf("p%d", i))
			if c.Chance(20, "ann") {
				p.Tag = pick(c, "tag", "!int", "!string", "!NoSuch", "!ty", "!any", "!function", "!fn", "!v", "!v.a")
			}
			if c.Chance(8, "odd-param") {
				p = w.node(0)
			}
			ps.Items = append(ps.Items, p)
		}
		ps.Flow = len(ps.Items) == 0
		return nCall("lambda", ps, pick(c, "body", nNull(), nRef("fn"), nCall("types.of", nRef("v")), w.node(d-1)))
	case 15:
		return nCall("schema", w.node(d-1))
	case 16:
		n := w.node(d - 1)
		n.Tag = pick(c, "tag", "!yisp", "!quote", "!ty", "!NoSuch", "!!str", "!!int", "!!float", "!!bool", "!!null", "!!map", "!!seq", "!!binary", "!!timestamp", "!!merge", "!!set", "!", "!int", "!string", "!lambda", "!fn", "!v", "!v.a", "!!python/none", "!quote", "!yisp")
		return n
	default:
		return w.call(d)
	}
}

// wildSigs tells what each operator takes: n number, s string, b bool, l list,
// m map, f function of one, g of two, t schema, d data, k list of strings, e
// list of pairs, x list of maps with key and value, r text, M list of
// manifests, P list of patches, D data for them, c count
var wildSigs = map[string]string{
	"+": "n n n", "-": "n n", "*": "n n", "/": "n n", "==": "d d", "!=": "d d", "<": "n n", "<=": "n n", ">": "n n", ">=": "n n", "??": "d d", "default": "d d", "&&": "b b", "||": "b b", "!": "b", "not": "b",
	"progn": "d d", "pipeline": "d f", "schema": "S", "lambda": "p d", "if": "b d d", "error": "s",
	"k8s.patch": "M M", "lists.car": "l", "lists.cdr": "l", "lists.cons": "d l", "lists.contains": "l d", "lists.filter": "l f", "lists.flatten": "l", "lists.map": "l f", "lists.reduce": "l g", "lists.length": "l", "lists.at": "l n", "lists.as-toplevel": "l", "lists.iota": "c",
	"maps.from-entries": "e", "maps.get": "m s", "maps.keys": "m", "maps.merge": "m m", "maps.to-entries": "m", "maps.values": "m", "maps.make": "s d", "maps.patch": "D P",
	"strings.concat": "s s", "strings.contains": "s s", "strings.format": "s d d", "strings.join": "k s", "strings.replace": "s s s", "strings.sha256": "s", "strings.split": "s s", "strings.toUpper": "s", "strings.toLower": "s", "strings.trim": "s s",
	"types.assert": "t d", "types.get": "d", "types.of": "d", "yaml.marshal": "d", "yaml.unmarshal": "r", "include": "F", "import": "I", "files.read": "F"}

// fit draws an operand of a kind.
func (w *wild) fit(k string, d int) *N {
	c := w.c
	list := func(kind string, lo int) *N {
		l := nList()
		for i := c.Int(lo, 3, "len"); i > 0; i-- {
			l.Items = append(l.Items, w.fit(kind, d-1))
		}
		l.Flow = len(l.Items) == 0
		return nQuote(l)
	}
	switch k {
	case "n":
		return w.num()
	case "s":
		return w.str()
	case "c":
		return nInt(int64(c.Int(-5, 30, "count")))
	case "b":
		return pick(c, "bool", nBool(true), nBool(false), nYisp(nCall("==", w.node(0), w.node(0))), nNull(), nStr(""))
	case "l":
		if d > 0 && c.Bool("call") {
			return nYisp(nCall(pick(c, "lop", "lists.cdr", "lists.flatten", "lists.filter", "lists.map"), w.fit("l", d-1), w.fit("f", 0)))
		}
		return list("d", 0)
	case "k":
		return list("s", 0)
	case "e":
		l := nList()
		for i := c.Int(0, 3, "len"); i > 0; i-- {
			l.Items = append(l.Items, nQuote(nList(w.str(), w.node(0))))
		}
		l.Flow = len(l.Items) == 0
		return nQuote(l)
	case "m":
		if d > 0 && c.Bool("call") {
			return nYisp(nCall("maps.merge", w.fit("m", d-1), w.fit("m", d-1)))
		}
		m := nMapOf()
		for i := c.Int(0, 3, "n"); i > 0; i-- {
			if k := pick(c, "key", "a", "b", "x", "", "name", "apiVersion", "kind"); !m.has(k) {
				m.Ents = append(m.Ents, &Ent{Key: k, Val: w.node(d - 1)})
			}
		}
		m.Flow = len(m.Ents) == 0
		return m
	case "f", "g", "p":
		ps := nList(nStr("p1"))
		if k == "g" {
			ps.Items = append(ps.Items, nStr("p2"))
		}
		for _, p := range ps.Items {
			if c.Chance(15, "ann") {
				p.Tag = pick(c, "tag", "!int", "!string", "!any", "!ty", "!ty", "!ty", "!fn", "!v")
			}
		}
		if k == "p" {
			return ps
		}
		return nCall("lambda", ps, pick(c, "body", nRef("p1"), nRef("p1.a?"), nCall("strings.concat", nRef("p1")), nCall("==", nRef("p1"), nNull()), nNull(), w.node(d-1)))
	case "S", "t":
		var sch *N
		if c.Bool("generated") {
			sch = flowEmpty(nOf(genSch(c, 2, schOpt{}).value()))
		} else {
			sch = nMapOf("type", nStr(pick(c, "type", "object", "array", "string", "integer", "float", "null", "any", "bool", "number", "function", "x")))
		}
		if k == "S" {
			return sch
		}
		return nCall("schema", sch)
	case "r":
		return nStr(pick(c, "text", "a: 1", "- 1\n- {b: [x]}", "1", "", "~", "a: 1\n---\nb: 2", "a: &x 1\nb: *x", "&x a: *x", "!yisp [+, 1]", "? [a]\n: 1", "<<: {a: 1}", "<<: 1", "a: !!binary xx", "2001-01-01", "a: |\n  x", "%YAML 1.2\n---\na", "\xef\xbb\xbfa", "!!set {a}", "!!omap [a: 1]", "1: 2", "[", "a: b: c", "&a [*a]", "---\n---\n"))
	case "M":
		l := nList()
		for i := c.Int(0, 3, "len"); i > 0; i-- {
			m := nMapOf("apiVersion", nStr("v1"), "kind", nStr("Pod"), "metadata", nMapOf("name", nStr(pick(c, "name", "a", "b"))))
			if c.Chance(20, "odd") {
				m.Ents[c.Int(0, 2, "which")].Val = w.node(d - 1)
			}
			m.Ents = append(m.Ents, &Ent{Key: pick(c, "field", "spec", "data", "$patch"), Val: w.node(d - 1)})
			l.Items = append(l.Items, m)
		}
		l.Flow = len(l.Items) == 0
		return nQuote(l)
	case "D": // something that paths lead into
		if d < 0 || c.Chance(15, "other") {
			return w.node(d - 1)
		}
		n := nList(w.fit("D", d-1), w.fit("D", d-1))
		if c.Chance(60, "map") {
			n = nMapOf("a", w.fit("D", d-1), "b", w.fit("D", d-1))
		}
		return nQuote(n)
	case "P":
		path := func(label string) *N {
			if c.Chance(15, label+"-odd") {
				return pick(c, label, nStr(""), nStr("a"), nStr("/~"), nStr("/~2"), nStr("//"), nStr("#/a"), nInt(0), nNull())
			}
			s := ""
			for i := c.Int(1, 4, label+"-steps"); i > 0; i-- {
				if c.Chance(12, label+"-rare") {
					s += "/" + pick(c, label, "2", "~1", "01", "99999999999999999999", "", "-2", "+1", "-0")
				} else {
					s += "/" + []string{"a", "b", "0", "1", "-1", "-", "*", "a"}[c.Even(8, label)]
				}
			}
			return nStr(s)
		}
		l := nList()
		for i := c.Int(0, 3, "len"); i > 0; i-- {
			m := nMapOf("op", nStr(pick(c, "op", "add", "remove", "replace", "move", "copy", "test", "x")), "path", path("path"))
			if c.Chance(70, "value") {
				m.Ents = append(m.Ents, &Ent{Key: "value", Val: w.node(d - 1)})
			}
			if c.Chance(70, "from") {
				m.Ents = append(m.Ents, &Ent{Key: "from", Val: path("from")})
			}
			l.Items = append(l.Items, m)
		}
		l.Flow = len(l.Items) == 0
		return nQuote(l)
	case "F":
		return nStr(pick(c, "file", "f.yaml", "g.json", "p.yisp", "none.yaml", "", "*.yaml", ".", "d", "[", "p.yisp/x"))
	case "I":
		return pick(c, "import", nList(nStr("mod"), nStr("p.yisp")), nList(nStr("mod")), nList(), nStr("p.yisp"), nList(nStr(""), nStr("p.yisp")), nList(nStr("mod"), nStr("none")))
	}
	return w.node(d - 1)
}

func (w *wild) call(d int) *N {
	c := w.c
	op := allOps[c.Even(len(allOps), "op")]
	if c.Chance(10, "patch") { // the operators with the most ways to go
		op = pick(c, "patch-op", "maps.patch", "maps.patch", "k8s.patch")
	}
	args := []*N{}
	sig, known := wildSigs[op]
	if known && c.Chance(82, "fitting") {
		for _, k := range strings.Fields(sig) {
			if c.Chance(8, "misfit") {
				args = append(args, w.node(d-1))
			} else {
				args = append(args, w.fit(k, d))
			}
		}
		if c.Chance(6, "surplus") {
			args = append(args, w.node(d-1))
		}
		if c.Chance(6, "missing") && len(args) > 0 {
			args = args[:len(args)-1]
		}
	} else {
		for i := c.Int(0, 4, "nargs"); i > 0; i-- {
			args = append(args, w.node(d-1))
		}
	}
	if op == "lists.iota" { // small counts, whatever is computed elsewhere
		for i, a := range args {
			if a.K != NInt && a.K != NStr && a.K != NNull && a.K != NBool || len(a.Src) > 2 {
				args[i] = nInt(int64(c.Int(-5, 30, "count")))
			}
		}
	}
	n := nCall(op, args...)
	if c.Chance(10, "odd-head") {
		n.Items[0] = w.node(d - 1)
		if n.Items[0].S == "lists.iota" {
			n.Items[0] = nNull()
		}
	}
	return n
}

func (n *N) has(k string) bool {
	for _, e := range n.Ents {
		if !e.Merge && e.Key == k {
			return true
		}
	}
	return false
}

var wildOpts = []engine.Options{
	{AllowUntypedManifest: true}, {}, {RenderSpecialObjects: true, AllowUntypedManifest: true}, {RenderSources: true, AllowUntypedManifest: true}, {DisableTypeCheck: true}, {ShowTrace: false, RenderSources: true, RenderSpecialObjects: true, DisableTypeCheck: true, AllowUntypedManifest: true},
}

func (c *C) options() engine.Options { return wildOpts[c.Int(0, len(wildOpts)-1, "options")] }

// soundly checks that an outcome is a result or a readable error.
func (c *C) soundly(o Out) {
	if o.Err != nil {
		c.Class("error")
		if s := errText(o.Err); s == "" || strings.HasPrefix(s, "(panic") {
			c.Violate("the error can not be shown: %q", s)
		}
		return
	}
	c.Class("result")
}

// wildTokens matter to the parsers.
var wildTokens = []string{"!yisp", "!quote", "!!str", "!!int", "!!binary", "!!null", "!!merge", "!", "!<x>", "*a", "*a.b", "*a?", "*", "&a", "&a ", "&", "<<: ", "<<", "? ", ": ", ":", "- ", "-", "[", "]", "{", "}", ",", "\n", "\n\n", " ", "  ", "\t", "\r", "\r\n", "'", "\"", "|", ">", "|-", ">+", "|2", "#", " # x", "---", "\n---\n", "...", "%YAML 1.2\n", "%TAG ! x\n", "~", "null", "true", "0", "-1", "1e999", ".nan", ".inf", "0x", "\x00", "\xff", "\xfe\xff", "\xff\xfe", "\xef\xbb\xbf", "\u0085", "\u2028", "\U0001F600", "\\", "\\x", "\\u12", "@", "`", "%", "==", "+", "if", "schema", "include", "import", "progn", "pipeline", "maps.patch", "maps.merge", "k8s.patch", "types.assert", "yaml.unmarshal", "lists.map", "apiVersion: v1\nkind: Pod\n", "2001-01-01", "9223372036854775808", "/", "."}

// mutate changes a text at random places.
func mutate(c *C, s string) string {
	b := []byte(s)
	for i := c.Int(1, 8, "mutations"); i > 0; i-- {
		if len(b) == 0 {
			b = []byte(wildTokens[c.Even(len(wildTokens), "token")])
			continue
		}
		at := c.Int(0, len(b)-1, "at")
		switch c.Int(0, 9, "mutation") {
		case 0, 1, 2, 3:
			t := wildTokens[c.Even(len(wildTokens), "token")]
			b = append(b[:at:at], append([]byte(t), b[at:]...)...)
		case 4:
			e := min(len(b), at+c.Int(1, 12, "len"))
			b = append(b[:at:at], b[e:]...)
		case 5:
			e := min(len(b), at+c.Int(1, 40, "len"))
			to := c.Int(0, len(b)-1, "to")
			b = append(b[:to:to], append(append([]byte{}, b[at:e]...), b[to:]...)...)
		case 6:
			b[at] ^= 1 << c.Int(0, 7, "bit")
		case 7:
			b[at] = pick(c, "byte", byte(' '), '\n', ':', '-', '[', ']', '{', '}', '"', '\'', '#', '&', '*', '!', '|', '>', ',', '?', '\t', 0, 255, '%', '@')
		case 8:
			b = b[:at]
		default: // indentation
			if j := strings.IndexByte(string(b[at:]), '\n'); j >= 0 {
				k := at + j + 1
				if c.Bool("indent") {
					b = append(b[:k:k], append([]byte(pick(c, "in", " ", "  ", "\t")), b[k:]...)...)
				} else if k < len(b) && b[k] == ' ' {
					b = append(b[:k:k], b[k+1:]...)
				}
			}
		}
	}
	return string(b)
}

// mayLoop tells whether a program could have got a function that calls itself,
// or reach files of the machine.
func mayLoop(s string) bool {
	return strings.Contains(s, "lambda") && strings.Contains(s, "&") && strings.Contains(s, "*") || strings.Contains(s, "iota") || strings.Contains(s, "exec") || strings.Contains(s, "glob") ||
		strings.Contains(s, "cmd") || strings.Contains(s, "include") && strings.Contains(s, "**")
}

// baseText draws a text to start from.
func baseText(c *C) string {
	switch c.Int(0, 5, "base") {
	case 0, 1:
		g := newGen(c)
		g.left = 30
		return printDocs(g.program(3, 3), c.Seed("layout"), c.Chance(30, "noise"))
	case 2, 3:
		w := &wild{c: c, iota_: true}
		var ds []*N
		for i := c.Int(1, 3, "docs"); i > 0; i-- {
			ds = append(ds, nYisp(w.call(3)))
		}
		return printDocs(ds, c.Seed("layout"), c.Chance(30, "noise"))
	case 4:
		n := nOf(strKeyed(c, 2))
		return printDocs([]*N{n, nOf(genVal(c, 3, "v"))}, c.Seed("layout"), true)
	default:
		s := ""
		for i := c.Int(1, 25, "tokens"); i > 0; i-- {
			s += wildTokens[c.Even(len(wildTokens), "token")]
		}
		return s
	}
}

func TestC28(t *testing.T) {
	pre := []*N{nYisp(nCall("progn", nMapOf("a", nInt(1), "b", nQuote(nList(nInt(1), nMapOf("c", nStr("x"))))).anchored("v"), nQuote(nList(nInt(3), nStr("y"))).anchored("l"), nCall("schema", nMapOf("type", nStr("object"), "properties", nMapOf("a", nMapOf("type", nStr("integer"))))).anchored("ty"), nCall("lambda", nList(nStr("q")), nRef("q")).anchored("fn"), nNull()))}
	sub(t, "operators", 1, "programs of 1..3 calls of any operator or special form with 0..4 operands of every kind (all scalars and their extremes, lists, maps, functions, types, schemas, references, tags that do not fit, results of other calls), evaluated with all option sets and through all entry points, results rendered; nothing panics and errors can be shown; non-trivial: always", func(c *C) {
		c.NonTrivial()
		w := &wild{c: c, iota_: c.Bool("small-ints")}
		docs := append([]*N{}, pre...)
		for i := c.Int(1, 3, "calls"); i > 0; i-- {
			x := w.call(c.Int(1, 3, "depth"))
			switch c.Int(0, 4, "place") {
			case 0, 1:
				docs = append(docs, nYisp(x))
			case 2:
				docs = append(docs, nMapOf("r", nYisp(x)))
			case 3:
				docs = append(docs, w.node(2))
			default:
				docs = append(docs, nMapOf("r", nYisp(nCall("strings.concat", nCall("types.of", x)))))
			}
		}
		src := printDocs(docs, c.Seed("layout"), false)
		c.Note("--- program ---\n%s", src)
		dir := c.Dir()
		loc := filepath.Join(dir, "main.yisp")
		c.Write(dir, map[string]string{"f.yaml": "a: 1\n---\n- 2\n", "g.json": "{\"a\": [1, null]}", "p.yisp": "&x 1\n---\na: *x\n", "d/index.yisp": "b: 1\n"})
		switch c.Int(0, 5, "entry") {
		case 0:
			c.soundly(c.EvalBytes(src, map[string]any{"u": 1}, c.options()))
		case 1:
			if err := os.WriteFile(loc, []byte(src), 0o644); err != nil {
				c.Harness("%v", err)
			}
			c.soundly(c.EvalFileAny(loc, c.options()))
		default:
			c.soundly(c.EvalOpt(src, loc, c.options()))
		}
	})
	sub(t, "bytes", 1, "programs and data (generated, or made of tokens) with 1..8 random changes to their bytes, read as a program, as an included or imported program, as included YAML or JSON, by yaml.unmarshal, as a cached schema, or as host variable; nothing panics and errors can be shown; non-trivial: the text gets past the parser", func(c *C) {
		text := baseText(c)
		if c.Chance(95, "mutate") {
			text = mutate(c, text)
		}
		if mayLoop(text) {
			c.T.Skip("may not end")
		}
		dir := c.Dir()
		loc := filepath.Join(dir, "main.yisp")
		c.Note("--- text ---\n%q", text)
		write := func(f string) {
			p := filepath.Join(dir, f)
			if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
				c.Harness("%v", err)
			}
			if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
				c.Harness("%v", err)
			}
		}
		var o Out
		switch c.Int(0, 9, "as") {
		case 0, 1, 2, 3:
			o = c.EvalOpt(text, loc, c.options())
		case 4:
			write("main.yisp")
			o = c.EvalFileAny(loc, c.options())
		case 5:
			f := pick(c, "data", "x.yaml", "x.json", "x.yml", "x.txt")
			write(f)
			o = c.EvalOpt("r: !yisp [include, ./"+f+"]\n---\n!yisp [include, ./"+f+"]\n", loc, c.options())
		case 6:
			f := pick(c, "prog", "x.yisp", "d/index.yisp")
			write(f)
			o = c.EvalOpt(pick(c, "how", "!yisp [import, [m, "+f+"]]\n---\nx: *m.a?\n", "!yisp [include, "+f+"]\n", "r: !yisp [files.read, "+f+"]\n"), loc, c.options())
		case 7:
			o = c.EvalOpt("r: !yisp [yaml.unmarshal, *text]\n", loc, c.options())
			o = c.EvalBytes("r: !yisp [yaml.unmarshal, *text]\ns: !yisp [yaml.marshal, *text]\nt: *text\n", map[string]any{"text": text}, c.options())
		case 8:
			old := core.CacheDir
			core.CacheDir = dir
			defer func() { core.CacheDir = old }()
			write("schemas/X.json")
			if err := os.MkdirAll(filepath.Join(dir, "gvk"), 0o755); err != nil {
				c.Harness("%v", err)
			}
			if err := os.WriteFile(filepath.Join(dir, "gvk", "_v1_Pod.txt"), []byte("X"), 0o644); err != nil {
				c.Harness("%v", err)
			}
			o = c.EvalOpt("apiVersion: v1\nkind: Pod\nspec: {a: 1, b: [1, {c: x}]}\n---\n!yisp [k8s.patch, !quote [{apiVersion: v1, kind: Pod, spec: [1]}], !quote [{apiVersion: v1, kind: Pod, spec: [2]}]]\n", loc, c.options())
		default:
			dst := filepath.Join(dir, "main.yaml")
			write("main.yaml")
			o = c.EvalFile(dst, c.options())
		}
		c.NonTrivialIf(o.Err == nil || !strings.HasPrefix(errText(o.Err), "yaml: "))
		c.soundly(o)
	})
	sub(t, "schemas", 0.4, "cached and written schemas with ill-typed, missing and contradictory keywords (generated schemas whose keywords are replaced), used for checks, casts with defaults, merges, patches and typed functions; nothing panics; non-trivial: the schema is read", func(c *C) {
		s := genSch(c, 3, schOpt{}).value()
		w := &wild{c: c, iota_: true}
		var damage func(v *V) *V
		damage = func(v *V) *V {
			if v.K == VMap {
				m := newOMap()
				for _, k := range v.M.keys {
					x := damage(v.M.m[k])
					if c.Chance(12, "replace") {
						x = pick(c, "with", vNull(), vInt(1), vInt(-1), vInt(0), vStr("x"), vStr("object"), vBool(true), vList(), vList(vNull()), vMapOf(), vMapOf("a", vNull()), vMapOf("type", vInt(1)), vFloat(1.5), vStr("#/definitions/X"))
					}
					m.Set(k, x)
				}
				if c.Chance(10, "add") {
					k := pick(c, "kw", "default", "items", "oneOf", "properties", "required", "additionalProperties", "multipleOf", "minimum", "$ref", "arguments", "returns", "patchStrategy", "patchMergeKey", "type", "format", "maxLength")
					m.Set(k, pick(c, "kwv", vNull(), vInt(0), vStr("merge"), vStr("array"), vList(vNull()), vMapOf("a", vNull()), vList(vMapOf()), vBool(false)))
				}
				return vMap(m)
			}
			if v.K == VList {
				l := vList()
				for _, x := range v.L {
					l.L = append(l.L, damage(x))
				}
				return l
			}
			return v
		}
		s = damage(s)
		dir := c.Dir()
		text := s.jsonText()
		c.Note("--- schema ---\n%s", text)
		if strings.Contains(text, "$ref") && strings.Contains(text, "#/definitions/X") {
			c.Class("refers to itself")
			if c.Bool("skip") {
				c.T.Skip("may not end")
			}
		}
		old := core.CacheDir
		core.CacheDir = dir
		defer func() { core.CacheDir = old }()
		c.Write(dir, map[string]string{"schemas/X.json": text, "gvk/_v1_Pod.txt": "X"})
		val := func() *N { return flowEmpty(w.data(3)) }
		var docs []*N
		schema := func() *N {
			if c.Bool("by-ref") && !strings.Contains(text, "$ref") {
				return nMapOf("$ref", nStr("#/definitions/X"))
			}
			return flowEmpty(nOf(s))
		}
		for i := c.Int(1, 3, "uses"); i > 0; i-- {
			switch c.Int(0, 5, "use") {
			case 0:
				docs = append(docs, nMapOf("r", nYisp(nCall("types.assert", nCall("schema", nQuote(nList(schema())).Items[0]), val()))))
			case 1:
				v := val()
				v.Tag = "!T"
				docs = append(docs, nYisp(nCall("schema", schema())).anchored("T"), nMapOf("r", v))
			case 2:
				docs = append(docs, nMapOf("apiVersion", nStr("v1"), "kind", nStr("Pod"), "spec", val()))
			case 3:
				a, b := val(), val()
				a.Tag, b.Tag = "!T", pick(c, "tag", "!T", "", "!quote")
				docs = append(docs, nYisp(nCall("schema", schema())).anchored("T"), nMapOf("r", nYisp(nCall("maps.merge", nRef("x1"), nRef("x2")))))
				docs = append(docs[:len(docs)-1], a.anchored("x1"), b.anchored("x2"), docs[len(docs)-1])
			case 4:
				p := nStr("p")
				p.Tag = "!T"
				docs = append(docs, nYisp(nCall("schema", schema())).anchored("T"), nMapOf("r", nYisp(nList(nCall("lambda", nList(p), nRef("p")), val()))))
			default:
				docs = append(docs, nYisp(nCall("k8s.patch", nQuote(nList(nMapOf("apiVersion", nStr("v1"), "kind", nStr("Pod"), "spec", val()))), nQuote(nList(nMapOf("apiVersion", nStr("v1"), "kind", nStr("Pod"), "spec", val()))))))
			}
		}
		src := printDocs(docs, c.Seed("layout"), false)
		c.Note("--- program ---\n%s", src)
		o := c.EvalOpt(src, filepath.Join(dir, "main.yisp"), c.options())
		c.NonTrivialIf(o.Err == nil || !strings.Contains(errText(o.Err), "unmarshal"))
		c.soundly(o)
	})
	sub(t, "host", 0.15, "host variables of every Go type (structs, pointers, functions, channels, typed and nil maps and slices, byte strings, numbers of all sizes, times, invalid UTF-8) used in generated expressions; nothing panics; non-trivial: always", func(c *C) {
		c.NonTrivial()
		type st struct {
			A int
			b string
		}
		x := 5
		var np *int
		var nm map[string]any
		var ns []any
		vals := []any{nil, x, &x, np, nm, ns, st{1, "x"}, &st{}, []st{{}}, func() {}, make(chan int), []byte("ab"), []string{"a"}, []int{1}, map[string]string{"a": "b"}, map[int]any{1: "a"}, map[any]any{"a": 1, 2: 3}, map[string]int{"a": 1}, int8(1), int16(-1), int32(7), uint(3), uint8(1), uint64(math.MaxUint64), float32(1.5), math.NaN(), math.Inf(-1), complex(1, 2), time.Unix(0, 0), time.Second, json.Number("12"), json.Number("x"), json.RawMessage("{}"), "\xff\xfe", "", "*a", '\x00', [2]int{1, 2}, struct{}{}, error(os.ErrNotExist), []any{1, nil, []any{map[string]any{}}}, map[string]any{"": nil, "a.b": []any{}}, map[string]any{"x": func() {}}}
		vars := map[string]any{}
		for i := c.Int(1, 3, "vars"); i > 0; i-- {
			vars[pick(c, "name", "v", "l", "u", "", "a.b", "fn", "x?")] = vals[c.Even(len(vals), "value")]
		}
		w := &wild{c: c, iota_: true}
		src := printDocs([]*N{nMapOf("v", nRef("v?"), "l", nRef("l?")), nYisp(w.call(2)), w.node(2)}, c.Seed("layout"), false)
		c.Note("vars: %#v\n--- program ---\n%s", fmt.Sprintf("%T", vars), src)
		for k, v := range vars {
			c.Note("%q = %T", k, v)
		}
		c.soundly(c.EvalBytes(src, vars, c.options()))
	})
	sub(t, "deep", 0.01, "texts nested up to 3000 levels deep in every style, with tags, in programs, data files and strings to unmarshal, long scalars, names, paths and argument lists; nothing panics or overflows; non-trivial: always", func(c *C) {
		c.NonTrivial()
		n := c.Int(10, 3000, "depth")
		if c.Chance(10, "very-deep") {
			n = c.Int(9990, 12000, "depth2")
		}
		rep := strings.Repeat
		what := pick(c, "shape", "flow-list", "flow-map", "block-list", "yisp", "quote", "concat", "path", "args", "string", "docs", "explicit", "keys", "error-deep", "comments", "if", "ref-chain")
		s := ""
		switch what {
		case "flow-list":
			s = rep("[", n) + rep("]", n)
		case "flow-map":
			s = rep("{a: ", n) + "1" + rep("}", n)
		case "block-list":
			s = rep("- ", n) + "1\n"
		case "yisp":
			s = "r: !yisp " + rep("[+, 1, ", n) + "2" + rep("]", n)
		case "quote":
			s = "r: " + rep("!quote [", n) + "2" + rep("]", n)
		case "concat":
			s = "r: !yisp " + rep("[strings.concat, a, ", n) + "b" + rep("]", n)
		case "path":
			s = "&a\nb: 1\n---\nr: *a" + rep(".b", n) + "?\n"
		case "args":
			s = "r: !yisp [+" + rep(", 1", n*10) + "]"
		case "string":
			s = "r: " + rep("x", n*100)
		case "docs":
			s = rep("a: 1\n---\n", n)
		case "explicit":
			s = rep("? ", min(n, 3000)) + "1\n"
		case "keys":
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "k%d: &v%d [%d]\n", i, i, i)
			}
			s = b.String()
		case "error-deep":
			m := min(n, 1500)
			s = "r: !yisp " + rep("[+, 1, ", m) + "[no.such, 1]" + rep("]", m)
		case "comments":
			s = rep("# c\n", n) + "a: 1 " + rep("# d", n) + "\n" + rep("# e\n", n)
		case "if":
			s = "r: !yisp " + rep("[if, true, ", n) + "2" + rep(", 3]", n)
		case "ref-chain":
			var b strings.Builder
			b.WriteString("&v0 1\n")
			for i := 1; i < min(n, 2000); i++ {
				fmt.Fprintf(&b, "---\n&v%d [*v%d]\n", i, i-1)
			}
			s = b.String()
			if n > 300 { // each is listed in full
				s = b.String()[:strings.Index(b.String(), "v300 ")]
				s = s[:strings.LastIndex(s, "---")]
			}
		}
		if c.Chance(20, "cut") {
			s = s[:len(s)*2/3]
		}
		c.Note("%s, %d levels: %.200q", what, n, s)
		c.Class(what)
		dir := c.Dir()
		loc := filepath.Join(dir, "main.yisp")
		switch c.Int(0, 3, "as") {
		case 0, 1:
			c.soundly(c.EvalOpt(s, loc, c.options()))
		case 2:
			f := filepath.Join(dir, pick(c, "ext", "x.yaml", "x.json"))
			if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
				c.Harness("%v", err)
			}
			c.soundly(c.EvalFile(f, c.options()))
		default:
			c.soundly(c.EvalBytes("r: !yisp [yaml.unmarshal, *text]\n", map[string]any{"text": s}, c.options()))
		}
	})
	sub(t, "processes", 0.01, "the same kinds of texts given to yisp build - and yisp krm as processes: they end with exit code 0 or 1; non-trivial: always", func(c *C) {
		c.NonTrivial()
		text := mutate(c, baseText(c))
		if mayLoop(text) {
			c.T.Skip("may not end")
		}
		cmd := pick(c, "cmd", []string{"build", "-"}, []string{"build", "-o", "json", "-"}, []string{"krm"}, []string{"krm"})
		if cmd[0] == "krm" {
			if c.Bool("script") {
				text = printDocs([]*N{nMapOf("items", nQuote(nList(nMapOf("a", nInt(1)))), "functionConfig", nMapOf("spec", nMapOf("yisp", nStr(strings.ToValidUTF8(strings.ReplaceAll(text, "\x00", ""), "?")))))}, 0, false)
			} else {
				text = mutate(c, "apiVersion: config.kubernetes.io/v1\nkind: ResourceList\nitems:\n- apiVersion: v1\n  kind: Pod\n  metadata: {name: a}\nfunctionConfig:\n  spec:\n    yisp: |\n      *items\n")
			}
		}
		c.Note("$ yisp %v <\n%s", cmd, text)
		_, stderr, code := runBin(c, c.Dir(), text, nil, cmd...)
		if code != 0 && code != 1 || strings.Contains(stderr, "\ngoroutine ") {
			c.Violate("exit %d: %s", code, stderr)
		}
	})
}

// data draws plain data with mixed shapes.
func (w *wild) data(d int) *N {
	c := w.c
	switch n := c.Int(0, 5, "data"); {
	case d > 0 && n < 2:
		m := nMapOf()
		for i := c.Int(0, 3, "n"); i > 0; i-- {
			if k := simpleKey(c, "dk"); !m.has(k) {
				m.Ents = append(m.Ents, &Ent{Key: k, Val: w.data(d - 1)})
			}
		}
		return m
	case d > 0 && n == 2:
		l := nList()
		for i := c.Int(0, 3, "n"); i > 0; i-- {
			l.Items = append(l.Items, w.data(d-1))
		}
		return nQuote(l)
	case n == 3:
		return w.num()
	case n == 4:
		return nNull()
	}
	return nStr(pick(c, "ds", "a", "", "x"))
}
