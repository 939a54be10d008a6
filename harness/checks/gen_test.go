package checks

// Generators of data: rich in the values that YAML, Go or yisp treat specially.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

var lookalikes = []string{
	"true", "false", "null", "~", "yes", "no", "on", "off", "y", "n", "True", "NULL", "Null", "TRUE",
	"0", "1", "-1", "+1", "007", "0644", "0o17", "0x1F", "1_000", "0b101", "1e3", "1.0", "-.5", ".5", "5.", "1.5e-7",
	".inf", "-.inf", ".nan", ".NaN", "NaN", "Infinity", "12:30:45", "1:30", "2024-01-01", "2001-12-14t21:59:43.10-05:00",
	"<<", "=", "-", "- a", "a: b", "a:", ": a", ":", "#c", "a #b", "a#b", "*x", "*x.y", "&y", "!t", "!yisp", "!!str", "%d", "%TAG", "@a", "`a`",
	"{}", "[]", "{a: 1}", "[1, 2]", ",", "?", "? a", "|", ">", "|-", "---", "...", "--- a", "'", "''", "\"", "\"\"", "\\", "\\n", "a'b", "a\"b",
	" lead", "trail ", " ", "  ", "\t", "a\tb", "\n", "a\n", "\na", "a\nb", "a\n\nb", "a\n\n", "a\n b", "a\n  b\n c\n", " a\nb", "a \nb", "a\r\nb", "\r",
	"if", "lambda", "import", "include", "+", "==", "lists.map", "quote", "$schema", "apiVersion", "kind",
	"é", "日本語", "😀", "e\u0301", "ÀÉ", "ß", "İ", "ﬁ", "\u00a0", "\u2028", "\u2029", "\u0085", "\ufeff", "\u200b", "\u0000", "\u0007", "\u001b", "\u007f", "\u0080", "\ud7ff", "\ue000", "\uffff", "\U0010ffff",
	"a.b", "a/b", "a~b", "~1", "~0", "a?b", "x?", "*", "a*", "0.", "1e", "e1", "_", "__", "a-b", "-a", "--", "1a", "a1", "1 2", "key: value # c",
	"%s", "100%", "%!", "$1", "${x}", "$$", "`", "^", "(lambda)", "(type)", "λx",
}

var words = []string{"a", "b", "c", "x", "y", "foo", "bar", "baz", "name", "value", "Hello", "world", "app", "nginx"}

func genStr(c *C, label string) string {
	switch c.Int(0, 11, label+"-class") {
	case 0, 1, 2, 3:
		return words[c.Int(0, len(words)-1, label)]
	case 4:
		return ""
	case 5, 6, 7:
		return lookalikes[c.Int(0, len(lookalikes)-1, label)]
	case 8:
		return rapid.StringOfN(rapid.RuneFrom(nil, letterRanges...), 0, 12, -1).Draw(c.T, label)
	case 9:
		n := c.Int(1, 6, label+"-lines")
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, rapid.StringMatching(`[ ]{0,2}[a-z:#'"-]{0,4}( [a-z]{1,3}){0,3}[ ]{0,1}`).Draw(c.T, label))
		}
		return strings.Join(ls, "\n") + strings.Repeat("\n", c.Int(0, 2, label+"-nl"))
	case 10:
		a := lookalikes[c.Int(0, len(lookalikes)-1, label)]
		b := lookalikes[c.Int(0, len(lookalikes)-1, label+"2")]
		return a + pick(c, label+"sep", "", " ", ", ", "\n", ": ") + b
	default:
		// long strings
		w := words[c.Int(0, len(words)-1, label)]
		sep := pick(c, label+"sep", " ", "", "\n")
		return strings.TrimSuffix(strings.Repeat(w+sep, c.Int(10, 120, label+"-rep")), sep)
	}
}

var ints = []int64{0, 1, -1, 2, 3, 7, 8, 10, 63, 64, 100, 255, 256, -128, 1000, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32,
	1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1e15, 123456789012345678}

func genInt(c *C, label string) int64 {
	switch c.Int(0, 5, label+"-class") {
	case 0, 1, 2:
		return int64(c.Int(-9, 20, label))
	case 3, 4:
		return ints[c.Int(0, len(ints)-1, label)]
	default:
		return rapid.Int64().Draw(c.T, label)
	}
}

var floats = []float64{0, 0.5, -0.5, 1, 1.5, 2.25, -3, 0.1, 0.2, 1e21, 1e22, 1e300, -1e300, 5e-324, 1.7976931348623157e308, 1e-7, 123456.789, 1234567.0, 3.141592653589793,
	9007199254740992, 9007199254740993, 9223372036854775807, 9223372036854775808, -9223372036854775808, 1e6, 1e20, 0.000001, 100, math.Inf(1), math.Inf(-1)}

func genFloat(c *C, label string) float64 {
	switch c.Int(0, 3, label+"-class") {
	case 0, 1:
		return floats[c.Int(0, len(floats)-1, label)]
	case 2:
		return float64(c.Int(-1000, 1000, label)) / 8
	default:
		f := rapid.Float64().Draw(c.T, label)
		if math.IsNaN(f) {
			return 0
		}
		return f
	}
}

var keyPool = []string{"a", "b", "c", "d", "name", "x", "k1"}

func genKey(c *C, label string) string {
	if c.Chance(70, label+"-pool") {
		return keyPool[c.Int(0, len(keyPool)-1, label)]
	}
	if c.Chance(25, label+"-odd") { // a name with an unusual first character, or one that means something elsewhere
		return oddKeys[c.Even(len(oddKeys), label)]
	}
	k := genStr(c, label)
	if c.Chance(2, label+"-long") { // around the limit up to which keys are written as simple keys
		k = pick(c, label+"-base", "long key ", "k", "é", "a: b ")
		return strings.TrimSpace(strings.Repeat(k, []int{1, 127, 128, 129, 150}[c.Even(5, label+"-size")]/len(k)+1))
	}
	if len(k) > 60 {
		k = k[:10]
		k = strings.ToValidUTF8(k, "")
	}
	return k
}

var oddKeys = []string{"$x", "$ref", "$id", "_a", "__proto__", ".a", "@x", "-x", "%x", "~x", "?x", "!x", "&x", "*x", "=", "+", "name", "type", "items", "data", "metadata", "namespace", "value", "spec", "op", "path", "x/y", "x.y", "$", "_", ".", "0", "1.5", "true", "if", "lambda", "quote", "import"}

// simpleKey is usable as a step of a variable path.
func simpleKey(c *C, label string) string { return keyPool[c.Int(0, len(keyPool)-1, label)] }

type genOpt struct {
	depth  int
	width  int
	nan    bool
	floats bool
	scalar bool
}

func genScalar(c *C, label string) *V {
	switch c.Int(0, 9, label+"-kind") {
	case 0:
		return vNull()
	case 1:
		return vBool(c.Bool(label))
	case 2, 3:
		return vInt(genInt(c, label))
	case 4:
		return vFloat(genFloat(c, label))
	default:
		return vStr(genStr(c, label))
	}
}

// rarely is true in one of about thirty cases; used for sizes far above the usual ones.
func (c *C) rarely(what string) bool { return c.Chance(3, what) }

// atMost draws a number up to n, rarely one up to many.
func (c *C) atMost(lo, n, many int, label string) int {
	if c.rarely(label + "-many") {
		return c.Int(n, many, label)
	}
	return c.Int(lo, n, label)
}

// buried puts v below many levels of lists and maps.
func buried(c *C, v *V, label string) *V {
	for i := c.Int(4, 25, label+"-levels"); i > 0; i-- {
		if c.Bool(label + "-in-list") {
			v = vList(v)
			if c.Chance(30, label+"-beside") {
				v.L = append(v.L, genScalar(c, label))
			}
		} else {
			m := newOMap()
			if c.Chance(30, label+"-beside") {
				m.Set(genKey(c, label+"-key"), genScalar(c, label))
			}
			m.Set(genKey(c, label+"-key"), v)
			v = vMap(m)
		}
	}
	return v
}

func genVal(c *C, depth int, label string) *V {
	if depth >= 3 && c.rarely(label+"-buried") {
		return buried(c, genVal(c, 1, label), label)
	}
	if depth <= 0 {
		return genScalar(c, label)
	}
	switch c.Int(0, 9, label+"-shape") {
	case 0, 1, 2, 3:
		return genScalar(c, label)
	case 4, 5, 6:
		return genListV(c, depth, label)
	default:
		return genMapV(c, depth, label)
	}
}

func genLen(c *C, label string) int {
	switch c.Int(0, 19, label+"-len") {
	case 0, 1, 2:
		return 0
	case 3, 4, 5, 6:
		return 1
	case 7, 8, 9, 10, 11:
		return 2
	case 12, 13, 14, 15:
		return 3
	case 16, 17:
		return c.Int(4, 7, label+"-len2")
	case 18:
		return c.Int(8, 12, label+"-len3")
	default:
		return c.Int(13, 40, label+"-len4")
	}
}

func genListV(c *C, depth int, label string) *V {
	n := genLen(c, label)
	v := &V{K: VList}
	if n > 12 { // long lists hold scalars
		for i := 0; i < n; i++ {
			v.L = append(v.L, vInt(int64(c.Int(0, 30, label))))
		}
		return v
	}
	for i := 0; i < n; i++ {
		v.L = append(v.L, genVal(c, depth-1, label))
	}
	return v
}

func genMapV(c *C, depth int, label string) *V {
	n := genLen(c, label)
	m := newOMap()
	for i := 0; i < n; i++ {
		k := genKey(c, label+"-key")
		if n > 12 {
			k = fmt.Sprintf("%s%d", k, i)
			m.Set(k, vInt(int64(i)))
			continue
		}
		m.Set(k, genVal(c, depth-1, label))
	}
	return vMap(m)
}

// respell gives numbers, booleans and nulls of a tree other spellings of the same value.
func respell(c *C, n *N) {
	n.walk(func(n *N) {
		if !c.Chance(25, "respell") {
			return
		}
		switch n.K {
		case NNull:
			n.Src = pick(c, "null-src", "null", "~", "Null", "NULL", "")
		case NBool:
			if n.V.B {
				n.Src = pick(c, "true-src", "true", "True", "TRUE")
			} else {
				n.Src = pick(c, "false-src", "false", "False", "FALSE")
			}
		case NInt:
			i := n.V.I
			neg := i < 0
			u := strconv.FormatUint(uint64(i), 10)
			if neg {
				u = strconv.FormatUint(uint64(-i), 10)
			}
			mag := uint64(i)
			sign := ""
			if neg {
				mag = uint64(-i)
				sign = "-"
			}
			switch c.Int(0, 5, "int-src") {
			case 0:
				n.Src = fmt.Sprintf("%s0x%x", sign, mag)
			case 1:
				n.Src = fmt.Sprintf("%s0o%o", sign, mag)
			case 2:
				if len(u) > 3 {
					n.Src = sign + u[:len(u)-3] + "_" + u[len(u)-3:]
				}
			case 3:
				if !neg {
					n.Src = "+" + u
				}
			case 4:
				if mag > 0 && mag < 1<<40 {
					n.Src = fmt.Sprintf("%s0%o", sign, mag)
				}
			case 5:
				n.Src = fmt.Sprintf("%s0b%b", sign, mag)
			}
			if docs, err := readYAML(n.Src); err != nil || len(docs) != 1 || !same(docs[0], n.V) {
				n.Src = strconv.FormatInt(i, 10) // not a spelling of it
			}
		case NFloat:
			f := n.V.F
			src := n.Src
			switch c.Int(0, 3, "float-src") {
			case 0:
				src = strconv.FormatFloat(f, 'e', -1, 64)
			case 1:
				src = strconv.FormatFloat(f, 'f', -1, 64)
				if !strings.Contains(src, ".") {
					src += ".0"
				}
			case 2:
				src = strings.Replace(n.Src, "e", "E", 1)
			case 3:
				src = pick(c, "inf", "+", "") + strings.TrimPrefix(n.Src, "0")
			}
			if math.IsInf(f, 0) {
				src = pick(c, "inf-src", ".inf", ".Inf", ".INF")
				if f < 0 {
					src = "-" + src
				}
			}
			if docs, err := readYAML(src); err == nil && len(docs) == 1 && same(docs[0], n.V) {
				n.Src = src
			}
		}
	})
}

var letterRanges = []*unicode.RangeTable{unicode.Latin, unicode.Greek, unicode.Han, unicode.Digit, unicode.Punct, unicode.Space}
