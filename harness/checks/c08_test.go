package checks

import (
	"strconv"
	"strings"
	"testing"
)

// genPart draws a string that occurs in s, or nearly does.
func genPart(c *C, s string) string {
	rs := []rune(s)
	if len(rs) > 0 && c.Chance(75, "part") {
		i := c.Int(0, len(rs)-1, "from")
		j := c.Int(i, min(len(rs), i+4), "to")
		return string(rs[i:j])
	}
	return genStr(c, "other")
}

// repetitive strings make counts, overlaps and separators matter
func genRep(c *C, label string) string {
	if c.Chance(50, label+"-rep") {
		n := c.Int(0, 8, label+"-n")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(pick(c, label+"-p", "a", "b", "aa", ",", " ", "ab", "é", ".", "\n", "日"))
		}
		return sb.String()
	}
	return genStr(c, label)
}

func TestC08(t *testing.T) {
	sub(t, "ops", 1, "one string operator over random strings (empty, Unicode, YAML lookalikes, repetitive, multi-line), needles taken from the string, sometimes wrong types or counts, against Go's strings package; non-trivial: a non-empty string", func(c *C) {
		op := pick(c, "op", "strings.concat", "strings.contains", "strings.split", "strings.replace", "strings.replace", "strings.toUpper", "strings.toLower", "strings.trim", "strings.sha256", "strings.join")
		s := genRep(c, "s")
		var args []*V
		switch op {
		case "strings.concat":
			n := genLen(c, "n")
			for i := 0; i < n; i++ {
				args = append(args, vStr(genStr(c, "part")))
			}
		case "strings.contains", "strings.split":
			args = []*V{vStr(s), vStr(genPart(c, s))}
		case "strings.replace":
			args = []*V{vStr(s), vStr(genPart(c, s)), vStr(genStr(c, "new"))}
			if c.Bool("counted") {
				args = append(args, vInt(int64(c.Int(-2, 6, "count"))))
			}
		case "strings.trim":
			args = []*V{vStr(pick(c, "pre", "", " ", "\n", "\t ", "\u00a0", "\u2028", "\u200b") + s + pick(c, "post", "", " ", "\n", " \t", "\u3000", "\r\n"))}
		case "strings.join":
			l := &V{K: VList}
			n := genLen(c, "n")
			for i := 0; i < n; i++ {
				l.L = append(l.L, vStr(genStr(c, "item")))
			}
			if n > 0 && c.Chance(6, "bad-item") {
				l.L[c.Int(0, n-1, "bad")] = genVal(c, 1, "bad-v")
			}
			args = []*V{l, vStr(genStr(c, "sep"))}
		default:
			args = []*V{vStr(s)}
		}
		args = wrongly(c, 7, args)
		for _, a := range args {
			c.NonTrivialIf(a.K == VStr && a.S != "")
		}
		runOp(c, op, args)
	})
	sub(t, "format", 0.4, "strings.format with random verbs (%v %d %s %q %x %05d %-8s %.2f %t %% and plain text) and arguments of any type, missing and surplus ones included, against fmt.Sprintf; non-trivial: at least one verb", func(c *C) {
		var f strings.Builder
		var args []*V
		n := c.Int(0, 5, "n")
		for i := 0; i < n; i++ {
			f.WriteString(pick(c, "lit", "", " ", "x", "é", ": ", "%%", "\n"))
			switch c.Int(0, 6, "verb") {
			case 0:
				f.WriteString("%v")
				args = append(args, genVal(c, 2, "v"))
			case 1:
				f.WriteString(pick(c, "dverb", "%d", "%05d", "%-4d", "%+d", "%x", "%X", "%o", "%b", "%3d", "%v"))
				args = append(args, vInt(genInt(c, "i")))
			case 2, 3:
				f.WriteString(pick(c, "sverb", "%s", "%-8s", "%8s", "%.3s", "%q", "%x", "%v"))
				args = append(args, vStr(genStr(c, "s")))
			case 4:
				f.WriteString(pick(c, "fverb", "%f", "%.2f", "%8.3f", "%g", "%e", "%v"))
				args = append(args, vFloat(genFloat(c, "f")))
			case 5:
				f.WriteString(pick(c, "tverb", "%t", "%v", "%s", "%d"))
				args = append(args, pick(c, "tv", vBool(true), vBool(false), vNull()))
			default:
				f.WriteString(pick(c, "any", "%d", "%s", "%t", "%v", "%!", "%z", "%[1]v", "%*d"))
				args = append(args, genVal(c, 1, "any-v"))
			}
		}
		if c.Chance(8, "surplus") {
			args = append(args, vInt(1))
		}
		c.NonTrivialIf(n > 0)
		runOp(c, "strings.format", append([]*V{vStr(f.String())}, args...))
	})
	sub(t, "quote", 0.4, "strings.quote of any scalar: its result between double quotes must be a YAML literal for the text (read by the upstream parser and by yisp); lists and maps must be rejected; non-trivial: the text needs escaping", func(c *C) {
		v := genScalar(c, "v")
		if c.Chance(60, "string") {
			v = vStr(genStr(c, "s"))
		}
		if c.Chance(4, "wrong") {
			v = genVal(c, 1, "wrong-v")
		}
		o := c.Eval(printDocs([]*N{nList(nYisp(nCall("strings.quote", nLit(v))))}, c.Seed("layout"), false))
		if v.K == VList || v.K == VMap {
			c.Expect(o, nil, errPatch, true)
			return
		}
		if o.Err != nil {
			c.Violate("error: %s", errText(o.Err))
		}
		got := c.Docs(o)
		if len(got) != 1 || got[0].K != VList || len(got[0].L) != 1 || got[0].L[0].K != VStr {
			c.Violate("not one string: %v", got)
		}
		lit := "\"" + got[0].L[0].S + "\""
		c.NonTrivialIf(len(lit) > len(v.S)+2)
		var want string
		switch v.K {
		case VStr:
			want = v.S
		case VNull:
			want = "null"
		case VBool:
			want = strconv.FormatBool(v.B)
		case VInt:
			want = strconv.FormatInt(v.I, 10)
		case VFloat:
			f, err := strconv.ParseFloat(got[0].L[0].S, 64)
			if err != nil || f != v.F {
				c.Violate("quote of the float %v is %s", v, lit)
			}
			return
		}
		docs, err := readYAML("k: " + lit + "\n")
		if err != nil || len(docs) != 1 || !same(docs[0], vMapOf("k", vStr(want))) {
			c.Violate("%s does not read back as %q: %v %v", lit, want, docs, err)
		}
		o2 := c.Eval("k: " + lit + "\n")
		c.Expect(o2, []*V{vMapOf("k", vStr(want))}, nil, true)
	})
	sub(t, "roundtrip", 0.4, "split followed by join with the same non-empty separator gives the string back; join of separator-free pieces followed by split gives the pieces back; replace-all agrees with split and join; non-trivial: the separator occurs", func(c *C) {
		s := genRep(c, "s")
		sep := genPart(c, s)
		if sep == "" {
			sep = ","
		}
		c.NonTrivialIf(strings.Contains(s, sep))
		docs := []*N{
			nYisp(nCall("progn", nStr(s).anchored("s"), nStr(sep).anchored("sep"), nNull())),
			nYisp(nMapOf(
				"id", nCall("strings.join", nCall("strings.split", nRef("s"), nRef("sep")), nRef("sep")),
				"rep", nCall("==", nCall("strings.replace", nRef("s"), nRef("sep"), nStr("<>")), nCall("strings.join", nCall("strings.split", nRef("s"), nRef("sep")), nStr("<>"))),
				"len", nCall("==", nCall("strings.contains", nRef("s"), nRef("sep")), nCall(">", nCall("lists.length", nCall("strings.split", nRef("s"), nRef("sep"))), nInt(1))),
			)),
		}
		o := c.Eval(printDocs(docs, c.Seed("layout"), false))
		c.Expect(o, []*V{vMapOf("id", vStr(s), "rep", vBool(true), "len", vBool(true))}, nil, true)
	})
}
