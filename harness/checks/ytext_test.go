package checks

import (
	"fmt"
	"strings"
)

// ygen writes YAML text that uses most of the syntax, nearly always valid.
type ygen struct {
	c       *C
	anchors []string // defined so far
	plain   bool     // no anchors, aliases, tags
	dotted  bool     // anchor names with dots and question marks
	loose   bool     // aliases without anchors
	quiet   bool     // no comments
	n       int
	more    int // aliases
}

func (y *ygen) sp(n int) string { return strings.Repeat(" ", max(0, n)) }

func (y *ygen) comment() string {
	y.n++
	return pick(y.c, "comment", fmt.Sprintf("# c%d", y.n), fmt.Sprintf("#c%d", y.n), fmt.Sprintf("# c%d # d", y.n), fmt.Sprintf("# c%d: [x", y.n), "#", fmt.Sprintf("## é%d", y.n))
}

func (y *ygen) eol() string {
	if !y.quiet && y.c.Chance(12, "line-comment") {
		return " " + y.comment() + "\n"
	}
	if y.c.Chance(4, "trailing") {
		return pick(y.c, "ws", " ", "  ", "\t") + "\n"
	}
	return "\n"
}

// between draws lines that may stand before an entry at an indentation.
func (y *ygen) between(ind int) string {
	if y.quiet || !y.c.Chance(18, "head") {
		return ""
	}
	s := ""
	for i := y.c.Int(1, 3, "lines"); i > 0; i-- {
		switch y.c.Even(4, "line") {
		case 0:
			s += "\n"
		case 1:
			s += y.sp(ind) + y.comment() + "\n"
		case 2:
			s += y.sp(ind) + y.comment() + "\n"
		default:
			s += y.sp(y.c.Int(0, ind+3, "cind")) + y.comment() + "\n"
		}
	}
	return s
}

var ywords = []string{"a", "b", "foo", "x y", "a:b", "a#b", "1", "-1", "0x1f", "0o17", "017", "1.5", "1e3", ".inf", "-.INF", ".nan", "true", "True", "yes", "on", "null", "~", "Null", "2001-01-01", "2001-01-01T10:00:00Z", "12:30:45", "-", "-a", "?a", ":a", "a-", "é", "日本", "\U0001F600", "a'b", "a\"b", "a,b", "[", "a]", "<<", "=", "a  b", "!", "&", "*", "%a", "@a", "`a", "1_000", "+1", "0b11", "a\\n"}

func (y *ygen) name() string {
	s := pick(y.c, "anchor", "a", "b", "x1", "a-b", "A_z", "0")
	if y.dotted && y.c.Chance(60, "dotted") {
		s = pick(y.c, "dname", "a.b", "a?", "a.b?", "x.0.y", "a..b", ".a", "?", "a.", "-.?", "a.b.c")
	}
	return s
}

func (y *ygen) props() string {
	if y.plain {
		return ""
	}
	s := ""
	if y.c.Chance(7, "tag") {
		s += pick(y.c, "tag", "!t", "!!str", "!!int", "!!float", "!!bool", "!!null", "!!map", "!!seq", "!!binary", "!!set", "!", "!a!b", "!<tag:x>", "!yisp", "!quote", "!e%21", "!!timestamp", "!!merge", "!t.x?y") + " "
	}
	if y.c.Chance(8, "anchor") {
		n := y.name()
		y.anchors = append(y.anchors, n)
		if s != "" && y.c.Bool("order") {
			s = "&" + n + " " + s
		} else {
			s += "&" + n + " "
		}
	}
	return s
}

func (y *ygen) plainWord() string {
	w := ywords[y.c.Even(len(ywords), "word")]
	if strings.ContainsAny(w[:1], "[&*!%@`") || w == "-" || strings.ContainsAny(w, "],[") {
		return "w" + w[1:]
	}
	return w
}

// scalar draws a scalar that may span lines if ind >= 0.
func (y *ygen) scalar(ind int, key bool) string {
	c := y.c
	w := func() string { return ywords[c.Even(len(ywords), "word")] }
	brk := func() string {
		if key || !c.Chance(25, "break") {
			return " "
		}
		return strings.Repeat("\n", c.Int(1, 3, "breaks")) + y.sp(ind+c.Int(1, 3, "more"))
	}
	switch c.Even(6, "scalar") {
	case 0, 1, 2:
		s := y.plainWord()
		for c.Chance(15, "more") {
			b := brk()
			s += b + strings.TrimLeft(y.plainWord(), "-?:<=#")
		}
		return s
	case 3:
		s := "'"
		for i := c.Int(0, 3, "words"); i > 0; i-- {
			s += strings.ReplaceAll(w(), "'", "''") + brk()
		}
		return s + "'"
	case 4:
		s := "\""
		for i := c.Int(0, 3, "words"); i > 0; i-- {
			s += strings.ReplaceAll(strings.ReplaceAll(w(), "\\", "\\\\"), "\"", "\\\"") + pick(c, "esc", "", "\\n", "\\t", "\\x41", "\\u00e9", "\\U0001F600", "\\0", "\\e", "\\N", "\\_", "\\L", "\\P", "\\\\", "\\/", "\\\"", "\\ ") + brk()
			if !key && c.Chance(10, "escaped-break") {
				s += "\\\n" + y.sp(ind+2)
			}
		}
		return s + "\""
	}
	return pick(c, "empty", "", "~", "''", "\"\"", "null", "0")
}

// flow draws a node in flow style.
func (y *ygen) flow(ind, d int) string {
	c := y.c
	if !y.plain && c.Chance(8+y.more, "alias") {
		if s := y.alias(); s != "" {
			return s + " "
		}
	}
	gap := func() string {
		if !c.Chance(15, "gap") {
			return pick(c, "sp", "", " ")
		}
		if !y.quiet && c.Bool("comment") {
			return " " + y.comment() + "\n" + y.sp(ind+1)
		}
		return "\n" + y.sp(ind+1)
	}
	p := y.props()
	if d <= 0 || c.Chance(50, "leaf") {
		s := y.scalar(ind, false)
		if strings.ContainsAny(s, ",[]{}") && s[0] != '"' && s[0] != '\'' {
			s = "w"
		}
		return p + s
	}
	var b strings.Builder
	b.WriteString(p)
	if c.Bool("list") {
		b.WriteString("[" + gap())
		for i := c.Int(0, 3, "items"); i > 0; i-- {
			if c.Chance(10, "pair") {
				b.WriteString(pick(c, "q", "", "? ") + "k" + ": ")
			}
			b.WriteString(y.flow(ind+1, d-1) + gap())
			if i > 1 || c.Chance(20, "trailing") {
				b.WriteString("," + gap())
			}
		}
		b.WriteString("]")
	} else {
		b.WriteString("{" + gap())
		for i := c.Int(0, 3, "pairs"); i > 0; i-- {
			y.n++
			k := fmt.Sprintf("k%d", y.n)
			if c.Bool("quoted") {
				k = "\"" + k + "\""
			}
			switch c.Even(6, "form") {
			case 0:
				b.WriteString(k + gap())
			case 1:
				b.WriteString("? " + k + gap() + ": " + y.flow(ind+1, d-1))
			default:
				b.WriteString(k + ": " + gap() + y.flow(ind+1, d-1) + gap())
			}
			if i > 1 || c.Chance(20, "trailing") {
				b.WriteString("," + gap())
			}
		}
		b.WriteString("}")
	}
	return b.String()
}

func (y *ygen) alias() string {
	if y.loose && y.c.Bool("loose") {
		return "*" + y.name()
	}
	if len(y.anchors) == 0 {
		return ""
	}
	return "*" + y.anchors[y.c.Int(0, len(y.anchors)-1, "which")]
}

// literal draws a block scalar whose parent has an indentation.
func (y *ygen) literal(ind int) string {
	c := y.c
	h := pick(c, "style", "|", ">") + pick(c, "chomp", "", "", "-", "+")
	in := ind + c.Int(1, 3, "in")
	if c.Chance(15, "explicit") && in-max(ind, 0) > 0 {
		h = h[:1] + fmt.Sprint(in-max(ind, 0)) + h[1:]
		if c.Bool("swap") && len(h) == 3 {
			h = h[:1] + h[2:] + h[1:2]
		}
	}
	s := h + y.eol()
	for i := c.Int(0, 4, "lines"); i > 0; i-- {
		switch c.Even(7, "line") {
		case 0:
			s += "\n"
		case 1:
			s += y.sp(c.Int(0, in, "blank")) + "\n"
		case 2:
			s += y.sp(in) + pick(c, "lead", " ", "  ", "\t") + ywords[c.Even(len(ywords), "word")] + "\n"
		case 3:
			s += y.sp(in) + "# no comment\n"
		default:
			s += y.sp(in) + ywords[c.Even(len(ywords), "word")] + " " + ywords[c.Even(len(ywords), "word")] + pick(c, "tail", "", "", " ", "\t") + "\n"
		}
	}
	if c.Chance(10, "last") {
		s += "\n\n"
	}
	return s
}

// block draws a node standing behind an indicator whose collection has the
// given indentation (-1 at the top); it ends in a line break.
func (y *ygen) block(ind, d int) string {
	c := y.c
	if !y.plain && c.Chance(8+y.more, "alias") {
		if s := y.alias(); s != "" {
			return " " + s + y.eol()
		}
	}
	n := c.Even(10, "node")
	p := ""
	if n != 3 {
		p = y.props()
	}
	if p != "" {
		p = " " + strings.TrimSuffix(p, " ")
	}
	if d <= 0 && n >= 5 {
		n -= 5
	}
	switch n {
	case 0, 1, 2:
		s := y.scalar(ind, false)
		if s == "" {
			return p + y.eol()
		}
		return p + " " + s + y.eol()
	case 3:
		return " " + y.flow(ind+1, 2) + y.eol()
	case 4:
		return p + " " + y.literal(ind)
	case 5, 6:
		in := ind + c.Int(1, 3, "in")
		if ind < 0 {
			in = 0
		}
		return p + y.eol() + y.seq(in, d)
	case 7:
		if p == "" && ind >= 0 && c.Chance(30, "indentless") {
			return y.eol() + y.seq(ind, d)
		}
	}
	in := ind + c.Int(1, 4, "in")
	if ind < 0 {
		in = 0
	}
	return p + y.eol() + y.mapping(in, d)
}

func (y *ygen) seq(in, d int) string {
	s := ""
	for i := y.c.Int(1, 4, "items"); i > 0; i-- {
		s += y.between(in) + y.sp(in) + "-"
		if d > 0 && y.c.Chance(25, "compact") {
			k := y.c.Int(1, 3, "gap")
			x := ""
			if y.c.Bool("map") {
				x = y.mapping(in+1+k, d-1)
			} else {
				x = y.seq(in+1+k, d-1)
			}
			if t := strings.TrimLeft(x, " "); t != "" && t[0] != '#' && t[0] != '\n' {
				s += y.sp(k) + t
			} else {
				s += "\n" + x
			}
			continue
		}
		s += y.block(in, d-1)
	}
	if !y.quiet && y.c.Chance(8, "foot") {
		s += y.sp(in) + y.comment() + "\n" + pick(y.c, "blank", "", "\n")
	}
	return s
}

func (y *ygen) mapping(in, d int) string {
	s := ""
	for i := y.c.Int(1, 4, "pairs"); i > 0; i-- {
		y.n++
		s += y.between(in) + y.sp(in)
		switch y.c.Even(12, "key") {
		case 0:
			s += "?" + y.block(in, d-1)
			if y.c.Chance(80, "value") {
				s += y.between(in) + y.sp(in) + ":" + y.block(in, d-1)
			}
			continue
		case 1:
			s += "<<:" + pick(y.c, "merge", " {m: 1}", " [{m: 1}, {n: 2}]", " x") + y.eol()
			continue
		case 2:
			if k := y.scalar(in, true); k != "" && !strings.ContainsAny(k[:1], "~-?:#") {
				s += y.props() + k + ":"
				break
			}
			s += "k:"
		case 3:
			if a := y.alias(); a != "" && !y.plain {
				s += a + " :"
				break
			}
			s += fmt.Sprintf("k%d:", y.n)
		default:
			s += y.props() + fmt.Sprintf(pick(y.c, "kf", "k%d:", "k%d:", "'k%d':", "\"k%d\":", "k %d :"), y.n)
		}
		s += y.block(in, d-1)
	}
	if !y.quiet && y.c.Chance(8, "foot") {
		s += y.sp(in) + y.comment() + "\n" + pick(y.c, "blank", "", "\n")
	}
	return s
}

// text draws a stream.
func (y *ygen) text() string {
	c := y.c
	s := ""
	for i := 0; i == 0 || c.Chance(25, "another"); i++ {
		if i > 0 || c.Chance(15, "start") {
			if c.Chance(5, "directive") && (i == 0 || strings.HasSuffix(s, "...\n")) {
				s += pick(c, "dir", "%YAML 1.1\n", "%YAML 1.2\n", "%TAG !a! tag:x,\n", "%TAG ! !p-\n", "%TAG !! tag:yaml.org,2002:\n")
			}
			s += "---"
			if c.Bool("same-line") {
				s += y.block(-1, 0)
			} else {
				s += y.eol() + strings.TrimLeft(y.block(-1, c.Int(0, 3, "depth")), " \n")
			}
		} else {
			s += y.between(0) + strings.TrimLeft(y.block(-1, c.Int(0, 3, "depth")), " \n")
		}
		if c.Chance(10, "end") {
			s += "..." + y.eol()
		}
		if !y.quiet && c.Chance(10, "foot") {
			s += pick(c, "gap", "", "\n") + y.comment() + "\n"
		}
	}
	if c.Chance(5, "no-eol") {
		s = strings.TrimRight(s, "\n")
	}
	switch c.Even(14, "eols") {
	case 0:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 1:
		s = strings.ReplaceAll(s, "\n", "\r")
	case 2:
		s = "\uFEFF" + s
	}
	return s
}
