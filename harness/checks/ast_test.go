package checks

// Programs as trees, and a printer that writes them as YAML text in varying layouts.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type NK int

const (
	NNull NK = iota
	NBool
	NInt
	NFloat
	NStr
	NList
	NMap
	NRef // *path
)

type N struct {
	K      NK
	Src    string // spelling of a null, bool, int or float
	S      string // text of a string, path of a reference
	V      *V     // value of a scalar
	Items  []*N
	Ents   []*Ent
	Tag    string
	Anchor string
	Flow   bool
	Q      byte // style of a string: 0 any, p plain, s single, d double, l literal, f folded

	Line, Col int    // set by the printer
	File      string // set by the printer's caller
	printed   *N
}

type Ent struct {
	Key   string
	Q     byte // style of the key: 0 any, p plain as it is (also non-strings), s, d
	Merge bool
	Val   *N
}

func nStr(s string) *N     { return &N{K: NStr, S: s, V: vStr(s)} }
func nInt(i int64) *N      { return &N{K: NInt, Src: strconv.FormatInt(i, 10), V: vInt(i)} }
func nBool(b bool) *N      { return &N{K: NBool, Src: strconv.FormatBool(b), V: vBool(b)} }
func nNull() *N            { return &N{K: NNull, Src: "null", V: vNull()} }
func nRef(p string) *N     { return &N{K: NRef, S: p} }
func nList(items ...*N) *N { return &N{K: NList, Items: items} }
func nCall(op string, args ...*N) *N {
	return &N{K: NList, Items: append([]*N{nStr(op)}, args...)}
}
func nYisp(n *N) *N  { n.Tag = "!yisp"; return n }
func nQuote(n *N) *N { n.Tag = "!quote"; return n }
func nMapOf(kv ...any) *N {
	n := &N{K: NMap}
	for i := 0; i+1 < len(kv); i += 2 {
		n.Ents = append(n.Ents, &Ent{Key: kv[i].(string), Val: kv[i+1].(*N)})
	}
	return n
}
func (n *N) anchored(a string) *N { n.Anchor = a; return n }

func floatSrc(f float64) string {
	switch s := strconv.FormatFloat(f, 'g', -1, 64); {
	case s == "+Inf":
		return ".inf"
	case s == "-Inf":
		return "-.inf"
	case s == "NaN":
		return ".nan"
	case !strings.ContainsAny(s, ".e"):
		return s + ".0"
	default:
		return s
	}
}
func nFloat(f float64) *N { return &N{K: NFloat, Src: floatSrc(f), V: vFloat(f)} }

// nOf turns data into the tree that denotes it in quote mode.
func nOf(v *V) *N {
	switch v.K {
	case VNull:
		return nNull()
	case VBool:
		return nBool(v.B)
	case VInt:
		return nInt(v.I)
	case VFloat:
		return nFloat(v.F)
	case VStr:
		return nStr(v.S)
	case VList:
		n := &N{K: NList}
		for _, x := range v.L {
			n.Items = append(n.Items, nOf(x))
		}
		return n
	case VMap:
		n := &N{K: NMap}
		for _, k := range v.M.keys {
			n.Ents = append(n.Ents, &Ent{Key: k, Val: nOf(v.M.m[k])})
		}
		return n
	case VLam:
		return nYisp(v.Lam.Node.clone())
	}
	panic("nOf: " + v.K.String())
}

// nLit is the tree that denotes data where expressions are evaluated.
func nLit(v *V) *N {
	n := nOf(v)
	if v.K == VList || v.K == VMap {
		n.Tag = "!quote"
	}
	return n
}

func (n *N) clone() *N {
	m := *n
	m.Items, m.Ents = nil, nil
	for _, i := range n.Items {
		m.Items = append(m.Items, i.clone())
	}
	for _, e := range n.Ents {
		f := *e
		f.Val = e.Val.clone()
		m.Ents = append(m.Ents, &f)
	}
	return &m
}

func (n *N) walk(f func(*N)) {
	f(n)
	for _, i := range n.Items {
		i.walk(f)
	}
	for _, e := range n.Ents {
		e.Val.walk(f)
	}
}

// ---- printing ----

type sm uint64 // splitmix64: layout decisions are a pure function of one drawn number; 0 = plainest layout

func (s *sm) next() uint64 {
	*s += 0x9e3779b97f4a7c15
	z := uint64(*s)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type printer struct {
	sb    strings.Builder
	line  int
	col   int
	plain bool // plainest layout
	rnd   sm
	noise bool // add comments and blank lines
	step  int
	block bool // the last scalar was a block scalar
}

func newPrinter(seed uint64, noise bool) *printer {
	p := &printer{line: 1, col: 1, plain: seed == 0, rnd: sm(seed), noise: noise && seed != 0}
	p.step = 2
	if p.chance(15) {
		p.step = 4
	}
	return p
}

func (p *printer) chance(n int) bool {
	if p.plain {
		return false
	}
	return int(p.rnd.next()%100) < n
}
func (p *printer) w(s string) {
	p.sb.WriteString(s)
	for _, r := range s {
		if r == '\n' {
			p.line++
			p.col = 1
		} else {
			p.col++
		}
	}
}
func (p *printer) pad(n int) { p.w(strings.Repeat(" ", n)) }

// printDocs writes a stream of documents.
func printDocs(docs []*N, seed uint64, noise bool) string {
	p := newPrinter(seed, noise)
	for i, d := range docs {
		p.doc(d, i == 0)
	}
	return p.sb.String()
}

func (p *printer) doc(d *N, first bool) {
	sep := !first || p.chance(40)
	if sep {
		if !first && p.chance(10) {
			p.w("...\n")
		}
		p.w("---")
		inline := !p.blockColl(d) && p.chance(40)
		if inline {
			p.node(d, -1, atKey)
			return
		}
		p.w("\n")
	}
	if p.noise && p.chance(10) {
		p.w("# comment\n")
	}
	p.node(d, -1, atDoc)
}

type at int

const (
	atDoc at = iota
	atKey
	atItem
)

func (p *printer) blockColl(n *N) bool {
	return (n.K == NList && len(n.Items) > 0 || n.K == NMap && len(n.Ents) > 0) && !p.flow(n)
}

// flow: whether the collection is printed in flow style (decided by its identity, so that it is stable)
func (p *printer) flow(n *N) bool {
	if n.Flow {
		return true
	}
	if p.plain {
		return false
	}
	if n.printed == nil { // decide once
		n.printed = &N{}
		n.printed.Flow = n.K == NList && p.chance(45) || n.K == NMap && p.chance(20)
	}
	return n.printed.Flow
}

func (p *printer) props(n *N) string {
	a, t := "", n.Tag
	if n.Anchor != "" {
		a = "&" + n.Anchor
	}
	if a != "" && t != "" {
		if p.chance(50) {
			return t + " " + a
		}
		return a + " " + t
	}
	return a + t
}

func (p *printer) eol(n *N) {
	if p.noise && p.chance(6) {
		p.w(" # line comment")
	}
	p.w("\n")
}

// node writes a node after "key:", "-" or at the start of a document; ind is the
// indentation of the surrounding collection (-1 at top level). It ends with a newline.
func (p *printer) node(n *N, ind int, where at) {
	if where != atDoc && !p.blockColl(n) {
		if !(n.K == NNull && n.Src == "" && p.props(n) == "") {
			p.w(" ")
			if p.chance(5) {
				p.w("  ")
			}
		}
	}
	if !p.blockColl(n) {
		n.Line, n.Col = p.line, p.col
		pr := p.props(n)
		body := ""
		var block bool
		switch n.K {
		case NList, NMap:
			if pr != "" {
				p.w(pr + " ")
			}
			p.flowColl(n, max(ind, 0)+2)
			p.block = false
			p.eol(n)
			return
		case NRef:
			body = "*" + n.S
		case NStr:
			body, block = p.str(n.S, n.Q, false, max(ind, 0)+2)
		default:
			body = n.Src
		}
		if pr != "" && body != "" {
			pr += " "
		}
		p.w(pr + body)
		p.block = block
		if block {
			p.w("\n")
		} else {
			p.eol(n)
		}
		return
	}
	pr := p.props(n)
	inline := false // first entry continues the current line
	switch where {
	case atDoc:
		if pr != "" {
			n.Line, n.Col = p.line, p.col
			p.w(pr + "\n")
		}
	case atKey:
		if pr != "" {
			p.w(" ")
			n.Line, n.Col = p.line, p.col
			p.w(pr)
		}
		p.eol(n)
	case atItem:
		if pr != "" {
			p.w(" ")
			n.Line, n.Col = p.line, p.col
			p.w(pr)
			p.eol(n)
		} else if p.plain || p.chance(85) {
			p.w(" ")
			inline = true
		} else {
			p.eol(n)
		}
	}
	i := 0
	if where != atDoc || ind >= 0 {
		i = ind + p.step
		if where == atItem {
			i = ind + 2
		}
		if ind < 0 {
			i = 0
		}
		if where == atKey && n.K == NList && ind >= 0 && p.chance(40) {
			i = ind
		}
	}
	if n.K == NList {
		for k, it := range n.Items {
			if !(k == 0 && inline) {
				p.lead(i)
			}
			if k == 0 && pr == "" {
				n.Line, n.Col = p.line, p.col
			}
			p.w("-")
			p.node(it, i, atItem)
		}
		return
	}
	for k, e := range n.Ents {
		if !(k == 0 && inline) {
			p.lead(i)
		}
		if k == 0 && pr == "" {
			n.Line, n.Col = p.line, p.col
		}
		p.w(p.key(e, false) + ":")
		p.node(e.Val, i, atKey)
	}
}

// lead starts a line of a block collection
func (p *printer) lead(i int) {
	if p.noise && !strings.HasSuffix(p.sb.String(), "\n\n") { // a blank line could belong to a block scalar
		if p.chance(5) {
			p.pad(i)
			p.w("# comment\n")
		}
		if p.chance(3) && !p.block {
			p.w("\n")
		}
	}
	p.pad(i)
}

func (p *printer) key(e *Ent, flow bool) string {
	if e.Merge {
		return "<<"
	}
	switch e.Q {
	case 'p':
		return e.Key
	case 's':
		return single(e.Key)
	case 'd':
		return double(e.Key)
	}
	if plainSafe(e.Key) && !p.chance(15) {
		return e.Key
	}
	if p.chance(40) && okSingle(e.Key) {
		return single(e.Key)
	}
	return double(e.Key)
}

func (p *printer) flowColl(n *N, ind int) {
	open, cl := "[", "]"
	if n.K == NMap {
		open, cl = "{", "}"
	}
	p.w(open)
	cnt := len(n.Items) + len(n.Ents)
	multi := cnt > 0 && p.chance(12)
	brk := func() {
		if multi {
			p.w("\n")
			p.pad(ind)
		} else if p.chance(8) {
			p.w(" ")
		}
	}
	brk()
	for i, it := range n.Items {
		if i > 0 {
			p.w(",")
			if multi {
				brk()
			} else {
				p.w(" ")
			}
		}
		p.flowNode(it, ind+2)
	}
	for i, e := range n.Ents {
		if i > 0 {
			p.w(",")
			if multi {
				brk()
			} else {
				p.w(" ")
			}
		}
		p.w(p.key(e, true) + ": ")
		p.flowNode(e.Val, ind+2)
	}
	if multi {
		p.w("\n")
		p.pad(ind - 1)
	}
	p.w(cl)
}

func (p *printer) flowNode(n *N, ind int) {
	n.Line, n.Col = p.line, p.col
	pr := p.props(n)
	if pr != "" {
		p.w(pr + " ")
	}
	switch n.K {
	case NList, NMap:
		p.flowColl(n, ind)
	case NRef:
		p.w("*" + n.S + " ")
	case NStr:
		s, _ := p.str(n.S, n.Q, true, 0)
		p.w(s)
	default:
		if n.Src == "" {
			p.w("null")
		} else {
			p.w(n.Src)
		}
	}
}

// str writes a string; block reports a block scalar, which already ends its last line.
func (p *printer) str(s string, q byte, flow bool, ind int) (text string, block bool) {
	if q == 0 {
		switch {
		case p.plain:
			q = 'p'
		case p.chance(45):
			q = 'p'
		case p.chance(25):
			q = 's'
		case !flow && p.chance(50):
			q = pickByte(p, 'l', 'f')
		default:
			q = 'd'
		}
	}
	switch q {
	case 'p':
		if plainSafe(s) {
			return s, false
		}
		if !flow && plainCandidate(s) && verifyScalar(s, s, 2) {
			return s, false
		}
	case 's':
		if okSingle(s) {
			return single(s), false
		}
	case 'l', 'f':
		if !flow {
			for _, style := range []byte{q, 'l'} {
				if h, lines, ok := blockScalar(s, style); ok {
					build := func(ind int) string {
						var b strings.Builder
						b.WriteString(h)
						for _, l := range lines {
							b.WriteString("\n")
							if l != "" {
								b.WriteString(strings.Repeat(" ", ind) + l)
							}
						}
						return b.String()
					}
					if verifyScalar(build(2), s, 2) {
						return build(ind), true
					}
				}
			}
		}
	}
	return double(s), false
}

func pickByte(p *printer, b ...byte) byte { return b[int(p.rnd.next()%uint64(len(b)))] }

// blockScalar proposes header and content lines of a literal or folded scalar.
func blockScalar(s string, style byte) (string, []string, bool) {
	if s == "" || !utf8.ValidString(s) {
		return "", nil, false
	}
	for _, r := range s {
		if r != '\n' && r != '\t' && (r < 0x20 || !unicode.IsPrint(r)) {
			return "", nil, false
		}
	}
	body := strings.TrimRight(s, "\n")
	tail := len(s) - len(body)
	if body == "" {
		return "", nil, false
	}
	ch := ""
	switch {
	case tail == 0:
		ch = "-"
	case tail > 1:
		ch = "+"
	}
	lines := strings.Split(body, "\n")
	header := "|"
	if strings.HasPrefix(body, " ") || strings.HasPrefix(body, "\n") || strings.HasPrefix(body, "\t") {
		header += "2"
	}
	if style == 'f' {
		header = ">" + header[1:]
		var folded []string
		for i, l := range lines {
			if strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t") || l == "" {
				return "", nil, false
			}
			if i > 0 {
				folded = append(folded, "")
			}
			folded = append(folded, strings.Split(l, " ")...)
		}
		for _, l := range folded {
			if strings.HasPrefix(l, "\t") {
				return "", nil, false
			}
		}
		// words were split at every space: empty pieces (double spaces) would fold differently
		for i := range folded {
			if folded[i] == "" && (i == 0 || i == len(folded)-1) {
				return "", nil, false
			}
		}
		lines = folded
	}
	for i := 1; i < tail; i++ {
		lines = append(lines, "")
	}
	return header + ch, lines, true
}

func verifyScalar(text, want string, _ int) bool {
	docs, err := readYAML("k: " + text + "\nz: 1\n")
	return err == nil && len(docs) == 1 && same(docs[0], vMapOf("k", vStr(want), "z", vInt(1)))
}

var plainRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_./-]*( [A-Za-z0-9_/][A-Za-z0-9_./-]*)*$`)
var ambiguous = map[string]bool{}

func init() {
	for _, w := range strings.Fields("y n yes no true false on off null nan inf infinity") {
		ambiguous[w] = true
	}
}

func plainSafe(s string) bool {
	return len(s) < 100 && plainRe.MatchString(s) && !ambiguous[strings.ToLower(s)]
}

// plainCandidate: worth trying as a plain scalar (it is verified with the upstream parser)
func plainCandidate(s string) bool {
	if s == "" || len(s) > 200 || strings.ContainsAny(s, "\n\r") || strings.TrimSpace(s) != s {
		return false
	}
	for _, r := range s {
		if !unicode.IsPrint(r) {
			return false
		}
	}
	return !strings.HasPrefix(s, "---") && !strings.HasPrefix(s, "...") && !strings.ContainsAny(s[:1], "*&!") && !strings.Contains(s, " *")
}

func okSingle(s string) bool {
	for _, r := range s {
		if r < 0x20 || !unicode.IsPrint(r) {
			return false
		}
	}
	return len(s) < 500
}
func single(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }
func double(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r >= 0x20 && r < 0x7f:
			b.WriteRune(r)
		case r > 0xa0 && unicode.IsPrint(r) && r != 0xfeff:
			b.WriteRune(r)
		case r < 0x100:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			fmt.Fprintf(&b, `\U%08x`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}
