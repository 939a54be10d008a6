package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	upstream "gopkg.in/yaml.v3"
)

var mapPos = regexp.MustCompile(`^(?:.* )?([^ ].*|):(\d+):(\d+)$`)

// sourceMap checks the positions that the comments of an output name.
type sourceMap struct {
	c       *C
	in      *Interp
	lines   []string
	cwd     string
	known   map[place]bool
	anyFile bool // positions in files that are not programs may occur
	seen    int
	foreign int
	moved   int
	owner   map[int]bool // lines whose comment was accounted for
}

// named is the position at the end of a comment.
func (m *sourceMap) named(rest string) (place, bool) {
	i := strings.Index(rest, "# ")
	if i < 0 {
		return place{}, false
	}
	for tail := rest[i+2:]; ; { // a comment of its own, or a part of the file's name, may hold blanks
		x := mapPos.FindStringSubmatch(" " + tail)
		if x == nil {
			return place{}, false
		}
		y := regexp.MustCompile(`^(.*):(\d+):(\d+)$`).FindStringSubmatch(tail)
		l, _ := strconv.Atoi(y[2])
		k, _ := strconv.Atoi(y[3])
		p := place{m.abs(y[1]), l, k}
		if m.known[p] {
			if filepath.IsAbs(y[1]) {
				m.c.Violate("the file of a position is not relative to the working directory %s: %s", m.cwd, tail)
			}
			return p, true
		}
		j := strings.IndexByte(tail, ' ')
		if j < 0 {
			return p, true
		}
		tail = tail[j+1:]
	}
}

func (m *sourceMap) abs(f string) string {
	if isURL(f) {
		return f
	}
	if !filepath.IsAbs(f) {
		f = filepath.Join(m.cwd, f)
	}
	return filepath.Clean(f)
}

// rest is what follows a scalar that ends on the line where it starts.
func (m *sourceMap) rest(n *upstream.Node) (string, bool) {
	l := []rune(m.lines[n.Line-1])
	if n.Column-1 > len(l) {
		return "", false
	}
	s := string(l[n.Column-1:])
	if i := strings.Index(s, " "); strings.HasPrefix(s, "!!") && i > 0 {
		s = s[i+1:]
	}
	switch {
	case n.Style&(upstream.LiteralStyle|upstream.FoldedStyle) != 0:
		i := strings.IndexAny(s, " ")
		if i < 0 {
			return "", true
		}
		return s[i:], true
	case n.Style&upstream.DoubleQuotedStyle != 0:
		for i := 1; i < len(s); i++ {
			if s[i] == '\\' {
				i++
			} else if s[i] == '"' {
				return s[i+1:], true
			}
		}
		return "", false
	case n.Style&upstream.SingleQuotedStyle != 0:
		for i := 1; i < len(s); i++ {
			if s[i] == '\'' {
				if i+1 < len(s) && s[i+1] == '\'' {
					i++
					continue
				}
				return s[i+1:], true
			}
		}
		return "", false
	case n.Kind != upstream.ScalarNode:
		if len(s) >= 2 && (s[:2] == "[]" || s[:2] == "{}") {
			return s[2:], true
		}
		return "", false
	}
	if strings.HasPrefix(s, n.Value) {
		return s[len(n.Value):], true
	}
	return "", false
}

func (m *sourceMap) want(n *upstream.Node, src *N, rest, what string) {
	if u := m.in.used; (n.Kind != upstream.ScalarNode || strings.HasPrefix(what, "the coll")) && u["maps.merge"]+u["k8s.patch"]+u["maps.patch"] > 0 {
		return // a new collection
	}
	m.seen++
	if src.File != m.in.mainFile {
		m.foreign++
	}
	m.owner[n.Line] = true
	got, ok := m.named(rest)
	for i := n.Line; !ok && strings.Contains(rest, "#") && i < len(m.lines); i++ { // several comments
		next := strings.TrimSpace(m.lines[i])
		if next != "" && !strings.HasPrefix(next, "#") {
			break
		}
		if got, ok = m.named(next); ok {
			m.c.Class("several")
		}
	}
	if !ok {
		m.c.Violate("%s on line %d of the output was written at %v, but has no such comment: %q", what, n.Line, placeOf(src), rest)
	}
	w := placeOf(src)
	w.file = m.abs(w.file)
	if got != w {
		m.c.Violate("%s on line %d of the output was written at %v, but the comment says %v", what, n.Line, w, got)
	}
	t := strings.TrimPrefix(rest, ",")
	if !strings.HasPrefix(t, " #") {
		m.c.Violate("the comment does not follow %s on line %d directly: %q", what, n.Line, rest)
	}
}

func (m *sourceMap) walk(n *upstream.Node, v *V) {
	shown := func(x *V) bool { return x.K != VLam && x.K != VType }
	src := m.in.origin[v]
	switch v.K {
	case VList:
		if len(n.Content) > 0 {
			i := 0
			for _, x := range v.L {
				if shown(x) {
					m.walk(n.Content[i], x)
					i++
				}
			}
			return
		}
	case VMap:
		if len(n.Content) > 0 {
			at := map[string]int{} // keys of plain data are sorted
			for i := 0; i < len(n.Content); i += 2 {
				at[n.Content[i].Value] = i
			}
			for _, k := range v.M.keys {
				x := v.M.m[k]
				if !shown(x) {
					continue
				}
				key, val := n.Content[at[k]], n.Content[at[k]+1]
				if s := m.in.origin[x]; s != nil && (x.K == VList || x.K == VMap) && len(val.Content) > 0 && val.Style&upstream.FlowStyle == 0 && n.Style&upstream.FlowStyle == 0 {
					if r, ok := m.rest(key); ok && strings.HasPrefix(r, ":") {
						m.want(key, s, r[1:], fmt.Sprintf("the collection at key %q", k))
						m.c.Class("collection")
					}
				}
				m.walk(val, x)
			}
			return
		}
	}
	if src == nil {
		m.moved++
		return
	}
	if r, ok := m.rest(n); ok {
		m.want(n, src, r, fmt.Sprintf("%q", clip(n.Value)))
	}
}

func clip(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

func (m *sourceMap) check(out string) {
	m.lines = append(regexp.MustCompile("\r\n|[\r\n\u0085\u2028\u2029]").Split(out, -1), "")
	m.owner = map[int]bool{}
	dec := upstream.NewDecoder(strings.NewReader(out))
	for _, v := range m.in.raw {
		if v.K == VLam || v.K == VType {
			continue
		}
		var n upstream.Node
		if err := dec.Decode(&n); err != nil {
			m.c.Violate("the output can not be read: %v", err)
		}
		m.walk(n.Content[0], v)
	}
}

func knownPlaces(m *sourceMap, docs []*N) {
	for _, p := range allPlaces(docs) {
		p.file = m.abs(p.file)
		m.known[p] = true
	}
}

func TestC39(t *testing.T) {
	opts := memOpts
	opts.RenderSources = true
	sub(t, "programs", 1, "random programs whose values pass through variables, functions, operators, merges and casts, in random layout and with comments, evaluated with source maps: every scalar of the output that was written in the program has a comment right behind it that ends in the position the YAML parser gives it, a block collection has its own at its key; the data is that of the reference; non-trivial: three or more values were compared", func(c *C) {
		g := newGen(c)
		docs := g.program(c.Int(1, 5, "docs"), 3)
		docs = append(docs, g.dump())
		setFile(docs, memLoc)
		src := printDocs(docs, c.Seed("layout"), c.Chance(40, "noise"))
		c.locate(docs, src)
		in := newInterp()
		in.origin = map[*V]*N{}
		in.mainFile = memLoc
		want, rerr, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		c.Note("--- program ---\n%s", src)
		o := c.EvalOpt(src, memLoc, opts)
		c.Note("--- output ---\n%s", o.Text)
		c.Expect(o, want, toErr(rerr), true)
		if rerr != nil {
			return
		}
		cwd, _ := os.Getwd()
		m := &sourceMap{c: c, in: in, cwd: cwd, known: map[place]bool{}}
		knownPlaces(m, docs)
		m.check(o.Text)
		c.ClassIf(m.moved > 0, "computed")
		c.NonTrivialIf(m.seen >= 3)
	})
	sub(t, "projects", 0.5, "random projects (modules, functions of modules, included programs and plain data), evaluated by relative and absolute paths from several working directories: as above, with file names relative to the working directory; non-trivial: a value of another file was compared", func(c *C) {
		p := genProject(c, c.Dir(), nil)
		for f, docs := range p.progs {
			setFile(docs, p.abs(f))
		}
		p.finish()
		for _, f := range p.order {
			c.locate(p.progs[f], p.files[f])
		}
		p.in.origin = map[*V]*N{}
		p.in.mainFile = p.abs("main.yisp")
		want, rerr, ok := p.ref()
		if !ok {
			c.T.Skip("too long")
		}
		defer chdir(c, scratch)
		cwd := pick(c, "cwd", scratch, p.dir, filepath.Dir(p.dir), filepath.Dir(p.abs(p.order[c.Int(0, len(p.order)-1, "beside")])))
		chdir(c, cwd)
		file := p.abs("main.yisp")
		if c.Bool("relative") {
			file, _ = filepath.Rel(cwd, file)
		}
		o := c.EvalFile(file, opts)
		c.Note("--- output in %s ---\n%s", cwd, o.Text)
		c.Expect(o, want, toErr(rerr), false)
		if rerr != nil {
			return
		}
		m := &sourceMap{c: c, in: p.in, cwd: cwd, known: map[place]bool{}}
		for _, f := range p.order {
			knownPlaces(m, p.progs[f])
		}
		m.check(o.Text)
		c.ClassIf(m.moved > 0, "computed")
		c.ClassIf(m.foreign > 0, "other-file")
		c.NonTrivialIf(m.foreign > 0)
	})
}
