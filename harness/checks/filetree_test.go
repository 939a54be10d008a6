package checks

// Random directory trees and glob patterns with a reference matcher.

import (
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

type ftree struct {
	dirs  []string // relative, "" is the root
	files []string // relative
}

var fileNames = []string{"a.yaml", "b.yml", "c.json", "d.txt", "e.yisp", "f.yaml", "g.json", "B.yaml", "aa.yaml", "ab.yisp", "noext", "z.yaml", "10.yaml", "2.yaml", "_x.json"}
var oddNames = []string{"a b.yaml", "#x.yaml", "x%41.yaml", "[z].yaml", "q?.yaml", "-.yaml", "{k}.json", "UP.YAML", ".hidden.yaml", "a.yaml.bak", "é.yaml", "日本.json", "a:b.yaml", "*.yaml", "it's.txt", "a\"q.txt", "tilde~.yisp", "x&y.yaml", "back\\slash.yaml", "http:.yaml"}
var dirNames = []string{"sub", "other", "a.d", "deep", "x y", "%41", "#h", "[b]", ".dot", "é", "sub2"}

// genTree draws directories and file names; no directory has a name that looks like a file's.
func genTree(c *C, odd bool) *ftree {
	t := &ftree{dirs: []string{""}}
	for i := c.Int(0, 4, "dirs"); i > 0; i-- {
		n := dirNames[c.Int(0, 3, "dir")]
		if odd && c.Chance(40, "odd-dir") {
			n = dirNames[c.Int(0, len(dirNames)-1, "dir")]
		}
		d := filepath.Join(t.dirs[c.Int(0, len(t.dirs)-1, "parent")], n)
		if !has(t.dirs, d) {
			t.dirs = append(t.dirs, d)
		}
	}
	for i := c.Int(1, 9, "files"); i > 0; i-- {
		n := fileNames[c.Int(0, len(fileNames)-1, "file")]
		if odd && c.Chance(30, "odd-file") {
			n = oddNames[c.Int(0, len(oddNames)-1, "file")]
		}
		f := filepath.Join(t.dirs[c.Int(0, len(t.dirs)-1, "where")], n)
		if !has(t.files, f) {
			t.files = append(t.files, f)
		}
	}
	return t
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func escGlob(s string) string { return escRunes(s, "*?[]{}") }

// escAlt escapes a text inside {...}.
func escAlt(s string) string { return escRunes(s, "*?[]{},") }

func escRunes(s, special string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\\' { // the library does not undo \\ everywhere
			r = '?'
		} else if strings.ContainsRune(special, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

// segPattern draws a pattern for one path segment that is likely to match name.
func segPattern(c *C, name string) string {
	rs := []rune(name)
	if utf8.RuneCountInString(name) == 0 {
		return "*"
	}
	i := c.Int(0, len(rs)-1, "cut")
	j := c.Int(i, len(rs), "end")
	pre, mid, post := string(rs[:i]), string(rs[i:j]), string(rs[j:])
	switch c.Int(0, 6, "seg") {
	case 0:
		return escGlob(name)
	case 1:
		return escGlob(pre) + "*"
	case 2:
		return "*" + escGlob(post)
	case 3:
		return escGlob(pre) + "*" + escGlob(post)
	case 4:
		if len([]rune(mid)) > 0 {
			return escGlob(pre) + strings.Repeat("?", len([]rune(mid))) + escGlob(post)
		}
		return escGlob(name)
	case 5:
		if r := rs[i]; r < 128 && r != ']' && r != '\\' && r != '[' && r != '-' && r != '^' && r != '!' {
			cls := string(r)
			if r >= 'a' && r < 'z' {
				cls = pick(c, "class", "[a-z]", "["+string(r)+"]", "[!A-Z]", "["+string(r)+"x]", "[^0-9]")
			} else {
				cls = "[" + cls + "]"
			}
			return escGlob(string(rs[:i])) + cls + escGlob(string(rs[i+1:]))
		}
		return "*"
	default:
		ext := filepath.Ext(name)
		stem := strings.TrimSuffix(name, ext)
		if ext != "" && c.Bool("ext-alt") {
			return escGlob(stem) + "{" + escAlt(ext) + pick(c, "alt", ",.yaml", ",.json,.yml", ",.none") + "}"
		}
		return "{" + escAlt(name) + pick(c, "alt2", ",a.yaml", ",*.json", ",zz") + "}"
	}
}

// genPattern draws a pattern relative to the directory from; most match something.
func genPattern(c *C, t *ftree, from, abs string) string {
	if len(t.files) == 0 {
		return "*.yaml"
	}
	f := t.files[c.Int(0, len(t.files)-1, "aim")]
	r, _ := filepath.Rel("/"+from, "/"+f)
	parts := strings.Split(r, "/")
	switch c.Int(0, 9, "pattern") {
	case 0, 1: // a literal path
		if c.Chance(15, "missing") {
			return r + "x"
		}
		if c.Chance(15, "abs") {
			return filepath.Join(abs, f)
		}
		if c.Chance(30, "dot") && !strings.HasPrefix(r, ".") {
			return "./" + r
		}
		return r
	case 2, 3, 4, 5:
		for i := range parts {
			if parts[i] == ".." {
				continue
			}
			if i == len(parts)-1 || c.Chance(40, "meta-dir") {
				parts[i] = segPattern(c, parts[i])
			} else {
				parts[i] = escGlob(parts[i])
			}
		}
	case 6, 7, 8: // any depth
		n := 0
		for n < len(parts)-1 && parts[n] == ".." {
			n++
		}
		if n < len(parts)-1 {
			n += c.Int(0, len(parts)-1-n, "keep")
		}
		last := segPattern(c, parts[len(parts)-1])
		head := parts[:n]
		for i := range head {
			if head[i] != ".." {
				head[i] = escGlob(head[i])
			}
		}
		parts = append(append([]string{}, head...), "**", last)
		if c.Chance(10, "double") {
			parts = append(append([]string{}, head...), "**", "**", last)
		}
	default:
		parts = append(strings.Split(r, "/")[:len(parts)-1], pick(c, "any", "*.yaml", "*.json", "*.yisp", "*.*", "nothing-*.txt", "?.yaml"))
		for i := range parts[:len(parts)-1] {
			if parts[i] != ".." {
				parts[i] = escGlob(parts[i])
			}
		}
	}
	p := strings.Join(parts, "/")
	if c.Chance(10, "abs-pattern") {
		return escGlob(filepath.Join(abs, from)) + "/" + p
	}
	return p
}

// matchSeg matches one path segment.
func matchSeg(p, s string) bool {
	return matchAlt(expandAlts(p), s)
}

func matchAlt(ps []string, s string) bool {
	for _, p := range ps {
		if matchRunes([]rune(p), []rune(s)) {
			return true
		}
	}
	return false
}

// expandAlts writes out {a,b}.
func expandAlts(p string) []string {
	open := -1
	depth := 0
	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '\\':
			i++
		case '{':
			open = i
			depth++
		}
		if depth == 1 {
			break
		}
	}
	if open < 0 {
		return []string{p}
	}
	var alts []string
	start := open + 1
	for i := open + 1; i < len(p); i++ {
		switch p[i] {
		case '\\':
			i++
		case ',', '}':
			alts = append(alts, p[start:i])
			start = i + 1
			if p[i] == '}' {
				var out []string
				for _, a := range alts {
					out = append(out, expandAlts(p[:open]+a+p[i+1:])...)
				}
				return out
			}
		}
	}
	return []string{p}
}

func matchRunes(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if matchRunes(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && matchRunes(p[1:], s[1:])
	case '[':
		end := 1
		for end < len(p) && p[end] != ']' {
			end++
		}
		if end == len(p) || len(s) == 0 {
			return false
		}
		set := p[1:end]
		neg := len(set) > 0 && (set[0] == '!' || set[0] == '^')
		if neg {
			set = set[1:]
		}
		in := false
		for i := 0; i < len(set); i++ {
			if i+2 < len(set) && set[i+1] == '-' {
				in = in || set[i] <= s[0] && s[0] <= set[i+2]
				i += 2
			} else {
				in = in || set[i] == s[0]
			}
		}
		return in != neg && matchRunes(p[end+1:], s[1:])
	case '\\':
		if len(p) > 1 {
			return len(s) > 0 && s[0] == p[1] && matchRunes(p[2:], s[1:])
		}
	}
	return len(s) > 0 && s[0] == p[0] && matchRunes(p[1:], s[1:])
}

// matches lists the files (relative to the root) that the pattern written in a file of the directory from selects.
func (t *ftree) matches(pattern, from, abs string) []string {
	p := pattern
	lit := filepath.Join(abs, from, p)
	if strings.HasPrefix(p, "/") {
		lit = filepath.Clean(p)
	}
	if lit == abs {
		return []string{""}
	}
	if r, err := filepath.Rel(abs, lit); err == nil && (has(t.files, r) || has(t.dirs, r)) {
		return []string{r}
	}
	var pp []string
	if strings.HasPrefix(p, "/") {
		pp = strings.Split(p[1:], "/")
	} else {
		for _, d := range strings.Split(filepath.Join(abs, from)[1:], "/") {
			pp = append(pp, escGlob(d))
		}
		pp = append(pp, strings.Split(p, "/")...)
	}
	var clean []string
	for _, x := range pp {
		switch x {
		case ".", "":
		case "..":
			clean = clean[:len(clean)-1]
		default:
			clean = append(clean, x)
		}
	}
	var out []string
	for _, f := range t.files {
		if matchPath(clean, strings.Split(filepath.Join(abs, f)[1:], "/")) {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

func matchPath(p, s []string) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	if p[0] == "**" {
		for i := 0; i <= len(s); i++ {
			if matchPath(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return len(s) > 0 && matchSeg(p[0], s[0]) && matchPath(p[1:], s[1:])
}

// dirOrder: the names come sorted within each directory.
func dirOrder(files []string) string {
	last := map[string]string{}
	for _, f := range files {
		d, n := filepath.Split(f)
		if l, ok := last[d]; ok && l >= n {
			return f + " comes after " + d + l
		}
		last[d] = n
	}
	return ""
}
