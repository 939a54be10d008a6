package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/totegamma/yisp/engine"
	upstream "gopkg.in/yaml.v3"
)

// starMatch: * stands for any text, every other character for itself.
func starMatch(pat, s string) bool {
	parts := strings.Split(pat, "*")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	last := parts[len(parts)-1]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, last)
}

var pkgPool = []string{"github.com/a/b", "github.com/a/b@v1.2.3", "github.com/a/b/cmd/x@latest", "./cmd/gen", "example.com/x.y/z+w", "cmd", "a.b", "(a)", "[ab]", "a|b", "x{2}", "^a", "a$", "a\\b", "a?b", "é/日", "-exec=rm", "a b", "A/B", "..", "/abs/path", "a,b", "'q'", "#c", "x: y", "true", "1.0", "null", "", "~", "- a", "&x", "!x", "\\Qa\\E", "a\"b", "%s"}

func genPkg(c *C) string {
	p := pkgPool[c.Int(0, len(pkgPool)-1, "pkg")]
	if c.Chance(30, "version") {
		p += pick(c, "ver", "@v1.0.0", "@latest", "@master", "/...")
	}
	return p
}

// likeEntry draws a package that the entry matches, or nearly.
func likeEntry(c *C, e string) string {
	var b strings.Builder
	for _, r := range e {
		if r == '*' {
			b.WriteString(pick(c, "star", "", "x", "a/b", "*", "v1.2.3", ".."))
		} else {
			b.WriteRune(r)
		}
	}
	s := b.String()
	rs := []rune(s)
	switch c.Int(0, 10, "near") {
	case 0:
		if len(rs) > 0 { // one character differs
			i := c.Int(0, len(rs)-1, "at")
			rs[i] = []rune("xX./ab*")[c.Int(0, 6, "to")]
		}
		return string(rs)
	case 1:
		if len(rs) > 0 {
			i := c.Int(0, len(rs)-1, "at")
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 2:
		return pick(c, "before", "x", "evil.com/", " ", "-", "/") + s
	case 3:
		return s + pick(c, "after", "x", "/evil", "@v9", " ", ".", "s")
	case 4:
		return strings.ToUpper(s)
	case 5:
		if i := strings.IndexAny(s, ".+?|"); i >= 0 { // the character is not special
			return s[:i] + pick(c, "sub", "x", "") + s[i+1:]
		}
	case 6:
		if i := strings.IndexAny(s, "|,"); i >= 0 {
			return pick(c, "half", s[:i], s[i+1:])
		}
	}
	return s
}

func genEntry(c *C) string {
	e := genPkg(c)
	if c.Chance(50, "stars") {
		for i := c.Int(1, 2, "nstars"); i > 0; i-- {
			rs := []rune(e)
			at := c.Int(0, len(rs), "star-at")
			if c.Chance(40, "replace") {
				e = string(rs[:at]) + "*"
			} else {
				e = string(rs[:at]) + "*" + string(rs[at:])
			}
		}
	}
	return e
}

func sorted(xs []string) []string {
	ys := append([]string{}, xs...)
	sort.Strings(ys)
	return ys
}

func TestC23(t *testing.T) {
	sub(t, "history", 1, "histories of 1..6 steps: yisp allow with an entry (with *, regular expression syntax, YAML syntax, spaces, dashes), editing the config file by hand, and builds of programs with 1..3 exec.go expressions whose package an entry matches, nearly matches or does not match (config in HOME or given by --config, go is a stand-in that records what it gets); what runs, the result and the stored list are compared with a model; non-trivial: a package runs, or is refused while the list is not empty", func(c *C) {
		s := newStubs(c, "go")
		home := c.Dir()
		dir := c.Dir()
		cfg := filepath.Join(home, ".config", "yisp", "config.yaml")
		var pre []string
		if c.Chance(30, "own-config") {
			cfg = filepath.Join(home, pick(c, "cfg", "my.yaml", "conf.yml"))
			pre = []string{"--config", cfg}
		}
		env := append(s.env(), "HOME="+home, "XDG_CONFIG_HOME=")
		var list []string
		other := false
		byHand := func() {
			var es []*N
			list = nil
			n := c.Int(0, 3, "by-hand")
			long := c.Chance(8, "many")
			if long {
				n = c.Int(20, 60, "many-entries")
			}
			for i := n; i > 0; i-- {
				e := genEntry(c)
				if long {
					e = fmt.Sprintf("example.com/some/package-%d/cmd@v1.2.%d", i, i)
				}
				list = append(list, e)
				es = append(es, nStr(e))
			}
			l := nList(es...)
			l.Flow = len(es) == 0
			m := nMapOf(pick(c, "key", "AllowedGoPkgs", "allowedgopkgs", "allowedGoPkgs"), l)
			if other = c.Chance(40, "other-key"); other {
				m.Ents = append(m.Ents, &Ent{Key: "future", Val: nStr("kept")})
			}
			rel, _ := filepath.Rel(home, cfg)
			c.Write(home, map[string]string{rel: printDocs([]*N{m}, c.Seed("layout"), false)})
		}
		if c.Bool("config-exists") {
			byHand()
		}
		for step := c.Int(1, 6, "steps"); step > 0; step-- {
			switch c.Int(0, 3, "step") {
			case 0, 1:
				e := genEntry(c)
				args := append([]string{"allow"}, pre...)
				if strings.HasPrefix(e, "-") || c.Chance(20, "dashes") {
					args = append(args, "--")
				}
				args = append(args, e)
				c.Note("$ yisp %q", args)
				limit := -1
				if c.Chance(15, "disk-full") {
					limit = c.Int(0, 1, "KiB")
				}
				_, stderr, code := runLimited(c, limit, dir, "", env, args...)
				if code != 0 && limit < 0 {
					c.Violate("yisp allow failed: %s", stderr)
				}
				if code == 0 {
					list = append(list, e)
				} else {
					c.Class("allow-fails")
					c.Note("(the config can not be written)")
				}
				data, err := os.ReadFile(cfg)
				if err != nil && code != 0 && os.IsNotExist(err) && len(list) == 0 {
					continue
				}
				if err != nil {
					c.Violate("no config was written: %v", err)
				}
				var m map[string]any
				if err := upstream.Unmarshal(data, &m); err != nil {
					c.Violate("the config is not YAML: %v\n%s", err, data)
				}
				var stored []string
				found := false
				for k, v := range m {
					if strings.EqualFold(k, "AllowedGoPkgs") {
						l, ok := v.([]any)
						if !ok {
							c.Violate("the list is %T:\n%s", v, data)
						}
						found = true
						for _, x := range l {
							str, ok := x.(string)
							if !ok {
								c.Violate("the entry %v is %T:\n%s", x, x, data)
							}
							stored = append(stored, str)
						}
					}
				}
				if !found && (code == 0 || len(list) > 0) {
					c.Violate("no list in\n%s", data)
				}
				if fmt.Sprintf("%q", sorted(uniq(stored))) != fmt.Sprintf("%q", sorted(uniq(list))) {
					c.Violate("after allow %q the list is %q, want %q", e, stored, list)
				}
				if other && m["future"] != "kept" {
					c.Violate("another setting was lost:\n%s", data)
				}
			case 2:
				if c.Chance(30, "edit") {
					byHand()
					continue
				}
				fallthrough
			default:
				s.clear()
				in := newInterp()
				st := &execSite{name: "go", prog: genOutput(c, "go1")}
				st.out = printDocs(st.prog, c.Seed("layout"), false)
				if len(st.prog) == 0 {
					st.out = ""
				}
				if c.Chance(10, "fails") {
					st.exit = pick(c, "exit", "1", "2")
				}
				s.set("go", st.out, pick(c, "err", "", "go: downloading x\n"), st.exit)
				var docs []*N
				for i := c.Int(1, 3, "execs"); i > 0; i-- {
					p := ""
					if len(list) > 0 && c.Chance(85, "like") {
						p = likeEntry(c, list[c.Int(0, len(list)-1, "which")])
					} else {
						p = genPkg(c)
					}
					stars := strings.Contains(strings.Join(list, ""), "*")
					if !stars && c.Chance(10, "newline") {
						p = pick(c, "nl", p+"\n", p+"\nevil", "evil\n"+p, "\n"+p)
					}
					m := nMapOf("pkg", nStr(p))
					if c.Chance(60, "args") {
						l := nList()
						for j := c.Int(0, 3, "nargs"); j > 0; j-- {
							l.Items = append(l.Items, nStr(genArg(c)))
						}
						l.Flow = len(l.Items) == 0
						m.Ents = append(m.Ents, &Ent{Key: "args", Val: nQuote(l)})
					}
					if c.Chance(30, "stdin") {
						m.Ents = append(m.Ents, &Ent{Key: "stdin", Val: nStr(genStr(c, "stdin"))})
					}
					if c.Bool("as-string") {
						m.Ents = append(m.Ents, &Ent{Key: "asString", Val: nBool(true)})
					}
					if c.Chance(4, "bad-pkg") {
						m.Ents[0].Val = pick(c, "bad", nInt(1), nNull(), nQuote(nList(nStr("a"))))
					}
					if c.Chance(30, "value") {
						docs = append(docs, nMapOf("r", nYisp(nCall("exec.go", m))))
					} else {
						docs = append(docs, nYisp(nCall("exec.go", m)))
					}
				}
				main := filepath.Join(dir, "main.yisp")
				setFile(docs, main)
				c.Write(dir, map[string]string{"main.yisp": printDocs(docs, c.Seed("layout"), false)})
				c.Note("allowed: %q", list)
				var want []stubRun
				refused := false
				in.goAllowed = func(p string) bool {
					for _, e := range list {
						if starMatch(e, p) {
							return true
						}
					}
					refused = true
					return false
				}
				in.runsOf(map[string]*execSite{"go": st}, func() bool { return true }, &want)
				res, rerr, ok := refRun(in, docs, newEnv())
				if !ok {
					c.T.Skip("too long")
				}
				c.NonTrivialIf(len(want) > 0 || refused && len(list) > 0)
				c.ClassIf(refused, "refused")
				c.ClassIf(len(want) > 0, "ran")
				args := append([]string{"build", "main.yisp"}, pre...)
				if c.Chance(30, "allow-cmd") { // says nothing about packages
					args = append(args, "--allow-cmd")
				}
				stdout, stderr, code := runBin(c, dir, "\n\n\n\n", env, args...)
				got := s.runs()
				for i := range got {
					if i >= len(want) {
						c.Violate("go ran, but should not have: %s\nexpected runs: %v", got[i], want)
					}
					if got[i].String() != want[i].String() {
						c.Violate("run %d: got %s\nwant %s", i, got[i], want[i])
					}
				}
				if len(got) < len(want) {
					c.Violate("a package did not run: %s\n%s", want[len(got)], stderr)
				}
				if rerr != nil {
					if code == 0 || stdout != "" {
						c.Violate("exit %d, but %s\n%s", code, rerr.Msg, stdout)
					}
					continue
				}
				if code != 0 {
					c.Violate("exit %d: %s", code, stderr)
				}
				c.Expect(Out{Text: stdout}, res, nil, false)
			}
		}
	})
	sub(t, "matching", 2, "an engine with a list of 0..4 entries, or with no list at all, and a package that an entry matches, nearly matches or does not match; go is a stand-in; compared with a matcher; non-trivial: the list is not empty", func(c *C) {
		s := newStubs(c, "go")
		s.set("go", "ok: 1\n", "", "")
		old := os.Getenv("PATH")
		os.Setenv("PATH", s.bin()+":/usr/bin:/bin")
		defer os.Setenv("PATH", old)
		var list []string
		for i := c.Int(0, 4, "entries"); i > 0; i-- {
			list = append(list, genEntry(c))
		}
		p := genPkg(c)
		if len(list) > 0 && c.Chance(85, "like") {
			p = likeEntry(c, list[c.Int(0, len(list)-1, "which")])
		}
		want := false
		for _, e := range list {
			want = want || starMatch(e, p)
		}
		src := printDocs([]*N{nYisp(nCall("exec.go", nMapOf("pkg", nStr(p))))}, c.Seed("layout"), false)
		c.Note("%q\n%s", list, src)
		c.NonTrivialIf(len(list) > 0)
		c.ClassIf(want, "allowed")
		c.ClassIf(!want, "refused")
		o := c.guard("EvaluateReaderToYaml", func() Out {
			e := engine.NewEngine(engine.Options{})
			if len(list) > 0 || c.Bool("set") {
				e.SetOption("net.gammalab.yisp.exec.allowed_go_pkgs", list)
			}
			t, err := e.EvaluateReaderToYaml(strings.NewReader(src), memLoc)
			return Out{Text: t, Err: err}
		})
		n := len(s.runs())
		switch {
		case want && (o.Err != nil || n != 1):
			c.Violate("%q is allowed by %q, but ran %d times: %v", p, list, n, o.Err)
		case !want && (o.Err == nil || n > 0):
			c.Violate("%q is not allowed by %q, but ran %d times, error %v", p, list, n, o.Err)
		}
	})
}

func uniq(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}
