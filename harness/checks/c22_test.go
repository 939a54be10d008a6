package checks

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/totegamma/yisp/engine"
)

func init() {
	for _, op := range []string{"exec.cmd", "exec.go"} {
		refOps[op] = func(in *Interp, a []*V, nodes []*N, env *Env) (*V, *evalErr) {
			if in.exec == nil || len(a) != 1 || a[0].K != VMap {
				return nil, fail(litNode(nodes, 0), "%s: not a map", op)
			}
			return in.exec(op, a[0], nodes, env)
		}
	}
}

func genArg(c *C) string {
	if c.Chance(50, "tricky-arg") {
		return pick(c, "arg", "$HOME", "$(touch pwned)", "`touch pwned`", "; touch pwned", "a b", " lead", "*", "?", "~", "-rf", "--help", "-", "--", "", "'", "\"", "a\nb", "\n", "\\", "\\n", "%s", "${PATH}", "&& touch pwned", "| cat", "> pwned", "$1", "!x", "#c", "é日", "a=b", "\t", "{a,b}", "[x]", "<in", "a'b\"c", "x\\", "\x7f")
	}
	return strings.ReplaceAll(genStr(c, "arg"), "\x00", "0")
}

// execSite is one place in a program where a command is run.
type execSite struct {
	name     string
	out, err string
	exit     string
	prog     []*N
	asString bool
}

// genSite draws a command: what it is given and what it does.
func genSite(c *C, s *stubs, name string) (*execSite, *N) {
	st := &execSite{name: name}
	s.add(name)
	m := nMapOf("cmd", nStr(name))
	put := func(k string, v *N) { m.Ents = append(m.Ents, &Ent{Key: k, Val: v}) }
	if c.Chance(15, "by-path") {
		m.Ents[0].Val = nStr(filepath.Join(s.bin(), name))
	}
	if c.Chance(80, "args") {
		l := nList()
		for i := c.Int(0, 4, "nargs"); i > 0; i-- {
			l.Items = append(l.Items, nStr(genArg(c)))
		}
		l.Flow = len(l.Items) == 0
		put("args", nQuote(l))
	}
	if c.Chance(40, "stdin") {
		in := genStr(c, "stdin") + pick(c, "stdin-end", "", "\n", "\n\n", "\ny\n")
		if c.Chance(5, "stdin-big") {
			in = strings.Repeat(in+"x", 20000)
		}
		put("stdin", nStr(in))
	}
	st.asString = c.Bool("as-string")
	if st.asString || c.Bool("as-string-false") {
		put("asString", nBool(st.asString))
	}
	if st.asString {
		st.out = genStr(c, "out") + pick(c, "out-end", "", "\n", "\n\n", " ", "\r\n")
		if c.Chance(5, "out-big") {
			st.out = strings.Repeat(st.out+"0123456789", 10000)
		}
	} else {
		st.prog = genOutput(c, name)
		st.out = printDocs(st.prog, c.Seed("layout"), false)
		if len(st.prog) == 0 {
			st.out = pick(c, "no-docs", "", "\n", "# nothing\n", "null\n")
		}
		if c.Chance(4, "broken-output") {
			st.prog, st.out = nil, st.out+"\n---\n[1,\n"
			st.exit = "broken"
		}
	}
	if c.Chance(25, "stderr") {
		st.err = "warning: " + name + "\n"
	}
	if c.Chance(10, "fails") && st.exit == "" {
		st.exit = pick(c, "exit", "1", "2", "127", "kill")
	}
	s.set(name, st.out, st.err, strings.TrimPrefix(st.exit, "broken"))
	if c.Chance(7, "malformed") { // never started
		switch c.Int(0, 6, "how") {
		case 0:
			m.Ents[0].Val = nInt(1)
		case 1:
			put("args", nQuote(nList(nStr("a"), nInt(1))))
		case 2:
			put("args", nStr("a"))
		case 3:
			m.Ents = m.Ents[1:]
			if len(m.Ents) == 0 {
				put("x", nInt(1))
			}
		case 4:
			m.Ents[0].Val = nStr(name + " a")
		case 5:
			m.Ents[0].Val = nStr(pick(c, "missing-cmd", "no-such-command", "", "./"+name, "no/such/"+name, name+";"))
		default:
			put("stdin", nInt(1))
		}
		seen := map[string]int{}
		var es []*Ent
		for _, e := range m.Ents {
			if i, ok := seen[e.Key]; ok {
				es[i] = e
				continue
			}
			seen[e.Key] = len(es)
			es = append(es, e)
		}
		m.Ents = es
	}
	return st, m
}

// genOutput draws the program that a command prints.
func genOutput(c *C, name string) []*N {
	var ds []*N
	for i := c.Int(0, 3, "out-docs"); i > 0; i-- {
		switch c.Int(0, 5, "out-doc") {
		case 0:
			ds = append(ds, nMapOf("from", nStr(name), "sum", nYisp(nCall("+", nInt(1), nInt(2)))))
		case 1:
			ds = append(ds, nYisp(nCall("lists.as-toplevel", nQuote(nList(nInt(1), nInt(2))))))
		case 2:
			n := nOf(strKeyed(c, 1))
			quoteTimestamps(n)
			ds = append(ds, n)
		case 3:
			ds = append(ds, nQuote(nList(nStr(name), nInt(1))))
		case 4:
			ds = append(ds, nStr(name), nNull())
		default:
			ds = append(ds, nMapOf("v", nStr(name).anchored("v-"+name[len(name)-1:])), nMapOf("w", nRef("v-"+name[len(name)-1:])))
		}
	}
	return ds
}

// hook lets the reference run the commands; it notes what it ran.
func (in *Interp) runsOf(sites map[string]*execSite, confirmed func() bool, want *[]stubRun) {
	in.exec = func(op string, m *V, nodes []*N, env *Env) (*V, *evalErr) {
		at := litNode(nodes, 0)
		bad := func(s string) (*V, *evalErr) { return nil, fail(at, "%s: %s", op, s) }
		r := stubRun{}
		x, _ := m.M.Get("cmd")
		if op == "exec.go" {
			x, _ = m.M.Get("pkg")
		}
		if x == nil || x.K != VStr {
			return bad("no command")
		}
		cmd := x.S
		if op == "exec.go" {
			r.name = "go"
			r.args = []string{"run", cmd}
		} else {
			r.name = filepath.Base(cmd)
		}
		if a, ok := m.M.Get("args"); ok {
			if a.K != VList {
				return bad("args")
			}
			for _, v := range a.L {
				if v.K != VStr {
					return bad("args")
				}
				r.args = append(r.args, v.S)
			}
		}
		if v, ok := m.M.Get("stdin"); ok {
			if v.K != VStr {
				return bad("stdin")
			}
			r.in = v.S
		}
		as := false
		if v, ok := m.M.Get("asString"); ok {
			if v.K != VBool {
				return bad("asString")
			}
			as = v.B
		}
		if op == "exec.cmd" && !confirmed() {
			return bad("not confirmed")
		}
		if op == "exec.go" {
			if !in.goAllowed(cmd) {
				return bad("not allowed")
			}
			cmd = "go"
		}
		st := sites[cmd]
		if st == nil {
			return bad("no such command")
		}
		*want = append(*want, r)
		if st.exit != "" {
			return bad("failed")
		}
		if as {
			return vStr(st.out), nil
		}
		file := ""
		if at != nil {
			file = at.File
		}
		setFile(st.prog, file)
		if st.prog == nil && st.asString {
			panic("asString site without the flag")
		}
		docs, err := in.Run(st.prog, env)
		if err != nil {
			return nil, err
		}
		return &V{K: VList, Doc: true, L: docs}, nil
	}
}

func TestC22(t *testing.T) {
	sub(t, "runs", 1, "programs (files, included and imported files, functions called several times, branches not taken, standard input) with 1..4 exec.cmd expressions whose arguments and input hold shell syntax, spaces, line breaks and options; the commands are stand-ins that record what they get; with --allow-cmd or with 0..6 confirmations on standard input; what ran, with what, in what order, and the result are compared with a reference; non-trivial: a command runs, or one is not confirmed", func(c *C) {
		s := newStubs(c)
		dir := c.Dir()
		in := newInterp()
		in.fs, in.globs = map[string]*FSFile{}, map[string][]string{}
		files := map[string]string{}
		sites := map[string]*execSite{}
		main := filepath.Join(dir, "main.yisp")
		viaStdin := c.Chance(20, "program-on-stdin")
		if viaStdin {
			main = filepath.Join(dir, "<stdin>")
		}
		var docs []*N
		addFile := func(f string, ds []*N) {
			abs := filepath.Join(dir, f)
			setFile(ds, abs)
			in.fs[abs] = &FSFile{Prog: ds}
			files[f] = printDocs(ds, c.Seed("layout"), false)
		}
		for i := c.Int(1, 4, "sites"); i > 0; i-- {
			name := fmt.Sprintf("c%d", i)
			if c.Chance(10, "odd-name") {
				name = pick(c, "odd", "c d", "c;e", "c$HOME", "-c") + fmt.Sprint(i)
			}
			st, m := genSite(c, s, name)
			sites[name] = st
			sites[filepath.Join(s.bin(), name)] = st
			e := nCall("exec.cmd", m)
			switch c.Int(0, 10, "place") {
			case 0, 1:
				docs = append(docs, nYisp(e))
			case 2, 3:
				docs = append(docs, nMapOf("r", nYisp(e)))
			case 4:
				docs = append(docs, nMapOf("r", nYisp(nCall("if", nBool(c.Bool("cond")), e, nStr("not run")))))
			case 5:
				docs = append(docs, nMapOf("r", nYisp(nCall("lists.map", nQuote(nList(nInt(1), nInt(2))), nCall("lambda", nList(nStr("p")), e)))))
			case 6:
				f := fmt.Sprintf("f%d", i)
				docs = append(docs, nYisp(nCall("lambda", nList(), e)).anchored(f))
				for j := c.Int(0, 2, "calls"); j > 0; j-- {
					docs = append(docs, nMapOf("r", nYisp(nList(nRef(f)))))
				}
			case 7:
				f := fmt.Sprintf("inc%d.yisp", i)
				addFile(f, []*N{nYisp(e)})
				docs = append(docs, nYisp(nCall("include", nStr("./"+f))))
			case 8:
				f := fmt.Sprintf("mod%d.yisp", i)
				addFile(f, []*N{nYisp(e), nInt(1).anchored("one")})
				docs = append(docs, nYisp(nCall("import", nList(nStr(fmt.Sprintf("m%d", i)), nStr(f)))))
			case 9: // a quoted expression does nothing
				docs = append(docs, nMapOf("r", nQuote(nList(nStr("exec.cmd"), m))))
			default:
				docs = append(docs, nMapOf("a", nInt(1), "b", nMapOf("r", nYisp(nCall("lists.cons", nInt(0), nCall("lists.cons", e, nQuote(nList(nInt(1))))))), "c", nInt(2)))
			}
		}
		if c.Chance(50, "trailer") {
			for i := c.Int(1, 60, "trailing-docs"); i > 0; i-- {
				docs = append(docs, nMapOf("trailer", nInt(int64(i)), "text", nStr("some more text so that the program is long\n")))
			}
		}
		setFile(docs, main)
		src := printDocs(docs, c.Seed("layout"), c.Chance(10, "noise"))
		files["main.yisp"] = src
		c.Write(dir, files)
		allow := c.Chance(60, "allow-cmd")
		n := 0
		stdin := ""
		if !allow {
			n = c.Int(0, 6, "confirmations")
			stdin = strings.Repeat("\n", n)
		} else {
			stdin = pick(c, "other-stdin", "", "\n", "unrelated\n")
		}
		arg := pick(c, "source", "main.yisp", main, "./main.yisp")
		if viaStdin {
			arg, stdin, n = "-", src, 0
		}
		c.Note("allow-cmd=%v, standard input: %.60q", allow, stdin)
		var want []stubRun
		refused := false
		in.runsOf(sites, func() bool {
			if allow {
				return true
			}
			n--
			refused = refused || n < 0
			return n >= 0
		}, &want)
		res, rerr, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		args := []string{"build", arg}
		if allow {
			args = append(args, pick(c, "flag", "--allow-cmd", "--allow-cmd=true"))
		} else if c.Chance(20, "explicit-no") {
			args = append(args, "--allow-cmd=false")
		}
		stdout, stderr, code := runBin(c, dir, stdin, s.env(), args...)
		got := s.runs()
		c.NonTrivialIf(len(want) > 0 || refused)
		c.ClassIf(refused, "not confirmed")
		c.ClassIf(rerr == nil && len(want) > 0 && allow, "ran, allowed")
		c.ClassIf(rerr == nil && len(want) > 0 && !allow, "ran, confirmed")
		c.ClassIf(rerr != nil && !refused, "error")
		for i := range got {
			if i >= len(want) {
				c.Violate("a command ran that should not have: %s\nexpected runs: %v", got[i], want)
			}
			w := want[i]
			if got[i].name != w.name || got[i].in != w.in || strings.Join(got[i].args, "\x00") != strings.Join(w.args, "\x00") || len(got[i].args) != len(w.args) {
				c.Violate("run %d: got %s\nwant %s", i, got[i], w)
			}
		}
		if len(got) < len(want) {
			c.Violate("a command did not run: %s\n%s", want[len(got)], stderr)
		}
		if rerr != nil {
			if code == 0 {
				c.Violate("exit 0, but %s\n%s", rerr.Msg, stdout)
			}
			if stdout != "" {
				c.Violate("failed, but printed %q", stdout)
			}
			return
		}
		if code != 0 {
			c.Violate("exit %d: %s", code, stderr)
		}
		c.Expect(Out{Text: stdout}, res, nil, false)
	})
	sub(t, "engines", 0.4, "2..4 engines in one process with the option to run commands set to yes, to no, or not at all, before or between evaluations; programs with a command evaluated on them in any order without any confirmation: commands run on the engines that allow it and on no other; non-trivial: some ran and some were refused", func(c *C) {
		s := newStubs(c, "c0")
		s.set("c0", "ok\n", "", "")
		null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
		if err != nil {
			c.Harness("%v", err)
		}
		oldIn, oldErr := os.Stdin, os.Stderr
		os.Stdin, os.Stderr = null, null
		defer func() { os.Stdin, os.Stderr = oldIn, oldErr; null.Close() }()
		type eng interface {
			SetOption(string, any)
			EvaluateReaderToYaml(io.Reader, string) (string, error)
		}
		var engines []eng
		for i := c.Int(2, 4, "engines"); i > 0; i-- {
			engines = append(engines, engine.NewEngine(memOpts))
		}
		allowed := make([]bool, len(engines))
		ran, refused := 0, 0
		for i := c.Int(2, 8, "steps"); i > 0; i-- {
			j := c.Even(len(engines), "engine")
			if c.Bool("set") {
				allowed[j] = c.Bool("allow")
				engines[j].SetOption("net.gammalab.yisp.exec.allow_cmd", allowed[j])
				c.Note("engine %d: allowed is %v", j, allowed[j])
				continue
			}
			s.clear()
			m := nMapOf("cmd", nStr(filepath.Join(s.bin(), "c0")), "args", nQuote(nList(nStr(fmt.Sprint(i)))), "asString", nBool(true))
			text, err := engines[j].EvaluateReaderToYaml(strings.NewReader(printDocs([]*N{nMapOf("r", nYisp(nCall("exec.cmd", m)))}, c.Seed("layout"), false)), memLoc)
			runs := s.runs()
			c.Note("engine %d: %q, %v, ran %v", j, text, err, runs)
			switch {
			case allowed[j]:
				ran++
				if err != nil || len(runs) != 1 || !strings.Contains(text, "ok") {
					c.Violate("engine %d allows commands, but: %v, ran %v, %q", j, err, runs, text)
				}
			default:
				refused++
				if err == nil || len(runs) > 0 {
					c.Violate("engine %d does not allow commands and nobody confirmed, but ran %v, %q", j, runs, text)
				}
			}
		}
		c.NonTrivialIf(ran > 0 && refused > 0)
	})
}
