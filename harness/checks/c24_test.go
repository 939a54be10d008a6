package checks

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
)

// jsonValue reads one JSON document, keeping numbers exact.
func jsonValue(text string) (*V, string) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return nil, err.Error()
	}
	var more any
	if err := d.Decode(&more); err != io.EOF {
		return nil, "more than one document"
	}
	v, ok := fromJSON(x)
	if !ok {
		return nil, "a number is out of range"
	}
	return v, ""
}

func fromJSON(x any) (*V, bool) {
	switch x := x.(type) {
	case nil:
		return vNull(), true
	case bool:
		return vBool(x), true
	case string:
		return vStr(x), true
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return vInt(i), true
		}
		f, err := x.Float64()
		return vFloat(f), err == nil
	case []any:
		l := vList()
		for _, y := range x {
			v, ok := fromJSON(y)
			if !ok {
				return nil, false
			}
			l.L = append(l.L, v)
		}
		return l, true
	case map[string]any:
		m := newOMap()
		for k, y := range x {
			v, ok := fromJSON(y)
			if !ok {
				return nil, false
			}
			m.Set(k, v)
		}
		return vMap(m), true
	}
	return nil, false
}

// asJSON is the value as JSON can hold it: it has one kind of number.
func (v *V) asJSON() (*V, bool) {
	switch v.K {
	case VFloat:
		if math.IsNaN(v.F) || math.IsInf(v.F, 0) {
			return nil, false
		}
		if v.F == math.Trunc(v.F) {
			if i, err := strconv.ParseInt(strconv.FormatFloat(v.F, 'f', -1, 64), 10, 64); err == nil { // the shortest text that reads back as it
				return vInt(i), true
			}
		}
		return v, true
	case VList:
		l := vList()
		for _, x := range v.L {
			if x.K == VLam || x.K == VType {
				continue
			}
			y, ok := x.asJSON()
			if !ok {
				return nil, false
			}
			l.L = append(l.L, y)
		}
		return l, true
	case VMap:
		m := newOMap()
		for _, k := range v.M.keys {
			x := v.M.m[k]
			if x.K == VLam || x.K == VType {
				continue
			}
			y, ok := x.asJSON()
			if !ok {
				return nil, false
			}
			m.Set(k, y)
		}
		return vMap(m), true
	}
	return v, true
}

// normNums applies asJSON's view of numbers to what was read.
func normNums(v *V) *V {
	w, ok := v.asJSON()
	if !ok {
		return v
	}
	return w
}

func TestC24(t *testing.T) {
	sub(t, "builds", 1, "yisp build of projects (programs with modules and includes, plain YAML, JSON and text files, directories with index.yisp, standard input, missing paths), many failing, at times in their last document or while printing, in the default format, -o yaml, -o json and unknown formats, started from several directories; exit code, standard output and standard error are compared with a reference interpreter and with the engine; non-trivial: always", func(c *C) {
		c.NonTrivial()
		dir := c.Dir()
		p := newProject(c, dir)
		var want []*V
		fails := false
		how := ""
		arg := ""
		stdin := ""
		where := dir
		engineSrc := "" // what the engine is asked, "" for none
		switch c.Int(0, 9, "source") {
		case 0, 1, 2, 3, 4: // a program
			errs := c.Chance(30, "with-errors")
			few := c.Chance(40, "few-docs")
			p = genProject(c, dir, func(g *gen) {
				if errs {
					g.errs = 12
				}
			})
			main := p.progs["main.yisp"]
			if few { // one document
				main = []*N{main[len(main)-1]}
				if c.Chance(60, "plain-doc") {
					main = []*N{nOf(plainDoc(c, 2))}
					quoteTimestamps(main[0])
				}
			}
			if c.Chance(25, "value-doc") {
				main = append(main, pick(c, "doc", nStr("s"), nInt(7), nBool(false), nQuote(nList(nInt(1), nStr("a"))), nFloat(1e300), nFloat(0.1), nMapOf("a", nFloat(2)), nNull()))
			}
			if c.Chance(15, "late-error") {
				main = append(main, pick(c, "late", nRef("undefined-name"), nMapOf("x", nYisp(nCall("no.such", nInt(1)))), nYisp(nCall("error", nStr("stop")))))
			}
			if c.Chance(7, "not-a-number") {
				if c.Chance(70, "only") {
					main = nil
				}
				main = append(main, nMapOf("ok", nInt(1), "n", pick(c, "nan", nFloat(1.5), nFloat(math.Inf(1)), nFloat(math.NaN()), nFloat(math.Inf(-1)))))
			}
			name := "main.yisp"
			if c.Chance(20, "index") {
				name = pick(c, "index-dir", "site/index.yisp", "index.yisp")
				if name != "index.yisp" { // references are relative to the file
					main = []*N{nOf(plainDoc(c, 2))}
					quoteTimestamps(main[0])
				}
			}
			delete(p.progs, "main.yisp")
			var order []string
			for _, f := range p.order {
				if f != "main.yisp" {
					order = append(order, f)
				}
			}
			p.order = append(order, name)
			p.progs[name] = main
			setFile(main, p.abs(name))
			p.finish()
			arg = name
			if strings.HasSuffix(name, "index.yisp") {
				arg = pick(c, "index-arg", filepath.Dir(name), filepath.Dir(name)+"/", name)
			}
			res, rerr, ok := refRun(p.in, main, newEnv())
			if !ok {
				c.T.Skip("too long")
			}
			want, fails = res, rerr != nil
			how = "program"
			engineSrc = p.abs(name)
			if name == "main.yisp" && c.Chance(25, "stdin") {
				arg = "-"
				stdin = p.files[name]
				how = "stdin"
			}
		case 5: // plain YAML
			n := c.Int(1, 3, "docs")
			var ds []*V
			for i := 0; i < n; i++ {
				ds = append(ds, plainDoc(c, 2))
			}
			arg = pick(c, "data-file", "d.yaml", "d.yml")
			p.addData(arg, ds)
			p.finish()
			want, how = ds, "yaml"
			engineSrc = p.abs(arg)
		case 6:
			ds := []*V{plainDoc(c, 2)}
			arg = "d.json"
			p.addData(arg, ds)
			if c.Chance(20, "broken") {
				p.files[arg] += pick(c, "tail", "x", "}", "{}")
				fails = true
			}
			p.finish()
			want, how = ds, "json"
			engineSrc = p.abs(arg)
		case 7:
			s := genStr(c, "text")
			arg = pick(c, "text-file", "t.txt", "noext", "t.md")
			p.files[arg] = s
			p.finish()
			want, how = []*V{vStr(s)}, "text"
			engineSrc = p.abs(arg)
		case 8: // a program with broken syntax somewhere
			docs := printDocs([]*N{nMapOf("a", nInt(1)), nMapOf("b", nInt(2))}, c.Seed("layout"), false)
			arg = "broken.yisp"
			p.files[arg] = docs + "\n---\n" + pick(c, "syntax", "[1,\n", "a: b: c\n", "\"open\n", "\t- x\n", "a: 1\n b: 2\n", "%BAD\n", "- 1\nb: 2\n")
			p.finish()
			fails, how = true, "syntax"
			engineSrc = p.abs(arg)
			if c.Bool("stdin") {
				arg, stdin = "-", p.files[arg]
			}
		default:
			p.files["x/readme"] = "nothing"
			p.finish()
			arg = pick(c, "missing", "nope.yisp", "x", "x/nope/index.yisp", "nope/", "x/readme/y")
			fails, how = true, "missing"
		}
		var args []string
		format := ""
		switch c.Int(0, 7, "format") {
		case 0:
			args = []string{"-o", "yaml"}
		case 1, 2, 3:
			format = "json"
			args = [][]string{{"-o", "json"}, {"--output=json"}, {"-ojson"}}[c.Int(0, 2, "spelling")]
		case 4:
			if c.Chance(30, "unknown-format") {
				format = "unknown"
				args = []string{"-o", pick(c, "fmt", "xml", "JSON", "", "yml", "yaml ")}
				fails = true
			}
		}
		if arg != "-" && !fails || arg != "-" && how == "program" {
			switch c.Int(0, 3, "cwd") {
			case 0:
				arg = filepath.Join(dir, arg)
				where = c.Dir()
			case 1:
				where = c.Dir()
				arg, _ = filepath.Rel(where, filepath.Join(dir, arg))
			}
		}
		args = append([]string{"build"}, append(args, "--allow-untyped-manifest", arg)...)
		c.Note("$ cd %s; yisp %q", where, args)
		vis := visibleDocs(want)
		var jwant *V
		wasFailing := fails
		if format == "json" && !fails {
			if len(vis) != 1 {
				fails = true
				c.Class("json of several or no documents")
			} else if w, ok := vis[0].asJSON(); !ok {
				fails = true
				c.Class("json of infinities")
			} else {
				jwant = w
			}
		}
		c.ClassIf(fails, how+"/fails")
		c.ClassIf(!fails, how+"/succeeds "+format)

		// a full disk can not hold the result
		if !fails && len(vis) > 0 && c.Chance(8, "full") {
			full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				c.Harness("%v", err)
			}
			defer full.Close()
			cmd := exec.Command(os.Getenv("YISP_BIN"), args...)
			cmd.Dir, cmd.Stdin, cmd.Stdout = where, strings.NewReader(stdin), full
			cmd.Env = []string{"HOME=" + filepath.Join(outDir, "home")}
			err = cmd.Run()
			if _, ok := err.(*exec.ExitError); !ok && err != nil {
				c.Harness("%v", err)
			}
			if err == nil {
				c.Violate("exit 0, but nothing could be written")
			}
		}
		stdout, stderr, code := runBin(c, where, stdin, nil, args...)
		if fails {
			if code == 0 {
				c.Violate("exit 0 although it fails (reference: %d documents, error %v)\n%s", len(vis), wasFailing, stdout)
			}
			if stdout != "" {
				c.Violate("exit %d, but printed %q", code, stdout)
			}
			if stderr == "" {
				c.Violate("exit %d without a message", code)
			}
			return
		}
		if code != 0 {
			c.Violate("exit %d: %s", code, stderr)
		}
		if format == "json" {
			v, bad := jsonValue(stdout)
			if v == nil {
				c.Violate("not JSON: %s\n%s", bad, stdout)
			}
			if d := diff(jwant, normNums(v), "", false); d != "" {
				c.Violate("wrong JSON: %s\n--- expected ---\n%v\n--- got ---\n%s", d, jwant, stdout)
			}
			return
		}
		got := c.Docs(Out{Text: stdout})
		if d := diffDocs(vis, got, false); d != "" {
			c.Violate("wrong result: %s\n--- expected ---\n%v\n--- got ---\n%s", d, vis, stdout)
		}
		o := c.EvalFile(engineSrc, memOpts)
		if o.Err != nil || strings.TrimRight(o.Text, "\n") != strings.TrimRight(stdout, "\n") {
			c.Violate("the engine gives\n%s %v\nbut yisp printed\n%s", o.Text, o.Err, stdout)
		}
	})
	sub(t, "large", 0.03, "results of 0.1 to 3 MB, printed to a pipe whose reader is slow to start, in both formats: all of it arrives; non-trivial: always", func(c *C) {
		c.NonTrivial()
		dir := c.Dir()
		n := c.Int(2000, 40000, "items")
		m := vList()
		for i := 0; i < n; i++ {
			m.L = append(m.L, vMapOf("i", vInt(int64(i)), "text", vStr("some text that makes the result large")))
		}
		c.Write(dir, map[string]string{"d.json": vMapOf("l", m).jsonText()})
		c.desc = nil
		c.Note("d.json with %d items", n)
		format := pick(c, "format", "yaml", "json")
		cmd := exec.Command(os.Getenv("YISP_BIN"), "build", "-o", format, "d.json")
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + filepath.Join(outDir, "home")}
		r, w, err := os.Pipe()
		if err != nil {
			c.Harness("%v", err)
		}
		cmd.Stdout = w
		if err := cmd.Start(); err != nil {
			c.Harness("%v", err)
		}
		w.Close()
		var b bytes.Buffer
		if _, err := io.Copy(&b, r); err != nil {
			c.Harness("%v", err)
		}
		r.Close()
		if err := cmd.Wait(); err != nil {
			c.Violate("failed: %v", err)
		}
		var got *V
		if format == "json" {
			got, _ = jsonValue(b.String())
		} else if ds := c.Docs(Out{Text: b.String()}); len(ds) == 1 {
			got = ds[0]
		}
		if got == nil {
			c.Violate("incomplete: %d bytes", b.Len())
		}
		if d := diff(vMapOf("l", m), got, "", false); d != "" {
			c.Violate("wrong result: %s", d)
		}
	})
}
