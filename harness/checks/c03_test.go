package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/totegamma/yisp/engine"
)

// strKeyed draws a map with several string keys and nested maps.
func strKeyed(c *C, d int) *V {
	m := newOMap()
	for i := c.Int(2, 8, "nkeys"); i > 0; i-- {
		k := genKey(c, "sk")
		if k == "<<" || k == "apiVersion" || k == "kind" || k == "$schema" || isTimestamp(k) {
			k = "z"
		}
		k = fmt.Sprintf("%s%d", k, c.Int(0, 9, "suffix"))
		if isTimestamp(k) {
			k = "z"
		}
		if d > 0 && c.Chance(40, "nest") {
			if c.Bool("in-list") {
				m.Set(k, vList(strKeyed(c, d-1)))
			} else {
				m.Set(k, strKeyed(c, d-1))
			}
		} else {
			m.Set(k, genScalarNoTime(c))
		}
	}
	return vMap(m)
}

func genScalarNoTime(c *C) *V {
	v := genScalar(c, "s")
	if v.K == VStr && isTimestamp(v.S) {
		return vStr("t")
	}
	if v.K == VFloat && (v.F != v.F || v.F > 1e300 || v.F < -1e300) {
		return vFloat(1.5)
	}
	return v
}

// native without NaN, as encoding/json understands it
func (v *V) jsonText() string {
	var b strings.Builder
	v.json(&b)
	return b.String()
}

func (v *V) json(b *strings.Builder) {
	switch v.K {
	case VList:
		b.WriteByte('[')
		for i, x := range v.L {
			if i > 0 {
				b.WriteString(", ")
			}
			x.json(b)
		}
		b.WriteByte(']')
	case VMap:
		b.WriteByte('{')
		for i, k := range v.M.keys {
			if i > 0 {
				b.WriteString(",\n ")
			}
			kb, _ := json.Marshal(k)
			b.Write(kb)
			b.WriteString(": ")
			v.M.m[k].json(b)
		}
		b.WriteByte('}')
	case VFloat:
		s := floatSrc(v.F)
		if strings.HasPrefix(s, ".") || strings.HasPrefix(s, "-.") {
			s = "0.5"
		}
		b.WriteString(s)
	default:
		x, _ := json.Marshal(v.native())
		b.Write(x)
	}
}

func runBin(c *C, dir string, stdin string, extraEnv []string, args ...string) (stdout, stderr string, code int) {
	return runLimited(c, -1, dir, stdin, extraEnv, args...)
}

// runLimited runs yisp so that no file can grow beyond some KiB (none with -1):
// the write that would is cut short and fails, as on a full disk, or ends the process.
func runLimited(c *C, limit int, dir string, stdin string, extraEnv []string, args ...string) (stdout, stderr string, code int) {
	bin := os.Getenv("YISP_BIN")
	if bin == "" {
		c.Harness("no yisp binary")
	}
	if limit >= 0 {
		args = append([]string{"-c", fmt.Sprintf(`ulimit -c 0; ulimit -f %d; exec "$0" "$@"`, limit), bin}, args...)
		bin = "/bin/bash"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	home := filepath.Join(outDir, "home")
	env := []string{"HOME=" + home, "PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8", "XDG_CONFIG_HOME=" + home + "/.config", "XDG_CACHE_HOME=" + home + "/.cache", "TMPDIR=" + outDir}
	cmd.Env = append(env, extraEnv...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Harness("yisp did not end within 120 s of wall time: %v", args)
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			if !x.Exited() {
				if limit >= 0 {
					return so.String(), se.String(), 2
				}
				c.Violate("yisp %v was killed: %v\n%s", args, err, se.String())
			}
			return so.String(), se.String(), x.ExitCode()
		}
		c.Harness("cannot run yisp: %v", err)
	}
	return so.String(), se.String(), 0
}

func TestC03(t *testing.T) {
	sub(t, "files", 1, "a program that uses included YAML/JSON files, globs, unmarshalled text, schema defaults, casts, merges (by a schema too), patches with wildcards, formatting and marshalling of maps with 2..8 keys at several depths; evaluated three times in one engine, in three more engines and now and then in two processes: all outputs must be the same bytes; non-trivial: the program succeeds with maps of two or more keys", func(c *C) {
		dir := c.Dir()
		files := map[string]string{}
		var docs []*N
		parts := c.Int(1, 4, "parts")
		for i := 0; i < parts; i++ {
			v := strKeyed(c, 2)
			lit := func() *N { return nLit(v) }
			switch c.Int(0, 12, "part") {
			case 10, 11: // lists merged as a schema says
				s, gen := genMergeSch(c, 1)
				ty := fmt.Sprintf("M%d", i)
				docs = append(docs, nYisp(nCall("schema", nLit(s.value())).anchored(ty)))
				call := nCall("maps.merge")
				for j := c.Int(2, 3, "typed"); j > 0; j-- {
					x := flowEmpty(nOf(gen()))
					x.Tag, x.Anchor = "!"+ty, fmt.Sprintf("t%d_%d", i, j)
					docs = append(docs, nList(x))
					call.Items = append(call.Items, nRef(x.Anchor))
				}
				docs = append(docs, nMapOf("merged", nYisp(call)))
			case 0:
				n := nOf(v)
				quoteTimestamps(n)
				files[fmt.Sprintf("d%d.yaml", i)] = printDocs([]*N{n}, c.Seed("l"), false)
				docs = append(docs, nMapOf("r", nYisp(nCall("include", nStr(fmt.Sprintf("d%d.yaml", i))))))
			case 1:
				files[fmt.Sprintf("d%d.json", i)] = v.jsonText()
				docs = append(docs, nYisp(nCall("include", nStr(fmt.Sprintf("d%d.json", i)))))
			case 2:
				for j := c.Int(2, 4, "nfiles"); j > 0; j-- {
					files[fmt.Sprintf("g%d/%s%d.json", i, pick(c, "fn", "a", "b", "z", "é"), j)] = strKeyed(c, 1).jsonText()
				}
				docs = append(docs, nYisp(nCall(pick(c, "glob", "include", "files.glob"), nStr(fmt.Sprintf("g%d/*.json", i)))))
			case 3:
				docs = append(docs, nYisp(nMapOf("u", nCall("yaml.unmarshal", nStr(v.jsonText())))))
			case 4:
				s, tv := genDefaults(c, 2)
				docs = append(docs, nYisp(nCall("schema", nLit(s.value())).anchored(fmt.Sprintf("T%d", i))))
				x := nOf(tv)
				x.Flow = true
				x.Tag = fmt.Sprintf("!T%d", i)
				docs = append(docs, nMapOf("cast", x))
			case 5:
				docs = append(docs, nYisp(nMapOf("m", nCall("maps.merge", lit(), nLit(strKeyed(c, 1)), nLit(overlay(c, v, 2))))))
			case 6:
				docs = append(docs, nYisp(nMapOf("p", nCall("maps.patch", lit(), nQuote(nList(nMapOf("op", nStr(pick(c, "op", "add", "replace")), "path", nStr("/*"), "value", nOf(strKeyed(c, 1)))))))))
			case 7:
				docs = append(docs, nYisp(nMapOf("f", nCall("strings.format", nStr(pick(c, "fmt", "%v", "%s %d", "%+v", "%#v")), lit(), nQuote(nList(nOf(v)))))))
			case 8:
				docs = append(docs, nYisp(nMapOf("y", nCall("yaml.marshal", lit()), "z", nCall("yaml.unmarshal", nCall("yaml.marshal", lit())))))
			case 9:
				docs = append(docs, nYisp(nMapOf("k", nCall("maps.keys", lit()), "e", nCall("maps.to-entries", lit()), "v", nCall("maps.values", lit()))))
			default:
				files[fmt.Sprintf("m%d.yisp", i)] = printDocs([]*N{nOf(v).anchored("v"), nYisp(nCall("include", nStr("any*.yaml"))).anchored("w")}, 0, false)
				if len(files) < 9 {
					files["any1.yaml"] = "b: 1\na: 2\nc: {z: 1, y: 2, x: 3}\n"
				}
				docs = append(docs, nYisp(nCall("import", nQuote(nList(nStr("m"), nStr(fmt.Sprintf("m%d.yisp", i)))))))
				docs[len(docs)-1].Items[1].Tag = ""
				docs = append(docs, nMapOf("v", nRef("m.v"), "w", nRef("m.w")))
			}
		}
		files["main.yisp"] = printDocs(docs, c.Seed("layout"), false)
		c.Write(dir, files)
		main := filepath.Join(dir, "main.yisp")
		opts := engine.Options{AllowUntypedManifest: true, RenderSources: c.Chance(20, "sources")}
		e1 := engine.NewEngine(opts)
		var first Out
		for i := 0; i < 6; i++ {
			e := e1
			if i >= 3 {
				e = engine.NewEngine(opts)
			}
			o := c.guard("EvaluateFileToYaml", func() Out { s, err := e.EvaluateFileToYaml(main); return Out{Text: s, Err: err} })
			if i == 0 {
				first = o
				continue
			}
			if (o.Err == nil) != (first.Err == nil) || o.Text != first.Text {
				c.Violate("evaluation %d differs:\n%s\n--- first ---\n%s", i, o, first)
			}
		}
		c.ClassIf(first.Err != nil, "fails")
		c.NonTrivialIf(first.Err == nil)
		if c.Chance(4, "process") {
			c.Class("processes")
			args := []string{"build", "--allow-untyped-manifest"}
			if opts.RenderSources {
				args = append(args, "--enable-sourcemap")
			}
			for i := 0; i < 2; i++ {
				so, _, code := runBin(c, dir, "", nil, append(args, "main.yisp")...)
				if (code == 0) != (first.Err == nil) || code == 0 && strings.TrimSpace(so) != strings.TrimSpace(first.Text) && !opts.RenderSources {
					c.Violate("process: exit %d, output\n%s\n--- in process ---\n%s", code, so, first)
				}
			}
		}
	})
	sub(t, "variables", 0.3, "host-supplied variables (nested maps and lists) used, merged and formatted by a program: four evaluations give the same bytes; non-trivial: a map with two or more keys", func(c *C) {
		v := strKeyed(c, 2)
		vars := map[string]any{"hv": v.native(), "other": strKeyed(c, 1).native()}
		src := "r: *hv\n---\ns: *other\n---\n!yisp\nm: [maps.merge, *hv, *other]\nk: [maps.keys, *other]\nf: [strings.format, '%v', *hv]\ny: [yaml.marshal, *hv]\n"
		c.Note("--- program ---\n%s--- hv ---\n%v", src, v)
		c.NonTrivial()
		e1 := engine.NewEngine(memOpts)
		var first Out
		for i := 0; i < 6; i++ {
			e := e1
			if i >= 3 {
				e = engine.NewEngine(memOpts)
			}
			o := c.guard("EvaluateBytesToYaml", func() Out {
				s, err := e.EvaluateBytesToYaml([]byte(src), vars)
				return Out{Text: s, Err: err}
			})
			if i == 0 {
				first = o
				if o.Err != nil {
					c.Violate("error: %s", errText(o.Err))
				}
				continue
			}
			if (o.Err == nil) != (first.Err == nil) || o.Text != first.Text {
				c.Violate("evaluation %d differs:\n%s\n--- first ---\n%s", i, o, first)
			}
		}
	})
	sub(t, "programs", 0.4, "random programs, five evaluations; non-trivial: the program succeeds", func(c *C) {
		g := newGen(c)
		if c.Chance(10, "with-errors") {
			g.errs = 15
		}
		docs := g.program(4, 4)
		src := printDocs(docs, c.Seed("layout"), false)
		in := newInterp()
		_, _, ok := refRun(in, docs, newEnv())
		if !ok {
			c.T.Skip("too long")
		}
		first := c.Eval(src)
		c.NonTrivialIf(first.Err == nil)
		for i := 0; i < 4; i++ {
			o := c.EvalOpt(src, memLoc, memOpts)
			if (o.Err == nil) != (first.Err == nil) || o.Text != first.Text || o.Err != nil && errText(o.Err) != errText(first.Err) {
				c.Violate("evaluation %d differs:\n%s\n--- first ---\n%s", i, o, first)
			}
		}
	})
}

// genDefaults draws an object schema with many defaults, and a value to cast.
func genDefaults(c *C, d int) (*Sch, *V) {
	s := &Sch{Type: "object", Props: map[string]*Sch{}}
	m := newOMap()
	for i := c.Int(2, 6, "props"); i > 0; i-- {
		k := fmt.Sprintf("%s%d", pick(c, "pn", "a", "b", "z", "m"), i)
		var p *Sch
		switch c.Int(0, 3, "pk") {
		case 0:
			p = &Sch{Type: "string", Default: vStr(words[c.Int(0, len(words)-1, "dw")])}
		case 1:
			p = &Sch{Type: "integer", Default: vInt(int64(c.Int(0, 9, "di")))}
		case 2:
			p = &Sch{Type: "object", Addl: 2, Default: strKeyed(c, 1)}
		default:
			if d > 0 {
				p, _ = genDefaults(c, d-1)
			} else {
				p = &Sch{Type: "boolean", Default: vBool(true)}
			}
		}
		s.PropNames = append(s.PropNames, k)
		s.Props[k] = p
		if c.Chance(20, "present") && p.Type == "string" {
			m.Set(k, vStr("given"))
		}
	}
	return s, vMap(m)
}
