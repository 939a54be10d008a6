package checks

// Stand-ins for external commands. They record their arguments and input and
// print what the case prescribes.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

const stubScript = `#!/bin/sh
d="${0%/*}"
n="${0##*/}"
i=0
while ! mkdir "$d/../runs/$i" 2>/dev/null; do i=$((i+1)); [ $i -gt 200 ] && exit 99; done
r="$d/../runs/$i"
printf '%s' "$n" > "$r/name"
for a in "$@"; do printf '%s\0' "$a"; done > "$r/args"
cat > "$r/in"
b="$d/../spec/$n"
if [ -d "$b.each" ]; then b="$b.each/$1"; fi
cat "$b.out"
cat "$b.err" >&2 2>/dev/null
x=$(cat "$b.exit" 2>/dev/null)
if [ "$x" = kill ]; then kill -9 $$; fi
exit ${x:-0}
`

type stubRun struct {
	name, in string
	args     []string
}

func (r stubRun) String() string { return fmt.Sprintf("%s %q <%q", r.name, r.args, r.in) }

// stubs is a directory of stand-ins: bin/ holds the commands.
type stubs struct {
	c   *C
	dir string
}

func newStubs(c *C, names ...string) *stubs {
	s := &stubs{c, c.Dir()}
	sh := filepath.Join(outDir, "stub.sh")
	if _, err := os.Stat(sh); err != nil {
		if err := os.WriteFile(sh, []byte(stubScript), 0o755); err != nil {
			c.Harness("%v", err)
		}
	}
	for _, d := range []string{"bin", "runs", "spec"} {
		if err := os.Mkdir(filepath.Join(s.dir, d), 0o755); err != nil {
			c.Harness("%v", err)
		}
	}
	for _, n := range names {
		s.add(n)
	}
	return s
}

func (s *stubs) add(n string) {
	if err := os.Symlink(filepath.Join(outDir, "stub.sh"), filepath.Join(s.bin(), n)); err != nil {
		s.c.Harness("%v", err)
	}
	s.set(n, "", "", "")
}

func (s *stubs) bin() string { return filepath.Join(s.dir, "bin") }

// set prescribes what a command prints and how it ends.
func (s *stubs) set(n, out, errs, exit string) {
	s.c.Write(filepath.Join(s.dir, "spec"), map[string]string{n + ".out": out, n + ".err": errs, n + ".exit": exit})
}

func (s *stubs) env() []string {
	return []string{"PATH=" + s.bin() + ":/usr/bin:/bin"}
}

// runs lists what ran, in order.
func (s *stubs) runs() []stubRun {
	var out []stubRun
	for i := 0; ; i++ {
		d := filepath.Join(s.dir, "runs", fmt.Sprint(i))
		n, err := os.ReadFile(filepath.Join(d, "name"))
		if err != nil {
			return out
		}
		a, err := os.ReadFile(filepath.Join(d, "args"))
		if err != nil {
			s.c.Harness("%v", err)
		}
		in, err := os.ReadFile(filepath.Join(d, "in"))
		if err != nil {
			s.c.Harness("%v", err)
		}
		r := stubRun{name: string(n), in: string(in)}
		for len(a) > 0 {
			arg, rest, _ := strings.Cut(string(a), "\x00")
			r.args = append(r.args, arg)
			a = []byte(rest)
		}
		out = append(out, r)
	}
}

func (s *stubs) clear() {
	for i := range s.runs() {
		if err := os.RemoveAll(filepath.Join(s.dir, "runs", fmt.Sprint(i))); err != nil {
			s.c.Harness("%v", err)
		}
	}
}
