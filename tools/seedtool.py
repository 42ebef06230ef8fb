#!/usr/bin/env python3
"""Development tool: builds /verif/seeded/<id>/ from the definitions in tools/seeds.py.
   seedtool.py make ID...|all      build, test, write the folder when everything is confirmed
   seedtool.py run ID... [-t]      run the property's quick check against the bug (in /repo)"""
import json, os, subprocess, sys, shutil, re, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
ENV = ". /opt/vp/env.sh 2>/dev/null; "

SCRIPT_MAIN = r'''package main

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
)

type emitCmd struct{ out *string }

func display(v any) string {
	switch v := v.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, display)
	case core.DictionaryValue:
		return fmt.Sprint("{", len(v.Map), "}")
	}
	return "{?}"
}

func (c emitCmd) Execute(args []core.Value, _ any) core.Result {
	if len(args) != 2 {
		return core.ERROR("emit value")
	}
	*c.out += "<" + core.Display(args[1], display) + ">"
	return core.OK(args[1])
}

// run evaluates the scripts one after the other in one interpreter and
// returns what could be observed.
func run(srcs []string) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out += fmt.Sprint(" PANIC ", e)
		}
	}()
	scope := hd.NewRootScope(nil)
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(nil), ".")
	scope.RegisterNamedCommand("emit", emitCmd{&out})
	for _, src := range srcs {
		r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		if !r.Success {
			out += " PARSE " + r.Message
			continue
		}
		p := scope.PrepareProcess(scope.Compile(*r.Script))
		for i := 0; i < 10; i++ {
			res := p.Run()
			out += fmt.Sprint(" ", res.Code, " ", core.Display(res.Value, display))
			if res.Code != core.ResultCode_YIELD {
				break
			}
			p.YieldBack(core.STR(fmt.Sprint("back", i)))
		}
		out += ";"
	}
	return
}

var cases = []struct {
	srcs []string
	want string
}{
%s}

func main() {
	bad := 0
	for _, c := range cases {
		got := run(c.srcs)
		if len(os.Args) > 1 {
			fmt.Printf("%%q\n", got)
		} else if got != c.want {
			bad++
			fmt.Printf("%%q\n  got  %%s\n  want %%s\n", c.srcs, got, c.want)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
'''
CLI_MAIN = r'''package main

import (
	"bytes"
	"fmt"
	"helena/cli"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// files of each case, then the input of a session, or (empty) the script
// file to run
var cases = []struct {
	files map[string]string
	input string
	want  string
}{
%s}

func main() {
	if os.Getenv("DEMO_CLI") != "" {
		cli.Cli()
		return
	}
	self, _ := os.Executable()
	bad := 0
	for _, c := range cases {
		dir, _ := os.MkdirTemp("", "demo")
		for f, text := range c.files {
			os.MkdirAll(filepath.Dir(filepath.Join(dir, f)), 0o755)
			os.WriteFile(filepath.Join(dir, f), []byte(text), 0o644)
		}
		x := exec.Command(self)
		if c.input == "" {
			x = exec.Command(self, "script.lna")
		}
		x.Dir = dir
		x.Env = append(os.Environ(), "DEMO_CLI=1", "TERM=dumb", "NO_COLOR=1")
		x.Stdin = strings.NewReader(c.input)
		var out, errs bytes.Buffer
		x.Stdout, x.Stderr = &out, &errs
		x.Run()
		got := strings.ReplaceAll(fmt.Sprint(out.String(), "|", errs.String(), "|", x.ProcessState.ExitCode()), dir, "DIR")
		os.RemoveAll(dir)
		if len(os.Args) > 1 {
			fmt.Printf("%%q\n", got)
		} else if got != c.want {
			bad++
			fmt.Printf("got  %%q\nwant %%q\n", got, c.want)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
'''
DEMO = r'''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp "$D/main.go.txt" "$W/main.go"
cp "$R/src/go.sum" "$W/go.sum" 2>/dev/null
printf 'module demo\n\ngo 1.23.4\n\nrequire helena v0.0.0\n\nreplace helena => %s/src\n' "$R" > "$W/go.mod"
cd "$W" && go build %s-o demo . && timeout 120 ./demo %s
'''

def sh(cmd, **k):
    return subprocess.run(["bash", "-c", ENV + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def goq(s):
    return json.dumps(s)

def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])

def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"] if "stable" in b else b["passed"])

def make(b):
    d = os.path.join("/tmp/seedout", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("git -C %s checkout -q -- ." % W)
    def demo_run(arg=""):
        shutil.rmtree("/tmp/seeddemo", ignore_errors=True)
        shutil.copytree(d, "/tmp/seeddemo")
        return sh("cd %s && bash /tmp/seeddemo/demo.sh" % W)
    race = "-race " if b.get("race") else ""
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("%s/src", "@@").replace("%s", race, 1).replace("%s", "").replace("@@", "%s/src"))
    if "go" in b:
        main = b["go"]
    else:
        # compute what the unchanged tree does
        tmpl = CLI_MAIN if b.get("cli") else SCRIPT_MAIN
        if b.get("cli"):
            row = lambda c, x: "\t{map[string]string{%s}, %s, %s},\n" % (", ".join(goq(k) + ": " + goq(v) for k, v in c[0].items()), goq(c[1]), x)
        else:
            row = lambda c, x: "\t{[]string{%s}, %s},\n" % (", ".join(goq(s) for s in c), x)
        cs = "".join(row(c, '""') for c in b["cases"])
        open(os.path.join(d, "main.go.txt"), "w").write(tmpl % cs)
        demo2 = open(os.path.join(d, "demo.sh")).read().replace("./demo", "./demo show")
        open("/tmp/seed_show.sh", "w").write(demo2.replace('"$D/main.go.txt"', d + "/main.go.txt"))
        o = sh("cd %s && bash /tmp/seed_show.sh" % W)
        outs = o.stdout.split("\n")[:-1]
        if len(outs) != len(b["cases"]):
            print(o.stdout); return False
        for c, x in zip(b["cases"], outs):
            print("   ", c, "=>", x)
        cs = "".join(row(c, x) for c, x in zip(b["cases"], outs))
        main = tmpl % cs
    open(os.path.join(d, "main.go.txt"), "w").write(main)
    r = demo_run()
    if r.returncode != 0:
        print("demo fails on the unchanged tree\n", r.stdout); return False
    for f, old, new in b["edits"]:
        p = os.path.join(W, "src", f)
        s = open(p).read()
        if s.count(old) != 1:
            print("edit of %s matches %d times" % (f, s.count(old))); return False
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % W).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # only lines of the original repository
    base = "a644b1b"
    orig = set()
    for f in {e[0] for e in b["edits"]}:
        orig |= set(sh("git -C /repo show %s:src/%s" % (base, f)).stdout.split("\n"))
    for l in diff.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
            print("   NOTE: not an original line:", l)
    r = sh("cd %s/src && gofmt -l . | head; go vet ./helena_dialect ./core ./picol_dialect 2>&1 | head -5" % W)
    r = demo_run()
    if r.returncode == 0:
        print("demo passes with the patch"); return False
    print("   with the patch:", r.stdout[-600:])
    o = "/tmp/seedtest.json"
    t = sh("cd %s/src && go build ./... && go test ./... 2>&1 | grep -v '^ok\\|no test files' | grep -a 'Fail\\|FAIL\\|panic' | cut -c1-200 | head -12" % W)
    if t.stdout.strip():
        print("tests fail:\n", t.stdout[:3000]); return False
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    dst = os.path.join(VERIF, "seeded", b["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print("OK", b["id"])
    return True

def runcheck(i, prop=None, tier="quick"):
    f = os.path.join(VERIF, "seeded", i, "patch.diff")
    prop = prop or json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))["property"]
    assert not sh("git -C /repo status --short").stdout.strip()
    assert sh("git -C /repo apply " + f).returncode == 0
    t0 = time.time()
    try:
        r = sh("cd %s && python3 tools/check.py %s %s" % (VERIF, prop, tier))
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print("%-8s %s rc=%d %s %.0fs" % (i, prop, r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed", time.time() - t0), flush=True)
    if r.returncode == 1:
        print("     ", "\n".join(l for l in r.stdout.split("\n") if l.startswith("  "))[:500], flush=True)
    elif r.returncode != 0:
        print(r.stdout[-2000:])

if __name__ == "__main__":
    if sys.argv[1] == "make":
        import seeds
        ids = sys.argv[2:]
        fresh()
        for b in seeds.BUGS:
            if b["id"] in ids or ids == ["all"] or (ids == ["new"] and not os.path.isdir(os.path.join(VERIF, "seeded", b["id"]))):
                print("==", b["id"])
                if not make(b):
                    print("FAILED", b["id"])
        shutil.rmtree(W, ignore_errors=True)
    else:
        ids = sys.argv[2:]
        if ids == ["all"]:
            ids = sorted(os.listdir(os.path.join(VERIF, "seeded")))
        for i in ids:
            i, _, p = i.partition(":")
            runcheck(i, p or None)
