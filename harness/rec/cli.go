package rec

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"hv/lang"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"
)

// Item is an input of a session: a main script, or a text.
type Item struct {
	Main int // number of the script, or -1
	Raw  string
}

// HostModule gives emit and tick to the command-line program; what they
// record goes to its standard output.
func HostModule() *hd.Module {
	scope := hd.NewRootScope(nil)
	r := &recorder{ev: []any{}, point: func() {}}
	flush := func() {
		for _, e := range r.ev {
			b, _ := json.Marshal(e)
			os.Stdout.WriteString("\x01E" + string(b) + "\x02")
		}
		r.ev = r.ev[:0]
	}
	scope.RegisterNamedCommand("emit", flushed{emitCmd{r}, flush})
	scope.RegisterNamedCommand("tick", tickCmd{r})
	exports := hd.Exports{"emit": core.STR("emit"), "tick": core.STR("tick")}
	return hd.NewModule(scope, &exports)
}

type flushed struct {
	c     core.Command
	flush func()
}

func (c flushed) Execute(args []core.Value, ctx any) core.Result {
	defer func() {
		if e := recover(); e != nil {
			c.flush()
			os.Exit(9)
		}
	}()
	r := c.c.Execute(args, ctx)
	c.flush()
	return r
}

var prelude = []string{"load verif host", "import host (emit tick)", "idem []"}

func ints(s string) []int {
	r := []int{}
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

// run runs a program of the command line in the given directory.
func runCli(bin, dir, input string, args ...string) (stdout, stderr string, code int, hang bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Stdin = strings.NewReader(input)
	c.Env = append(os.Environ(), "TERM=dumb", "NO_COLOR=1", "HOME="+dir)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	var x *exec.ExitError
	if errors.As(err, &x) {
		code = x.ExitCode()
	} else if err != nil {
		panic(fmt.Sprint("cannot run ", bin, ": ", err))
	}
	return so.String(), se.String(), code, ctx.Err() != nil
}

// RecordCli runs a session (or a script file) of the command-line program.
// HCLI is the program with the host module, HELENA the one as it is.
func RecordCli(p *Program, pr *lang.Printer) M {
	x := &execution{p: p}
	t := p.header(pr, x)
	x.write()
	if x.root == "." {
		d, err := os.MkdirTemp("", "hv")
		if err != nil {
			panic(err)
		}
		x.root = d
	}
	t["root"] = Prefix
	defer x.cleanup()
	t["tmp"] = x.root
	labs := make([]string, len(pr.Blks))
	// blocks follow the file they are in
	lab := ""
	roots := map[int]string{}
	for f, id := range fileIds(t) {
		roots[id] = f
	}
	for _, id := range t["mains"].([]int) {
		roots[id] = ""
	}
	for i := range labs {
		if l, ok := roots[i+1]; ok {
			lab = l
		}
		labs[i] = lab
	}
	t["labs"] = labs
	tb := []any{}
	for _, s := range x.mains {
		tb = append(tb, ints(s))
	}
	t["tb"] = tb
	t["mode"] = p.Mode
	t["plain"] = p.Plain
	t["same"] = true
	t["src"] = []int{}
	t["lines"] = []any{}
	clean := func(s string) string { return strings.ReplaceAll(s, x.root, Prefix) }
	ev := []any{}
	hcli, helena := os.Getenv("HCLI"), os.Getenv("HELENA")
	if p.Mode == "file" {
		src := p.Items[0].Raw
		if p.Items[0].Main >= 0 {
			src = x.mains[p.Items[0].Main]
		}
		t["src"] = ints(src)
		t["texts"] = []string{src}
		text := src
		if !p.Plain {
			text = strings.Join(prelude, ";") + ";" + src
		}
		fp := filepath.Join(x.root, "script.lna")
		if err := os.WriteFile(fp, []byte(text), 0o644); err != nil {
			panic(err)
		}
		so, se, code, hang := runCli(hcli, x.root, "", fp)
		if p.Plain {
			so2, se2, code2, _ := runCli(helena, x.root, "", fp)
			t["same"] = sameText(so, so2) && sameText(se, se2) && code == code2
		}
		out := ""
		ev, out = split(so, ev)
		if hang {
			ev = append(ev, M{"k": "hang"})
		}
		ev = append(ev, M{"k": "left", "c": code, "y": ints(clean(out)), "e": ints(clean(se))})
		t["ev"] = ev
		t["outs"] = []string{out, se, fmt.Sprint(code)}
		return t
	}
	lines := []string{}
	for _, it := range p.Items {
		s := it.Raw
		if it.Main >= 0 {
			s = x.mains[it.Main]
		}
		lines = append(lines, strings.Split(s, "\n")...)
	}
	pre := prelude
	if p.Plain {
		pre = nil
	}
	in := ""
	for _, l := range append(append([]string{}, pre...), lines...) {
		in += l + "\n"
	}
	so, se, code, hang := runCli(hcli, x.root, in)
	// what is shown before each prompt
	parts := strings.Split(so, "\x01P")
	outs := []string{}
	tl := []any{}
	for i, part := range parts {
		prompt := ""
		if i > 0 {
			k := strings.Index(part, "\x02")
			prompt = part[:k]
			part = part[k+1:]
		}
		_ = prompt
		// part is shown after the prompt: by line i-1
		n := i - 1 - len(pre)
		if n < 0 || n >= len(lines) {
			continue
		}
		next := ""
		if i+1 < len(parts) {
			next = parts[i+1][:strings.Index(parts[i+1], "\x02")]
		}
		var out string
		ev, out = split(part, ev)
		if out != "" {
			ev = append(ev, M{"k": "shown", "y": ints(clean(out))})
		}
		outs = append(outs, out)
		tl = append(tl, M{"y": ints(lines[n]), "p": next, "n": len(ev)})
	}
	if hang || code != 0 {
		ev = append(ev, M{"k": "died", "code": code, "stderr": text(clean(se))})
	}
	if p.Plain {
		so2, se2, code2, _ := runCli(helena, x.root, in)
		t["same"] = sameText(strings.Join(outs, ""), so2) && sameText(se, se2) && code == code2
	}
	t["lines"] = tl
	t["ev"] = ev
	t["outs"] = outs
	t["texts"] = lines
	return t
}
func fileIds(t M) map[string]int {
	r := map[string]int{}
	for _, f := range t["files"].([]any) {
		l := f.([]any)
		name := l[0].(string)
		if b := filepath.Base(name); b[0] == 's' {
			// sourced under its relative name
			name = strings.TrimPrefix(name, Prefix+"/")
		}
		if id := l[2].(int); id > 0 {
			r[name] = id
		}
	}
	return r
}

// split takes the recorded events out of a text
func split(s string, ev []any) ([]any, string) {
	out := ""
	for {
		k := strings.Index(s, "\x01E")
		if k < 0 {
			return ev, out + s
		}
		if k > 0 {
			// shown before an event
			out += s[:k]
		}
		e := strings.Index(s[k:], "\x02") + k
		var m M
		d := json.NewDecoder(strings.NewReader(s[k+2 : e]))
		d.UseNumber()
		d.Decode(&m)
		ev = append(ev, m)
		s = s[e+1:]
	}
}

// sameText compares texts in which dictionaries may be ordered differently
func sameText(a, b string) bool {
	x, y := []byte(a), []byte(b)
	slices.Sort(x)
	slices.Sort(y)
	return bytes.Equal(x, y)
}
