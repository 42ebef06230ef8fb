// Command hv is the conformance harness: it generates programs, runs them on
// the implementation and writes the traces the specification validates.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hv/disp"
	"hv/gen"
	"hv/nat"
	"hv/rec"
	"hv/syn"
	"hv/wild"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hv command ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	switch cmd {
	case "child":
		child()
	case "record":
		record()
	case "show":
		show()
	case "fatal":
		fatal()
	case "fatalchild":
		flag.Parse()
		debug.SetMaxStack(64 << 20)
		fmt.Println("ended", wild.Fatal(*prof))
	case "syntax":
		syntax()
	case "display":
		display()
	case "native":
		native()
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

var (
	prof = flag.String("profile", "all", "profile")
	seed = flag.Int64("seed", 1, "seed")
	from = flag.Int("from", 0, "first program")
	num  = flag.Int("n", 100, "number of programs")
	out  = flag.String("out", "", "output file")
)

// child runs programs and prints one trace per line; it may die
func child() {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	w := bufio.NewWriter(os.Stdout)
	for i := *from; i < *from+*num; i++ {
		fmt.Fprintf(w, "#%d\n", i)
		w.Flush()
		hang := false
		if *prof == "wild" {
			t := wild.Record(*seed, i, "")
			fmt.Fprintln(w, rec.Line(t))
			w.Flush()
			if t["hang"] != nil {
				os.Exit(3)
			}
			continue
		}
		for _, t := range rec.RecordGroup(gen.Group(*prof, *seed, i), "") {
			fmt.Fprintln(w, rec.Line(t))
			hang = hang || t["hang"] != nil
		}
		w.Flush()
		if hang {
			os.Exit(3)
		}
	}
}

func record() {
	flag.Parse()
	f := os.Stdout
	if *out != "" {
		var err error
		f, err = os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	w := bufio.NewWriter(f)
	defer w.Flush()
	i, end, deaths := *from, *from+*num, 0
	for i < end && deaths < 5 {
		c := exec.Command("/proc/self/exe", "child", "-profile", *prof, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(i), "-n", fmt.Sprint(end-i))
		so, _ := c.StdoutPipe()
		var se strings.Builder
		c.Stderr = &se
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		last, seen := i, false
		rd := bufio.NewReaderSize(so, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				break
			}
			if strings.HasPrefix(l, "#") {
				fmt.Sscan(l[1:], &last)
				seen = false
				continue
			}
			w.WriteString(l)
			seen = true
		}
		if c.Wait() == nil {
			break
		}
		deaths++
		if k := strings.Index(se.String(), "DATA RACE"); k >= 0 {
			for _, t := range rec.RecordGroup(gen.Group(*prof, *seed, last), "race") {
				what := se.String()[k:]
				if len(what) > 4000 {
					what = what[:4000]
				}
				t["race"] = what
				w.WriteString(rec.Line(t) + "\n")
			}
		} else if !seen && *prof == "wild" {
			t := wild.Record(*seed, last, "died")
			what := se.String()
			if len(what) > 3000 {
				what = what[:3000]
			}
			t["stderr"] = what
			w.WriteString(rec.Line(t) + "\n")
		} else if !seen {
			for _, t := range rec.RecordGroup(gen.Group(*prof, *seed, last), "died") {
				w.WriteString(rec.Line(t) + "\n")
			}
		}
		i = last + 1
	}
}

// syntax records what the tokenizer and the parser make of sources
func syntax() {
	flag.Parse()
	f := os.Stdout
	if *out != "" {
		var err error
		if f, err = os.Create(*out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	w := bufio.NewWriter(f)
	defer w.Flush()
	for i := *from; i < *from+*num; i++ {
		src, how := "", i
		if *prof == "enum" {
			src = syn.Enum(i)
			how = i ^ i>>4
		} else {
			r := rand.New(rand.NewSource(*seed<<32 + int64(i)))
			src, how = syn.Rand(r), r.Intn(16)
		}
		b, err := json.Marshal(syn.Record(fmt.Sprintf("%s-%d-%d", *prof, *seed, i), src, how&15))
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
}

// display records values, their display and what it reads back as
func native() {
	flag.Parse()
	f := os.Stdout
	if *out != "" {
		var err error
		if f, err = os.Create(*out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	w := bufio.NewWriter(f)
	defer w.Flush()
	for i := *from; i < *from+*num; i++ {
		fmt.Fprintln(w, rec.Line(nat.Record(*seed, i)))
	}
}

func display() {
	flag.Parse()
	f := os.Stdout
	if *out != "" {
		var err error
		if f, err = os.Create(*out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	w := bufio.NewWriter(f)
	defer w.Flush()
	put := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		w.Write(append(b, '\n'))
	}
	if *prof == "probe" {
		for i := range disp.Probes {
			put(disp.Probe(i))
		}
		return
	}
	for i := *from; i < *from+*num; i++ {
		if *prof == "enum" {
			put(disp.Enum(i))
		} else {
			put(disp.Record(*seed, i))
		}
	}
}

func show() {
	flag.Parse()
	g := gen.Group(*prof, *seed, *from)
	for j, c := range g.Cases {
		mains, _, files, _ := c.P.Print(c.Pr)
		for n, s := range files {
			fmt.Printf("--- file %s\n%s\n", n, s)
		}
		for i, s := range mains {
			fmt.Printf("--- case %d main %d\n%s\n", j, i, s)
		}
	}
}

// fatal runs one fixed source in a process of its own and tells how it ended
func fatal() {
	flag.Parse()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "/proc/self/exe", "fatalchild", "-profile", *prof)
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	switch {
	case err == nil:
		fmt.Print(so.String())
	case ctx.Err() != nil:
		fmt.Println("hang")
	default:
		m := se.String()
		if i := strings.Index(m, "\n\n"); i > 0 {
			m = m[:i]
		}
		fmt.Println("died", strings.ReplaceAll(m, "\n", " "))
	}
}
