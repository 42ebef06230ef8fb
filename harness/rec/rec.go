// Package rec runs programs on the implementation and records what can be
// observed of them.
package rec

import (
	"encoding/json"
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"hv/lang"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type M = map[string]any

// Program is a generated program with what the recorder needs to run it.
type Program struct {
	Id      string
	Profile string
	Mains   []*lang.Script
	Files   []File // module files
	Cap     bool
	Back    []M // what to do at each yield of a main program (default: drop)
	Note    string
	Dialect string // picol, or Helena
	Items   []Item // inputs of a session
	Mode    string // session or file
	Plain   bool   // a session without recorded commands
}
type File struct {
	Path string // relative to the root directory
	Body *lang.Script
	Raw  string // text of a file that does not parse (Body == nil)
	Err  string // expected error text for it
}

// Prefix stands for the temporary directory in recorded texts.
const Prefix = "/R"

type skip struct{ why string }

// Value encodes a value as it appears in events.
func Value(v core.Value) any {
	switch x := v.(type) {
	case nil:
		return M{"t": "missing"}
	case core.NilValue:
		return M{"t": "nil"}
	case core.BooleanValue:
		return M{"t": "bool", "b": x.Value}
	case core.IntegerValue:
		if x.Value > math.MaxInt32 || x.Value <= math.MinInt32 {
			return M{"t": "oor"}
		}
		return M{"t": "int", "i": x.Value}
	case core.RealValue:
		n, e := x.Value, 0
		for e < 14 && n != math.Trunc(n) {
			n *= 2
			e++
		}
		if n != math.Trunc(n) || math.Abs(n) > math.MaxInt32 || math.IsNaN(n) {
			return M{"t": "oor"}
		}
		return M{"t": "real", "n": int64(n), "e": e}
	case core.StringValue:
		return M{"t": "str", "s": text(x.Value)}
	case core.ListValue:
		return M{"t": "list", "l": values(x.Values)}
	case core.TupleValue:
		return M{"t": "tup", "u": values(x.Values)}
	case core.DictionaryValue:
		ks := []string{}
		for k := range x.Map {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		m := []any{}
		for _, k := range ks {
			m = append(m, []any{text(k), Value(x.Map[k])})
		}
		return M{"t": "dict", "m": m}
	case core.ScriptValue:
		if x.Source != nil {
			return M{"t": "blk", "src": text(*x.Source)}
		}
		return M{"t": "scr"}
	case core.CommandValue:
		return M{"t": "cmd"}
	case core.QualifiedValue:
		sel := []any{}
		for _, s := range x.Selectors {
			switch y := s.(type) {
			case core.IndexedSelector:
				sel = append(sel, M{"k": "idx", "x": Value(y.Index)})
			case core.KeyedSelector:
				sel = append(sel, M{"k": "key", "ks": values(y.Keys)})
			default:
				sel = append(sel, M{"k": fmt.Sprintf("%T", s)})
			}
		}
		return M{"t": "qual", "q": Value(x.Source), "sel": sel}
	case hd.ArgspecValue:
		return M{"t": "aspec"}
	}
	return M{"t": fmt.Sprintf("%T", v)}
}
func values(vs []core.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, Value(v))
	}
	return r
}

func text(s string) string {
	for _, c := range s {
		if c >= 127 || c < 9 {
			return "<non-ASCII>"
		}
	}
	return s
}

func FromJ(v M) core.Value {
	switch v["t"] {
	case "str":
		return core.STR(v["s"].(string))
	case "int":
		return core.INT(int64(v["i"].(int)))
	case "bool":
		if v["b"].(bool) {
			return core.TRUE
		}
		return core.FALSE
	}
	return core.NIL
}

type recorder struct {
	ev    []any
	ticks int
	n     int
	point func() // other executions may take over here
}

func (r *recorder) add(e M) {
	r.n++
	if r.n > 400 {
		r.ev = append(r.ev, M{"k": "cut"})
		panic(skip{"events"})
	}
	r.ev = append(r.ev, e)
}

type emitCmd struct{ r *recorder }

func (c emitCmd) Execute(args []core.Value, _ any) core.Result {
	if len(args) != 2 {
		return core.ERROR(`wrong # args: should be "emit value"`)
	}
	v := args[1]
	c.r.add(M{"k": "emit", "v": Value(v)})
	c.r.point()
	return core.OK(v)
}

type tickCmd struct{ r *recorder }

func (c tickCmd) Execute(args []core.Value, _ any) core.Result {
	c.r.ticks++
	if c.r.ticks > 60 {
		return core.ERROR("tick limit")
	}
	c.r.point()
	return core.OK(core.NIL)
}

func CodeName(r core.Result) string {
	switch r.Code {
	case core.ResultCode_OK:
		return "ok"
	case core.ResultCode_RETURN:
		return "return"
	case core.ResultCode_YIELD:
		return "yield"
	case core.ResultCode_ERROR:
		return "error"
	case core.ResultCode_BREAK:
		return "break"
	case core.ResultCode_CONTINUE:
		return "continue"
	}
	if core.RESULT_CODE_NAME(r) == "pass" {
		return "pass"
	}
	return "custom " + core.RESULT_CODE_NAME(r)
}

// Print gives the program text and fills the positions.
func (p *Program) Print(pr *lang.Printer) (mains []string, ids []int, files map[string]string, fids map[string]int) {
	files, fids, ids = map[string]string{}, map[string]int{}, []int{}
	for _, f := range p.Files {
		if f.Body == nil {
			files[f.Path] = f.Raw
			continue
		}
		id, src := pr.Script(f.Body)
		files[f.Path] = src
		fids[f.Path] = id
	}
	pr.Flat = p.Mode == "session"
	for _, s := range p.Mains {
		id, src := pr.Script(s)
		mains = append(mains, src)
		ids = append(ids, id)
	}
	return
}

// header is the part of the trace the specification starts from.
func (p *Program) header(pr *lang.Printer, x *execution) (trace M) {
	mains, ids, files, fids := p.Print(pr)
	x.mains = mains
	x.files = files
	trace = M{"id": p.Id, "profile": p.Profile, "mains": ids, "cap": p.Cap, "texts": mains}
	if p.Note != "" {
		trace["note"] = p.Note
	}
	blks := []any{}
	for _, b := range pr.Blks {
		blks = append(blks, b.Enc())
	}
	trace["blks"] = blks
	fl := []any{}
	for _, f := range p.Files {
		fl = append(fl, []any{Prefix + "/" + f.Path, f.Err, fids[f.Path], Dir(Prefix + "/" + f.Path)})
	}
	trace["files"] = fl
	trace["root"] = "."
	if len(p.Files) > 0 {
		trace["root"] = Prefix
		trace["ftexts"] = files
	}
	return trace
}

// execution is one program on one interpreter.
type execution struct {
	p     *Program
	mains []string
	files map[string]string
	root  string
	r     *recorder
	// compiled programs, shared with other executions
	shared *[]*core.Program
	// process of a program (nil: the one of the dialect)
	process func(*hd.Scope, *core.Program) process
	trace   M
}
type process interface {
	Run() core.Result
	YieldBack(core.Value)
}

// write puts the module files of the program in a new directory
func (x *execution) write() {
	x.root = "."
	if len(x.p.Files) == 0 {
		return
	}
	d, err := os.MkdirTemp("", "hv")
	if err != nil {
		panic(err)
	}
	x.root = d
	for f, src := range x.files {
		fp := filepath.Join(d, f)
		os.MkdirAll(filepath.Dir(fp), 0o755)
		if err := os.WriteFile(fp, []byte(src), 0o644); err != nil {
			panic(err)
		}
	}
}
func (x *execution) cleanup() {
	if x.root != "." && x.root != "" {
		os.RemoveAll(x.root)
	}
}

// guarded runs the execution, whatever happens
func (x *execution) guarded() {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(skip); !ok {
				x.r.ev = append(x.r.ev, M{"k": "panic", "what": fmt.Sprint(e)})
			}
		}
	}()
	x.run()
}

// Record runs the program and returns its trace, or nil when it has to be
// skipped (values out of the modelled range).
func Record(p *Program, pr *lang.Printer, dead string) (trace M) {
	x := &execution{p: p, r: &recorder{ev: []any{}, point: func() {}}}
	trace = p.header(pr, x)
	if dead != "" {
		trace["ev"] = []any{M{"k": dead}}
		return trace
	}
	x.write()
	trace["tmp"] = x.root
	defer x.cleanup()
	done := make(chan bool, 1)
	go func() {
		x.guarded()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		// the goroutine is lost: the process has to be restarted
		trace["ev"] = []any{M{"k": "hang"}}
		trace["hang"] = true
		return trace
	}
	trace["ev"] = x.r.ev
	return trace
}

// Dir is the directory of a slash-separated path.
func Dir(p string) string {
	i := strings.LastIndex(p, "/")
	return p[:i]
}

func (x *execution) run() {
	if x.p.Dialect == "picol" {
		x.picol()
		return
	}
	p, mains, root, r := x.p, x.mains, x.root, x.r
	scope := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: p.Cap, CaptureErrorStack: p.Cap})
	reg := hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: p.Cap, CaptureErrorStack: p.Cap})
	hd.InitCommandsForModule(scope, reg, root)
	scope.RegisterNamedCommand("emit", emitCmd{r})
	scope.RegisterNamedCommand("tick", tickCmd{r})
	exports := hd.Exports{"emit": core.STR("emit"), "tick": core.STR("tick")}
	reg.Register("host", hd.NewModule(scope, &exports))
	back := p.Back
	type parked struct {
		proc process
		v    core.Value
	}
	var park []parked
	drive := func(proc process) {
	loop:
		for {
			res := proc.Run()
			r.point()
			if res.Code != core.ResultCode_YIELD {
				r.add(M{"k": "end", "c": CodeName(res), "v": Value(res.Value), "es": stack(p, res)})
				break
			}
			b := M{"k": "drop"}
			if len(back) > 0 {
				b = back[0]
				back = back[1:]
			}
			r.add(M{"k": "yield", "v": Value(res.Value), "back": b})
			switch b["k"] {
			case "val":
				proc.YieldBack(FromJ(b["v"].(M)))
			case "later":
				park = append(park, parked{proc, FromJ(b["v"].(M))})
				break loop
			case "drop":
				break loop
			}
		}
	}
	for i, src := range mains {
		toks := core.Tokenizer{}.Tokenize(src)
		ps := core.NewParser(&core.ParserOptions{CapturePositions: p.Cap})
		var source *core.Source
		if p.Cap {
			name := fmt.Sprintf("main%d", i)
			source = &core.Source{Filename: &name}
		}
		pres := ps.ParseTokens(toks, source)
		if !pres.Success {
			r.add(M{"k": "parse", "msg": pres.Message})
			continue
		}
		var prog *core.Program
		if x.shared != nil && i < len(*x.shared) {
			prog = (*x.shared)[i]
		}
		if prog == nil {
			prog = scope.Compile(*pres.Script)
			if x.shared != nil {
				for len(*x.shared) <= i {
					*x.shared = append(*x.shared, nil)
				}
				(*x.shared)[i] = prog
			}
		}
		if x.process != nil {
			drive(x.process(scope, prog))
		} else {
			drive(scope.PrepareProcess(prog))
		}
	}
	// suspended scripts, in turn
	for len(park) > 0 {
		s := park[0]
		park = park[1:]
		s.proc.YieldBack(s.v)
		drive(s.proc)
	}
}
func stack(p *Program, res core.Result) []any {
	r := []any{}
	if !p.Cap || res.Code != core.ResultCode_ERROR {
		return r
	}
	es, _ := res.Data.(*core.ErrorStack)
	if es == nil {
		return r
	}
	for i := uint(0); i < es.Depth(); i++ {
		l := es.Level(i)
		pos := []int{}
		if l.Position != nil {
			pos = []int{int(l.Position.Line), int(l.Position.Column), int(l.Position.Index)}
		}
		fr := []any{}
		if l.Frame != nil {
			fr = values(*l.Frame)
		}
		r = append(r, M{"fr": fr, "p": pos})
	}
	return r
}

// Line is the trace on one line.
func Line(t M) string {
	tmp, _ := t["tmp"].(string)
	delete(t, "tmp")
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	if tmp != "" && tmp != "." {
		return strings.ReplaceAll(string(b), tmp, Prefix)
	}
	return string(b)
}
