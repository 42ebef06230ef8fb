package rec

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"hv/lang"
	"math/rand"
	"sync"
	"time"
)

// Case is a program and what prints it.
type Case struct {
	P  *Program
	Pr *lang.Printer
}

// Group is a set of executions made together:
//
//	alone   one after the other
//	pieces  programs run piece by piece, interleaved, sharing what was compiled
//	inter   interpreters interleaved at every observable point
//	para    interpreters on parallel goroutines
type Group struct {
	Cases []Case
	Runs  []int // case of each execution
	Mode  string
	Seed  int64
	Share bool // executions of the same case share the module files
}

// scheduler gives the turn to one execution at a time, at random
type scheduler struct {
	r     *rand.Rand
	turn  []chan bool
	alive []int
	rate  int
}

func newScheduler(n int, r *rand.Rand) *scheduler {
	s := &scheduler{r: r, rate: 1 + r.Intn(4)}
	for i := 0; i < n; i++ {
		s.turn = append(s.turn, make(chan bool, 1))
		s.alive = append(s.alive, i)
	}
	return s
}
func (s *scheduler) point(i int) {
	if s.r.Intn(s.rate) > 0 {
		return
	}
	j := s.alive[s.r.Intn(len(s.alive))]
	if j != i {
		s.turn[j] <- true
		<-s.turn[i]
	}
}
func (s *scheduler) end(i int) {
	for k, j := range s.alive {
		if j == i {
			s.alive = append(s.alive[:k:k], s.alive[k+1:]...)
			break
		}
	}
	if len(s.alive) > 0 {
		s.turn[s.alive[s.r.Intn(len(s.alive))]] <- true
	}
}

// RecordGroup makes the executions of the group and returns their traces.
func RecordGroup(g *Group, dead string) []M {
	if p := g.Cases[0].P; p.Mode != "" {
		return []M{RecordCli(p, g.Cases[0].Pr)}
	}
	r := rand.New(rand.NewSource(g.Seed))
	xs := []*execution{}
	heads := map[int]*execution{}
	progs := map[int]*[]*core.Program{}
	for i, c := range g.Runs {
		p := g.Cases[c].P
		x := &execution{p: p, r: &recorder{ev: []any{}, point: func() {}}}
		if h := heads[c]; h != nil {
			x.mains, x.files = h.mains, h.files
			x.trace = M{}
			for k, v := range h.trace {
				x.trace[k] = v
			}
		} else {
			x.trace = p.header(g.Cases[c].Pr, x)
			heads[c] = x
			progs[c] = &[]*core.Program{}
		}
		if g.Mode != "alone" {
			x.trace["id"] = fmt.Sprintf("%s-x%d", p.Id, i)
			x.trace["note"] = fmt.Sprintf("execution %d of %d, %s", i, len(g.Runs), g.Mode)
		}
		xs = append(xs, x)
	}
	out := []M{}
	if dead != "" {
		for _, x := range xs {
			x.trace["ev"] = []any{M{"k": dead}}
			out = append(out, x.trace)
		}
		return out
	}
	for i, x := range xs {
		if h := heads[g.Runs[i]]; g.Share && h != x {
			x.root = h.root
			x.trace["tmp"] = x.root
			continue
		}
		x.write()
		x.trace["tmp"] = x.root
		defer x.cleanup()
	}
	done := make(chan bool, 1)
	switch g.Mode {
	case "alone":
		go func() {
			for _, x := range xs {
				x.guarded()
			}
			done <- true
		}()
	case "para":
		var wg sync.WaitGroup
		for _, x := range xs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.guarded()
			}()
		}
		go func() {
			wg.Wait()
			done <- true
		}()
	default:
		s := newScheduler(len(xs), r)
		pool := &states{r: r}
		var wg sync.WaitGroup
		for i, x := range xs {
			wg.Add(1)
			x.r.point = func() { s.point(i) }
			if g.Mode == "pieces" {
				x.shared = progs[g.Runs[i]]
				x.process = func(scope *hd.Scope, p *core.Program) process {
					if r.Intn(5) == 0 {
						return scope.PrepareProcess(p)
					}
					st := &stepper{pool: pool, r: r, point: x.r.point}
					st.push(scope, p, nil, nil)
					return st
				}
			}
			go func() {
				defer wg.Done()
				<-s.turn[i]
				x.guarded()
				s.end(i)
			}()
		}
		s.turn[r.Intn(len(xs))] <- true
		go func() {
			wg.Wait()
			done <- true
		}()
	}
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		for _, x := range xs {
			x.trace["ev"] = []any{M{"k": "hang"}}
			x.trace["hang"] = true
			out = append(out, x.trace)
		}
		return out
	}
	for _, x := range xs {
		x.trace["ev"] = x.r.ev
		out = append(out, x.trace)
	}
	return out
}

// states gives program states: new ones and ones that were used and reset,
// from anywhere in the execution of some program
type states struct {
	r       *rand.Rand
	free    []*core.ProgramState
	scratch *hd.Scope
}

func (s *states) get() *core.ProgramState {
	if n := len(s.free); n > 0 && s.r.Intn(4) > 0 {
		i := s.r.Intn(n)
		st := s.free[i]
		s.free = append(s.free[:i:i], s.free[i+1:]...)
		return st
	}
	return core.NewProgramState()
}
func (s *states) put(st *core.ProgramState) {
	st.Reset()
	s.free = append(s.free, st)
}

// stepper runs programs like the processes of the dialect, but piece by
// piece, the executions of programs being stopped at random instructions.
type stepper struct {
	pool  *states
	r     *rand.Rand
	point func()
	stk   []frame
	last  core.Result
	limit func() bool // asked before every instruction
}
type frame struct {
	scope *hd.Scope
	prog  *core.Program
	state *core.ProgramState
	data  any
	cb    hd.ContinuationCallback
}
type varRes struct{ s *hd.Scope }

func (r varRes) Resolve(name string) core.Value { return r.s.ResolveVariable(name) }

type cmdRes struct{ s *hd.Scope }

func (r cmdRes) Resolve(name core.Value) core.Command { return r.s.ResolveCommand(name) }

func (s *stepper) push(scope *hd.Scope, p *core.Program, data any, cb hd.ContinuationCallback) {
	s.stk = append(s.stk, frame{scope, p, s.pool.get(), data, cb})
}
func (s *stepper) pop() {
	s.pool.put(s.stk[len(s.stk)-1].state)
	s.stk = s.stk[:len(s.stk)-1]
}
func (s *stepper) exec() core.Result {
	f := s.stk[len(s.stk)-1]
	ex := core.Executor{VariableResolver: varRes{f.scope}, CommandResolver: cmdRes{f.scope}, Context: f.scope}
	if s.limit != nil {
		for {
			if s.limit() {
				panic(outOfBudget{})
			}
			pc := f.state.PC
			res := ex.ExecuteUntil(f.prog, f.state, pc+1)
			if res.Code != core.ResultCode_OK || f.state.PC >= uint(len(f.prog.OpCodes)) {
				if res.Code == core.ResultCode_OK {
					return ex.Execute(f.prog, f.state)
				}
				return res
			}
		}
	}
	for s.r.Intn(12) > 0 {
		res := ex.ExecuteUntil(f.prog, f.state, f.state.PC+uint(s.r.Intn(6)))
		if res.Code != core.ResultCode_OK {
			return res
		}
		s.point()
		// an execution of something else starts and is given up
		if s.r.Intn(16) == 0 {
			s.pool.dirty()
		}
	}
	return ex.Execute(f.prog, f.state)
}

// dirty leaves a used state in the pool: the beginning of a program without
// effects is executed, up to an arbitrary instruction
func (s *states) dirty() {
	if s.scratch == nil {
		s.scratch = hd.NewRootScope(nil)
		hd.InitCommands(s.scratch)
	}
	ex := core.Executor{VariableResolver: varRes{s.scratch}, CommandResolver: cmdRes{s.scratch}, Context: s.scratch}
	srcs := []string{"idem a; |> idem; idem b", "^", "idem a [idem b; |>] c (d [idem e; ^])", "|> ; |> ; |>", "yield 1; yield 2",
		"break; idem a", "[yield \"a[idem b]c\"]", "idem a; |> idem $[list (1 2)][0]"}
	src := srcs[s.r.Intn(len(srcs))]
	pres := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	p := s.scratch.Compile(*pres.Script)
	st := s.get()
	if s.r.Intn(3) == 0 {
		ex.Execute(p, st)
	} else {
		ex.ExecuteUntil(p, st, uint(s.r.Intn(len(p.OpCodes)+1)))
	}
	s.put(st)
}

func (s *stepper) Run() core.Result {
	if len(s.stk) == 0 {
		return s.last
	}
	result := s.exec()
	for {
		if c, ok := result.Value.(*hd.ContinuationValue); ok {
			if result.Code != core.ResultCode_YIELD && s.stk[len(s.stk)-1].cb == nil {
				s.pop()
			}
			s.push(c.Scope, c.Program, c.Data, c.Callback)
			result = s.exec()
			continue
		}
		if result.Code == core.ResultCode_YIELD {
			return result
		}
		f := s.stk[len(s.stk)-1]
		if f.cb != nil {
			result = f.cb(result, f.data)
		}
		if result.Code == core.ResultCode_ERROR {
			result.Data = nil
		}
		s.pop()
		if len(s.stk) == 0 {
			s.last = result
			return result
		}
		if _, ok := result.Value.(*hd.ContinuationValue); ok || result.Code != core.ResultCode_OK {
			continue
		}
		s.stk[len(s.stk)-1].state.SetResult(result)
		result = s.exec()
	}
}
func (s *stepper) YieldBack(v core.Value) {
	st := s.stk[len(s.stk)-1].state
	res := st.Result
	res.Value = v
	st.SetResult(res)
}

type outOfBudget struct{}

// NewStepper prepares a process that gives up when limit says so.
func NewStepper(scope *hd.Scope, p *core.Program, limit func() bool) *stepper {
	r := rand.New(rand.NewSource(1))
	s := &stepper{pool: &states{r: r}, r: r, point: func() {}, limit: limit}
	s.push(scope, p, nil, nil)
	return s
}

// RunBounded is Run, out being set when it was given up.
func (s *stepper) RunBounded() (res core.Result, out bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(outOfBudget); !ok {
				panic(e)
			}
			out = true
		}
	}()
	return s.Run(), false
}
