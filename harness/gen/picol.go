package gen

import (
	. "hv/lang"
	"hv/rec"
)

// picol generates programs of the Picol dialect.
type picol struct {
	*G
	procs  []pproc
	loop   int
	inProc bool
	vars   []string // set, most likely
}
type pproc struct {
	name     string
	min, max int // max < 0: no limit
}

func (g *picol) v() string {
	if len(g.vars) == 0 || g.p(20) {
		return g.pick("a", "b", "c", "i", "j", "n", "x", "res")
	}
	return g.vars[g.n(len(g.vars))]
}
func (g *picol) numLit() *Word {
	return Lit(g.pick("0", "1", "2", "3", "4", "5", "7", "10", "12", "100", "-1", "-3", "0.5", "1.5", "2.25", "-0.75", "8", "16"))
}
func (g *picol) odd() *Word {
	switch g.n(8) {
	case 0:
		return TupW(Lit("a"), Lit("b"))
	case 1:
		return ExpW(Scr())
	case 2:
		return Blk()
	case 3:
		return Blk(S(g.numLit()))
	case 4:
		return Text("")
	case 5:
		return Text("not a number")
	case 6:
		return Lit(g.pick("true", "no", "yes", "x1", "007", "+5"))
	}
	return TupW()
}

// a number
func (g *picol) num(d int) *Word {
	if g.p(15) {
		return g.odd()
	}
	if d <= 0 {
		if g.p(500) {
			return Var(g.v())
		}
		return g.numLit()
	}
	switch g.n(9) {
	case 0, 1:
		return g.numLit()
	case 2, 3:
		return Var(g.v())
	case 4, 5:
		op := g.pick("+", "+", "-", "*")
		ws := []*Word{Lit(op)}
		for k := 1 + g.n(3); k > 0; k-- {
			ws = append(ws, g.num(d-1))
		}
		return Exp(ws...)
	case 6:
		return Exp(Lit("/"), g.num(d-1), Lit(g.pick("1", "2", "4", "-2", "0.5", "3")))
	case 7:
		return Exp(Lit("incr"), Lit(g.v()), Lit(g.pick("1", "2", "-1", "0", "10")))
	}
	return g.callW(d - 1)
}
func (g *picol) str(d int) *Word {
	switch g.n(7) {
	case 0:
		return Lit(g.pick("foo", "bar", "yes", "no", "true", "false", "1", "2", "abc"))
	case 1:
		return Text(g.pick("two words", "", "a b"))
	case 2:
		return StrW(Lit("<"), Var(g.v()), Lit(" >"))
	case 3:
		return StrW(Lit("x "), Exp(Lit("+"), g.num(d-1)), Lit(" y"))
	case 4:
		return Var(g.v())
	case 5:
		return Cmp(Lit("p"), Var(g.v()))
	}
	return g.num(d - 1)
}
func (g *picol) value(d int) *Word {
	switch g.n(12) {
	case 0, 1, 2:
		return g.num(d)
	case 3, 4:
		return g.str(d)
	case 5:
		return g.cond(d)
	case 6:
		return TupW(g.value(0), g.value(0))
	case 7:
		return g.callW(d)
	case 8:
		return Var(g.v())
	case 9:
		return Exp(Lit("set"), Lit(g.v()), g.num(d-1))
	case 10:
		return Exp(Lit("if"), g.cond(d-1), g.body(1), Lit("else"), g.body(1))
	}
	return g.num(d)
}

// a condition
func (g *picol) cond(d int) *Word {
	if g.p(30) {
		return g.odd()
	}
	if d <= 0 {
		return Lit(g.pick("true", "false", "yes", "no", "1", "0", "2", "-1"))
	}
	switch g.n(9) {
	case 0:
		return Lit(g.pick("true", "false", "yes", "no", "1", "0", "5"))
	case 1, 2:
		return Exp(Lit(g.pick(">", ">=", "<", "<=")), g.num(d-1), g.num(d-1))
	case 3:
		return Exp(Lit(g.pick("==", "!=")), g.value(d-1), g.value(d-1))
	case 4:
		return Exp(Lit("!"), g.cond(d-1))
	case 5:
		ws := []*Word{Lit(g.pick("&&", "||"))}
		for k := 1 + g.n(3); k > 0; k-- {
			ws = append(ws, g.cond(d-1))
		}
		return Exp(ws...)
	case 6:
		// a script, evaluated when the condition is
		return Blk(S(Lit(g.pick(">", ">=", "<", "<=", "==", "!=")), g.num(d-1), g.num(d-1)))
	case 7:
		s := &Script{}
		if g.p(400) {
			s.Ss = append(s.Ss, g.stmt())
		}
		s.Ss = append(s.Ss, S(Lit("set"), Lit("t"), g.cond(d-1)))
		return BlkW(s)
	}
	return Var(g.v())
}
func (g *picol) callW(d int) *Word {
	if len(g.procs) == 0 {
		return Var(g.v())
	}
	return Exp(g.call(d)...)
}
func (g *picol) call(d int) []*Word {
	if len(g.procs) == 0 {
		return []*Word{Lit("tick")}
	}
	p := g.procs[g.n(len(g.procs))]
	k := p.min
	if p.max > p.min {
		k += g.n(p.max - p.min + 1)
	} else if p.max < 0 {
		k += g.n(3)
	}
	if g.p(60) {
		k += g.n(3) - 1
	}
	ws := []*Word{Lit(p.name)}
	for ; k > 0; k-- {
		if g.p(60) {
			ws = append(ws, SubN(1, true, TupW(Lit("a"), Lit("i"))))
			continue
		}
		ws = append(ws, g.value(d-1))
	}
	return ws
}
func (g *picol) jump() *Sentence {
	switch g.n(8) {
	case 0, 1:
		return S(Lit("return"), g.value(1))
	case 2:
		return S(Lit("return"))
	case 3, 4:
		return S(Lit("break"))
	case 5, 6:
		return S(Lit("continue"))
	}
	return S(Lit("error"), g.pickW(Text("an error"), g.value(0), TupW(Lit("e"), Lit("f"))))
}
func (g *picol) pickW(ws ...*Word) *Word { return ws[g.n(len(ws))] }

// statements of a body
func (g *picol) stmts(n int) []*Sentence {
	var r []*Sentence
	for k := 1 + g.n(n); k > 0; k-- {
		r = append(r, g.stmt())
	}
	j := 60
	if g.loop > 0 {
		j = 200
	} else if g.inProc {
		j = 300
	}
	if g.p(j) {
		r = append(r, g.jump())
		if g.p(300) {
			r = append(r, S(Lit("emit"), Lit("unreached")))
		}
	}
	return r
}
func (g *picol) body(n int) *Word {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth > 4 || g.p(40) {
		if g.p(300) {
			return Blk()
		}
		return Blk(S(Lit("emit"), Var(g.v())))
	}
	return Blk(g.stmts(n)...)
}

// a jump under a condition
func (g *picol) maybe() *Sentence {
	return S(Lit("if"), g.cond(2), Blk(g.jump()))
}
func (g *picol) loopBody(n int, counter string) *Word {
	g.loop++
	defer func() { g.loop-- }()
	ss := []*Sentence{S(Lit("tick"))}
	if counter != "" {
		ss = append(ss, S(Lit("incr"), Lit(counter)))
	}
	b := g.body(n)
	if g.p(400) {
		ss = append(ss, g.maybe())
	}
	return BlkW(&Script{Ss: append(ss, b.B.Ss...)})
}
func (g *picol) stmt() *Sentence {
	if g.budget--; g.budget < 0 {
		return S(Lit("emit"), Var(g.v()))
	}
	if g.depth > 4 {
		return S(Lit("emit"), g.num(1))
	}
	switch g.n(20) {
	case 0, 1, 2:
		return S(Lit("emit"), g.value(2))
	case 3, 4, 5:
		return S(Lit("set"), Lit(g.v()), g.value(2))
	case 6:
		if g.p(300) {
			return S(Lit("incr"), Lit(g.v()))
		}
		return S(Lit("incr"), Lit(g.v()), g.num(1))
	case 7, 8:
		if g.p(500) {
			return S(Lit("if"), g.cond(2), g.body(3))
		}
		return S(Lit("if"), g.cond(2), g.body(3), Lit(g.pick("else", "else", "else", "otherwise")), g.body(3))
	case 9:
		c := g.pick("i", "j")
		return S(Lit("while"), Blk(S(Lit("<"), Var(c), Lit(g.pick("3", "5", "2")))), g.loopBody(3, c))
	case 10:
		return S(Lit("while"), g.cond(2), g.loopBody(3, g.v()))
	case 11, 12:
		c := g.pick("i", "j", "n")
		start := Blk(S(Lit("set"), Lit(c), Lit("0")))
		next := Blk(S(Lit("incr"), Lit(c)))
		if g.p(150) {
			next = Blk(S(Lit("incr"), Lit(c)), S(Lit("emit"), Var(c)))
		}
		if g.p(60) {
			next = Blk(S(Lit("incr"), Lit(c)), g.maybe())
		}
		if g.p(40) {
			start = Blk(S(Lit("set"), Lit(c), Lit("0")), g.maybe())
		}
		return S(Lit("for"), start, Blk(S(Lit("<"), Var(c), Lit(g.pick("3", "2", "4")))), next, g.loopBody(3, ""))
	case 13, 14:
		return g.proc()
	case 15, 16:
		return S(g.call(2)...)
	case 17:
		return g.maybe()
	case 18:
		return g.misuse()
	}
	return S(Lit("emit"), g.value(3))
}
func (g *picol) proc() *Sentence {
	p := pproc{name: g.pick("p", "q", "p")}
	if g.p(40) {
		p.name = g.pick("+", "if", "set", "return", "incr")
	}
	specs := []*Word{}
	var params []string
	vars := []string{"a", "b", "c", "n"}
	for k := g.n(4); k > 0; k-- {
		name := vars[g.n(len(vars))]
		params = append(params, name)
		if g.p(250) {
			d := g.numLit()
			if g.p(300) {
				d = g.pickW(Text("d f"), TupW(Lit("x")), Lit("yes"), Blk(S(Lit("emit"), Lit("1"))))
			}
			specs = append(specs, Blk(S(Lit(name), d)))
			p.max++
			continue
		}
		specs = append(specs, Lit(name))
		p.max++
		p.min = p.max
	}
	if g.p(200) {
		specs = append(specs, Lit("args"))
		params = append(params, "args")
		p.max = -1
	}
	if g.p(40) {
		specs = append(specs, g.pickW(Blk(), Blk(S(Lit("a"), Lit("b"), Lit("c"))), Blk(S(Text(""), Lit("1"))), Blk(S(Exp(Lit("set"), Lit("a")))), Blk(S(Var("a"))),
			TupW(Lit("a")), Blk(S(Lit("a")), S(Lit("5"))), Cmp(Lit("a"), Var("b")), Bad(`{a}b`), Lit("args"), Blk(S(Lit("args"), Lit("3"))), Blk(S(SubN(1, true, TupW())))))
	}
	op, oloop, oin, ov := g.procs, g.loop, g.inProc, g.vars
	g.vars = params
	ss := []*Sentence{S(Lit("tick"))}
	for _, v := range []string{"i", "res"} {
		if len(params) == 0 || g.p(400) {
			ss = append(ss, S(Lit("set"), Lit(v), g.numLit()))
			g.vars = append(g.vars, v)
		}
	}
	g.procs = append(append([]pproc{}, g.procs...), p)
	g.loop, g.inProc = 0, true
	b := g.body(4)
	g.procs, g.loop, g.inProc, g.vars = op, oloop, oin, ov
	body := BlkW(&Script{Ss: append(ss, b.B.Ss...)})
	if g.p(30) {
		body = Blk()
	}
	if len(g.procs) < 8 {
		g.procs = append(g.procs, p)
	}
	var sp *Word
	if g.p(800) {
		sp = BlkW(One(specs...))
		if len(specs) == 0 {
			sp = Blk()
		}
	} else if len(specs) == 0 {
		sp = TupW()
	} else {
		sp = TupW(specs...)
	}
	return S(Lit("proc"), Lit(p.name), sp, body)
}

// calls of every command, with any number of any words
func (g *picol) misuse() *Sentence {
	ws := []*Word{Lit(g.pick("+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=", "!", "&&", "||", "if", "for", "set", "incr", "proc", "return", "break",
		"continue", "error", "unknown", "while"))}
	switch g.n(12) {
	case 0:
		ws[0] = Var(g.v())
	case 1:
		ws[0] = TupW(Lit("+"), Lit("1"))
	case 2:
		ws[0] = Bad(`"a"b`)
	}
	if ws[0].V == "while" {
		ws = append(ws, Lit("false"))
	}
	for k := g.n(6); k > 0; k-- {
		switch g.n(6) {
		case 0:
			ws = append(ws, g.odd())
		case 1:
			ws = append(ws, g.num(1))
		case 2:
			ws = append(ws, Lit(g.v()))
		case 3:
			ws = append(ws, g.sel())
		case 4:
			ws = append(ws, g.body(1))
		case 5:
			ws = append(ws, g.cond(1))
		}
	}
	// no endless loops
	if ws[0].V == "for" && len(ws) > 2 {
		ws[2] = Lit("0")
	}
	if ws[0].V == "while" && len(ws) > 2 {
		ws[1] = g.pickW(Lit("no"), TupW(), Lit("maybe"), ExpW(Scr()))
	}
	if ws[0].V == "proc" && len(ws) == 4 && ws[3].K == "blk" {
		ws[3] = Blk(S(Lit("tick")), S(Lit("set"), Lit("a")))
	}
	return S(ws...)
}
func (g *picol) sel() *Word {
	switch g.n(7) {
	case 0:
		return Sub(Lit(g.v()), Idx(Lit(g.pick("0", "1", "9", "x"))))
	case 1:
		return Sub(Lit(g.v()), Key(Lit("k")))
	case 2:
		return Sub(TupW(Lit("a"), TupW(Lit("b"))))
	case 3:
		return Qual(Lit(g.v()), Idx(Lit("0")), Key(Lit("k")))
	case 4:
		return Sub(Exp(Lit("set"), Lit(g.v())), Idx(Lit("0")))
	case 5:
		return SubN(2, false, Lit(g.v()))
	}
	return Sub(BlkW(One(Lit(g.v()))), Rul(S(Lit("a"))))
}

func picolProgram(g0 *G, p *rec.Program) {
	g := &picol{G: g0}
	p.Dialect = "picol"
	for k := 1 + g.n(3); k > 0; k-- {
		g.budget = 6 + g.n(12)
		s := &Script{}
		if len(p.Mains) == 0 || g.p(200) {
			for _, v := range []string{"a", "b", "i", "j", "n", "x", "c"} {
				if g.p(950) {
					if len(p.Mains) == 0 {
						g.vars = append(g.vars, v)
					}
					s.Ss = append(s.Ss, S(Lit("set"), Lit(v), g.pickW(g.numLit(), Lit("0"), Lit("1"), g.value(0))))
				}
			}
		}
		for j := 2 + g.n(5); j > 0; j-- {
			s.Ss = append(s.Ss, g.stmt())
		}
		if g.p(150) {
			s.Ss = append(s.Ss, g.jump())
		}
		p.Mains = append(p.Mains, s)
	}
}

func init() { profiles["C17"] = picolProgram }
