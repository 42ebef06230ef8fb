package gen

import (
	"fmt"
	. "hv/lang"
	"hv/rec"
)

// modPaths are module files of a program, relative to the root directory.
var modPaths = []string{"a.lna", "b.lna", "lib/c.lna", "lib/x/d.lna", "e"}

// rel writes a path that reaches file `to` from the directory of `from`
// (from == "" is the root directory), with redundant steps now and then.
func (g *G) rel(from, to string) string {
	up := map[string]string{"": "", "a.lna": "", "b.lna": "", "e": "", "lib/c.lna": "../", "lib/x/d.lna": "../../"}[from]
	p := up + to
	switch {
	case from == "lib/c.lna" && to == "lib/x/d.lna" && g.p(500):
		p = "x/d.lna"
	case from == "lib/x/d.lna" && to == "lib/c.lna" && g.p(500):
		p = "../c.lna"
	case from == "lib/c.lna" && to == "lib/c.lna" && g.p(500):
		p = "c.lna"
	}
	switch g.n(8) {
	case 0:
		p = "./" + p
	case 1:
		p = "lib/../" + p
		if up != "" {
			p = "x/../" + up + to
		}
	case 2:
		p = up + "./" + to
	case 3:
		p = up + "lib//../" + to
	}
	return p
}

var modNames = []string{"f", "g", "next", "h"}

// importWords is an import command for a module file.
func (g *G) importWords(from, to string) []*Word {
	ws := []*Word{Lit("import"), Lit(g.rel(from, to))}
	name := func() *Word {
		n := g.pick(modNames...)
		switch g.n(8) {
		case 0, 1:
			return TupW(Lit(n), Lit(g.pick("f", "g", "k", "n2", "next")))
		case 2:
			if g.p(200) {
				return TupW(Lit(n))
			}
			if g.p(200) {
				return Lit("nope")
			}
		}
		return Lit(n)
	}
	names := func() []*Word {
		r := []*Word{}
		for i := 0; i < 1+g.n(3); i++ {
			r = append(r, name())
		}
		return r
	}
	switch g.n(8) {
	case 0:
	case 1:
		ws = append(ws, Exp(Lit("list"), TupW(names()...)))
	case 2:
		ws = append(ws, Blk(S(names()...)))
	case 3:
		ws = append(ws, Lit(g.pick("md", "me", "f")))
	default:
		ws = append(ws, TupW(names()...))
	}
	if g.p(10) {
		ws = append(ws, Lit("extra"))
	}
	return ws
}
func emitCatch(ws ...*Word) *Sentence {
	return S(Lit("emit"), Exp(Lit("catch"), Blk(S(ws...))))
}

// modUse calls something an import may have brought.
func (g *G) modUse() *Sentence {
	switch g.n(7) {
	case 0:
		return emitCatch(Lit(g.pick("md", "me")), Lit("exports"))
	case 1:
		return emitCatch(Lit(g.pick("md", "me")), Lit("import"), Lit(g.pick(modNames...)), Lit(g.pick("k", "f", "n2")))
	case 2:
		return emitCatch(Lit(g.pick("md", "me")), Lit("import"), Lit(g.pick(modNames...)))
	case 3:
		return S(Lit("emit"), Exp(Lit("exists"), Lit(g.pick("cnt", "who", "loc"))))
	default:
		return emitCatch(Lit(g.pick("f", "g", "next", "k", "n2", "h")), g.val(kInt))
	}
}

func modulesProgram(g *G, p *rec.Program) {
	n := 1 + g.n(len(modPaths))
	files := modPaths[:n]
	for i, f := range files {
		if g.p(50) {
			bad := []string{"emit \"a", "emit (a", "emit a}", "emit [", "emit $\"a\"", "#{"}
			msg := []string{"unmatched string delimiter", "unmatched left parenthesis", "unmatched right brace", "unmatched left bracket", "unexpected string delimiter", "unmatched block comment delimiter"}
			k := g.n(len(bad))
			p.Files = append(p.Files, rec.File{Path: f, Raw: bad[k], Err: msg[k]})
			continue
		}
		b := &Script{}
		add := func(ss ...*Sentence) { b.Ss = append(b.Ss, ss...) }
		add(S(Lit("import"), Lit("host"), TupW(Lit("emit"), Lit("tick"))))
		add(S(Lit("emit"), TupW(Lit("start"), Lit(f))))
		add(S(Lit("set"), Lit("cnt"), Lit(fmt.Sprint(10*i))))
		add(S(Lit("let"), Lit("who"), Lit(f)))
		for j := 0; j < 1+g.n(5); j++ {
			switch g.n(10) {
			case 0, 1, 2:
				to := files[g.n(n)]
				if g.p(60) {
					to = g.pick("zz.lna", "lib", "lib/x", "lib/zz.lna")
				}
				ws := g.importWords(f, to)
				if g.p(550) {
					add(S(ws...))
				} else {
					add(emitCatch(ws...))
				}
			case 3, 4, 5:
				nm := g.pick(modNames...)
				kind := g.pick("proc", "closure", "macro", "closure")
				body := []*Sentence{}
				if kind != "proc" && kind != "macro" || g.p(150) {
					body = append(body, S(Lit("set"), Lit("cnt"), Exp(Lit("+"), Var("cnt"), Lit("1"))))
				}
				body = append(body, S(Lit("emit"), TupW(Lit(nm), Lit(f), Exp(Lit("get"), Lit("v"), Lit("none")), Exp(Lit("get"), Lit("cnt"), Lit("none")), Exp(Lit("get"), Lit("who"), Lit("none")))))
				if g.p(300) {
					body = append(body, g.modUse())
				}
				if g.p(200) {
					body = append(body, emitCatch(g.importWords(f, files[g.n(n)])...))
				}
				body = append(body, S(Lit("idem"), Lit(nm+f)))
				add(S(Lit(kind), Lit(nm), TupW(Lit("?v")), Blk(body...)))
				if g.p(800) {
					add(S(Lit("export"), Lit(nm)))
				}
			case 6:
				add(S(Lit("export"), Lit(g.pick("f", "g", "next", "idem", "nope", "h"))))
			case 7:
				add(g.modUse())
			case 8:
				// fails until a counter reaches a limit
				add(emitCatch(Lit("import"), Lit(g.rel(f, files[0])), TupW(Lit("next"))),
					S(Lit("if"), Exp(Lit("catch"), Blk(S(Lit("idem"), Lit("x")))), Blk(S(Lit("idem"), Lit("1")))))
				b.Ss = b.Ss[:len(b.Ss)-1]
			case 9:
				if g.p(300) {
					add(g.jump())
				} else if g.p(300) {
					add(S(Lit("if"), Exp(Exp(Lit("next"), Lit("1")), Lit("<"), Lit("3")), Blk(S(Lit("error"), Text("not yet")))))
				}
			}
		}
		add(S(Lit("emit"), TupW(Lit("end"), Lit(f))))
		if i == 0 && g.p(600) {
			add(S(Lit("closure"), Lit("next"), TupW(Lit("?v")), Blk(S(Lit("set"), Lit("cnt"), Exp(Lit("+"), Var("cnt"), Lit("1"))), S(Lit("get"), Lit("cnt")))),
				S(Lit("export"), Lit("next")))
		}
		if g.p(200) {
			add(S(Lit("error"), Lit("late")))
		}
		p.Files = append(p.Files, rec.File{Path: f, Body: b})
	}
	for m := 0; m < 1+g.n(3); m++ {
		s := &Script{}
		for j := 0; j < 2+g.n(6); j++ {
			switch g.n(10) {
			case 0, 1, 2, 3, 4:
				to := files[g.n(n)]
				if g.p(60) {
					to = g.pick("zz.lna", "lib", "lib/x", "../R/a.lna")
					if to == "../R/a.lna" {
						to = "a.lna"
					}
				}
				ws := g.importWords("", to)
				switch {
				case g.p(100):
					s.Ss = append(s.Ss, S(ws...))
				case g.p(120):
					s.Ss = append(s.Ss, S(Lit("set"), Lit("md"), Exp(ws...)), emitCatch(Exp(Var("md")), Lit("exports")))
				case g.p(120):
					s.Ss = append(s.Ss, S(Lit("namespace"), Lit("ns"), Blk(S(Lit("emit"), Exp(Lit("catch"), Blk(S(ws...)))), g.modUse())))
				default:
					s.Ss = append(s.Ss, emitCatch(ws...))
				}
			case 5:
				s.Ss = append(s.Ss, S(Lit("set"), Lit("cnt"), Lit(fmt.Sprint(100*j))))
			default:
				s.Ss = append(s.Ss, g.modUse())
			}
		}
		p.Mains = append(p.Mains, s)
	}
}

// graphProgram is the import graph number i over three modules: each module
// imports each module not at all, with errors caught, or uncaught.
func graphProgram(g *G, p *rec.Program, i int) {
	files := []string{"a.lna", "b.lna", "lib/c.lna"}
	code := (i*7919 + int(g.R.Int63n(19683))) % 19683
	if i < 512 {
		// all graphs with uncaught imports first
		code = 0
		m := 1
		for k := 0; k < 9; k++ {
			if i>>k&1 == 1 {
				code += 2 * m
			}
			m *= 3
		}
	}
	for f, name := range files {
		b := &Script{}
		b.Ss = append(b.Ss, S(Lit("import"), Lit("host"), TupW(Lit("emit"), Lit("tick"))), S(Lit("emit"), TupW(Lit("start"), Lit(name))),
			S(Lit("set"), Lit("cnt"), Lit(fmt.Sprint(10*f))),
			S(Lit("closure"), Lit(fmt.Sprintf("f%d", f)), TupW(), Blk(S(Lit("set"), Lit("cnt"), Exp(Lit("+"), Var("cnt"), Lit("1"))))),
			S(Lit("export"), Lit(fmt.Sprintf("f%d", f))))
		for t, to := range files {
			k := code % 3
			code /= 3
			if k == 0 {
				continue
			}
			nm := fmt.Sprintf("f%d", t)
			ws := []*Word{Lit("import"), Lit(g.rel(name, to)), TupW(TupW(Lit(nm), Lit("i"+nm)))}
			if k == 1 {
				b.Ss = append(b.Ss, emitCatch(ws...))
			} else {
				b.Ss = append(b.Ss, S(ws...))
			}
			b.Ss = append(b.Ss, emitCatch(Lit("i"+nm)))
		}
		b.Ss = append(b.Ss, S(Lit("emit"), TupW(Lit("end"), Lit(name))))
		p.Files = append(p.Files, rec.File{Path: name, Body: b})
	}
	s := &Script{}
	for j := 0; j < 4; j++ {
		f := g.n(3)
		nm := fmt.Sprintf("f%d", f)
		s.Ss = append(s.Ss, emitCatch(Lit("import"), Lit(g.rel("", files[f])), TupW(Lit(nm))), emitCatch(Lit(nm)))
	}
	p.Mains = append(p.Mains, s)
}
