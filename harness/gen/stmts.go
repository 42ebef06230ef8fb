package gen

import (
	"fmt"
	. "hv/lang"
	"hv/rec"
)

func init() {
	order = []stmt{
		{"emit", func(g *G) []*Sentence { return one(S(Lit("emit"), g.val(kAny))) }},
		{"compute", func(g *G) []*Sentence { return one(g.use(g.typed0(g.anyKind()))) }},
		{"number", func(g *G) []*Sentence { return one(g.use(g.typed0(g.oneOf(kNum, kNum, kBool, kInt)))) }},
		{"coll", func(g *G) []*Sentence {
			return one(g.use(g.typed0(g.oneOf(kList, kDict, kStr, kInt, kTup, kBool))))
		}},
		{"collraw", stCollRaw},
		{"cli", stCli},
		{"set", stSet},
		{"let", stLet},
		{"destruct", stDestruct},
		{"get", stGet},
		{"unset", stUnset},
		{"exists", func(g *G) []*Sentence {
			return one(S(Lit("emit"), Exp(Lit("exists"), g.qualOrName())))
		}},
		{"if", stIf},
		{"when", stWhen},
		{"while", stWhile},
		{"loop", stLoop},
		{"foreach", stForeach},
		{"catch", stCatch},
		{"proc", func(g *G) []*Sentence { return g.define("proc") }},
		{"closure", func(g *G) []*Sentence { return g.define("closure") }},
		{"macro", func(g *G) []*Sentence { return g.define("macro") }},
		{"call", func(g *G) []*Sentence {
			if s := g.call(kAny); s != nil {
				return one(g.use(s.Ws))
			}
			return one(S(Lit("emit"), g.val(kAny)))
		}},
		{"jump", func(g *G) []*Sentence { return one(g.jump()) }},
		{"jumpif", func(g *G) []*Sentence { return one(g.jumpIf()) }},
		{"yield", func(g *G) []*Sentence { return one(S(Lit("emit"), Exp(Lit("yield"), g.val(kAny)))) }},
		{"scope", func(g *G) []*Sentence { return g.space("scope") }},
		{"namespace", func(g *G) []*Sentence { return g.space("namespace") }},
		{"ensemble", func(g *G) []*Sentence { return g.space("ensemble") }},
		{"coroutine", stCoroutine},
		{"corerr", stCorErr},
		{"alias", stAlias},
		{"tuplecmd", stTupleCmd},
		{"module", stModule},
		{"eval", stEval},
		{"script", stScript},
		{"intrinsic", stIntrinsic},
		{"word", stWord},
		{"badword", func(g *G) []*Sentence {
			return one(S(Lit("emit"), Bad(g.pick(`"a"b`, `{a}b`, `(a)b`, `(a)[b]c`, `a(b)c`, `#{a}#b`, `${a}b{c}`, `"a"[b]`, `"a"$b`, `$(a)b`, `a$(b)`, `[a]{b}`, `a(b)$c`))))
		}},
		{"argspec", stArgspec},
		{"options", stOptions},
		{"meta", stMeta},
		{"immut", stImmut},
		{"fork", stFork},
		{"sort", stSort},
		{"convert", stConvert},
		{"unknown", func(g *G) []*Sentence {
			return one(S(Lit("emit"), Exp(Lit(g.pick("nocmd", "f", "g", "h", "emitx", "cmd1")), g.val(kAny))))
		}},
		{"arity", stArity},
		{"help", stHelp},
		{"misuse", stMisuse},
		{"import", stImport},
		{"export", stExport},
		{"truth", stTruth},
		{"logic", func(g *G) []*Sentence { return one(g.use(g.typed0(kBool))) }},
		{"guarded", stGuarded},
		{"nested", stNested},
		{"looppat", stLoopPat},
		{"redef", stRedef},
		{"qualsel", stQual},
		{"resume", stResume},
		{"inter", stInter},
	}
}

func stSet(g *G) []*Sentence {
	n := g.varName()
	k := g.anyKind()
	w := g.val(k)
	g.setKnown(n, k, false)
	return one(S(Lit("set"), Lit(n), w))
}
func stLet(g *G) []*Sentence {
	n := g.varName()
	if g.p(700) {
		g.nv++
		n = fmt.Sprintf("c%d", g.nv)
	}
	k := g.anyKind()
	w := g.val(k)
	g.setKnown(n, k, true)
	return one(S(Lit("let"), Lit(n), w))
}
func stDestruct(g *G) []*Sentence {
	a, b, ns := g.shape(2)
	con := g.p(300)
	cmd := "set"
	if con {
		cmd = "let"
	}
	if g.p(50) {
		b = g.val(kAny)
	}
	r := one(S(Lit(cmd), a, b))
	if g.p(300) {
		r = one(S(Lit("emit"), Exp(Lit("catch"), Blk(S(Lit(cmd), a, b)))))
	}
	for _, n := range ns {
		r = append(r, S(Lit("emit"), Exp(Lit("get"), Lit(n), Lit("unset"))))
	}
	return r
}
func (g *G) anyName() string {
	if n := g.known(kAny); n != "" && g.p(700) {
		return n
	}
	return g.pick("a", "b", "c", "d", "zz", "c1", "p", "x")
}
func (g *G) qualOrName() *Word {
	switch g.n(7) {
	case 0:
		return Qual(Lit(g.anyName()), Idx(Lit("idem"), Lit(g.pick("0", "1", "5"))))
	case 1:
		return Qual(Lit(g.anyName()), Key(Text(keys[g.n(len(keys))])))
	case 2:
		return TupW(Lit(g.anyName()), Lit(g.anyName()))
	case 3:
		return Qual(Lit(g.anyName()), Key(Lit("a")), Idx(Lit("idem"), Lit("0")))
	}
	return Lit(g.anyName())
}
func stGet(g *G) []*Sentence {
	if g.p(400) {
		return one(S(Lit("emit"), Exp(Lit("get"), g.qualOrName(), g.val(kAny))))
	}
	if g.p(300) {
		return one(S(Lit("emit"), Var(g.anyName())))
	}
	return one(S(Lit("emit"), Exp(Lit("get"), g.qualOrName())))
}
func stUnset(g *G) []*Sentence {
	a := g.anyName()
	b := g.anyName()
	w := Lit(a)
	if g.p(200) {
		w = TupW(Lit(a), Lit(b))
		if g.p(500) {
			w = TupW(Lit(a), TupW(Lit(b)))
		}
	}
	r := S(Lit("unset"), w)
	if g.p(500) {
		r = S(Lit("emit"), Exp(Lit("catch"), Blk(r)))
	}
	return []*Sentence{r, S(Lit("emit"), TupW(Exp(Lit("exists"), Lit(a)), Exp(Lit("exists"), Lit(b))))}
}
func (g *G) bodyBlk(n int) *Word {
	c := g.inner(nil, false)
	c.locals = g.c.locals // same scope: locals stay visible
	return BlkW(g.ending(g.script(n, c), c))
}
func stIf(g *G) []*Sentence {
	ws := []*Word{Lit("if"), g.test(), g.bodyBlk(2)}
	for i := 0; i < g.n(3); i++ {
		ws = append(ws, Lit("elseif"), g.test(), g.bodyBlk(2))
	}
	if g.p(600) {
		ws = append(ws, Lit("else"), g.bodyBlk(2))
	}
	return one(g.use(ws))
}
func stWhen(g *G) []*Sentence {
	ws := []*Word{Lit("when")}
	withCmd := g.p(500)
	if withCmd {
		switch g.n(5) {
		case 0:
			ws = append(ws, Blk(S(Lit("idem"), Lit("=="))))
		case 1:
			ws = append(ws, Blk(S(Lit("idem"), TupW(g.literal(kNum), Lit("==")))))
		case 2:
			ws = append(ws, TupW(Lit("string"), Text(g.pick("a", "b", "foo")), Lit("==")))
		default:
			ws = append(ws, TupW(g.literal(kInt), Lit(g.pick("==", ">", "<="))))
		}
	}
	var cs []*Word
	k := g.n(4)
	for i := 0; i < k; i++ {
		var t *Word
		switch {
		case withCmd && g.p(700):
			t = Lit(g.pick("1", "2", "3", "5", "a", "b"))
		case withCmd && g.p(500):
			t = TupW(Lit(g.pick("1", "2")))
		case withCmd:
			t = Blk(S(Lit("emit"), g.literal(kBool)))
		case g.p(400):
			t = g.literal(kBool)
		case g.p(300):
			t = TupW(Lit(g.pick("idem", "emit", "!")), g.literal(kBool))
		default:
			t = Blk(S(g.typed0(kBool)...))
		}
		cs = append(cs, t, g.bodyBlk(2))
	}
	if g.p(500) {
		cs = append(cs, g.bodyBlk(2))
	}
	if g.p(600) {
		ws = append(ws, BlkW(linesOf(cs)))
	} else {
		ws = append(ws, TupW(cs...))
	}
	return one(g.use(ws))
}
func linesOf(ws []*Word) *Script {
	s := &Script{}
	for i := 0; i < len(ws); i += 2 {
		if i+1 < len(ws) {
			s.Ss = append(s.Ss, S(ws[i], ws[i+1]))
		} else {
			s.Ss = append(s.Ss, S(ws[i]))
		}
	}
	return s
}
func stWhile(g *G) []*Sentence {
	g.nv++
	n := fmt.Sprintf("i%d", g.nv)
	lim := g.pick("2", "3", "4", "0")
	g.setKnown(n, kInt, false)
	inc := S(Lit("set"), Lit(n), Exp(Lit("+"), Var(n), Lit("1")))
	test := Blk(S(Var(n), Lit("<"), Lit(lim)))
	if g.p(200) {
		test = Blk(S(Lit("tick")), S(Lit("emit"), Exp(Var(n), Lit("<"), Lit(lim))))
	}
	if g.p(100) {
		test = Lit(g.pick("true", "false"))
	}
	body := g.loopBody(map[string]kind{})
	ss := body.B.Ss
	// the increment comes first so that continue does not skip it
	body.B.Ss = append([]*Sentence{ss[0], inc}, ss[1:]...)
	return []*Sentence{S(Lit("set"), Lit(n), Lit("0")), g.use([]*Word{Lit("while"), test, body})}
}
func stLoop(g *G) []*Sentence {
	ws := []*Word{Lit("loop")}
	locals := map[string]kind{}
	if g.p(500) {
		ws = append(ws, Lit("i"))
		locals["i"] = kInt
	}
	k := g.n(3)
	if g.p(60) {
		k = 3
	}
	for s := 0; s < k; s++ {
		n := g.pick("x", "y", "z", "w")
		w := Lit(n)
		kk := kAny
		var src *Word
		switch g.n(8) {
		case 0, 1, 2:
			src = Exp(Lit("list"), g.tuple(0, 3, kInt))
			kk = kInt
		case 3:
			src = Exp(Lit("list"), TupW(TupW(Lit("1"), Lit("2")), TupW(Lit("3"), Lit("4"))))
			w = TupW(Lit(n), Lit(n+"2"))
			kk = kInt
		case 4:
			src = Exp(Lit("dict"), g.pairs(g.n(3)))
			w = TupW(Lit("k"), Lit(n))
		case 5:
			// a script source, ended by break
			src = BlkW(Scr(S(Lit("tick")), S(Lit("if"), g.test(), Blk(g.srcEnd())), S(Lit("idem"), g.val(kAny))))
		case 6:
			src = TupW(Lit(g.pick("idem", "+", "emit")))
			if g.p(300) {
				src = Lit("idem")
			}
			kk = kInt
		default:
			src = g.val(g.oneOf(kList, kDict, kInt, kAny))
		}
		ws = append(ws, w, src)
		locals[n] = kk
	}
	if k == 0 || g.p(300) {
		// make sure it can end early
		c := g.inner(locals, true)
		s := g.script(2, c)
		g.with(c, func() {
			s.Ss = append(s.Ss, S(Lit("if"), g.loopTest(locals), Blk(S(Lit("break"), g.val(kAny)))))
			s.Ss[len(s.Ss)-1] = S(Lit("if"), g.loopTest(locals), Blk(S(Lit("break"))))
		})
		s = g.ending(s, c)
		s.Ss = append([]*Sentence{S(Lit("tick"))}, s.Ss...)
		ws = append(ws, BlkW(s))
	} else {
		ws = append(ws, g.loopBody(locals))
	}
	return one(g.use(ws))
}
func (g *G) srcEnd() *Sentence {
	switch g.n(6) {
	case 0:
		return S(Lit("continue"))
	case 1:
		return g.jump()
	}
	return S(Lit("break"))
}
func stForeach(g *G) []*Sentence {
	locals := map[string]kind{}
	var ws []*Word
	isDict := g.p(350)
	if isDict {
		ws = []*Word{Lit("dict"), Exp(Lit("dict"), g.pairs(g.n(4))), Lit("foreach")}
	} else {
		ws = []*Word{Lit("list"), g.val(kList), Lit("foreach")}
	}
	if g.p(400) {
		ws = append(ws, Lit("i"))
		locals["i"] = kInt
	}
	switch {
	case isDict && g.p(700):
		ws = append(ws, TupW(Lit("k"), Lit("v")))
		locals["k"], locals["v"] = kStr, kAny
	case !isDict && g.p(200):
		ws[1] = TupW(TupW(Lit("1"), Lit("2")), TupW(Lit("3"), g.val(kAny), Lit("4")))
		ws = append(ws, TupW(Lit("x"), Lit("y")))
		locals["x"], locals["y"] = kInt, kAny
	default:
		ws = append(ws, Lit("e"))
		locals["e"] = kAny
	}
	ws = append(ws, g.loopBody(locals))
	return one(g.use(ws))
}
func stCatch(g *G) []*Sentence {
	c := g.inner(nil, false)
	c.catch = true
	body := g.script(2, c)
	if g.p(800) {
		g.with(c, func() { body.Ss = append(body.Ss, g.jump()) })
	}
	ws := []*Word{Lit("catch"), BlkW(body)}
	hs := []string{"return", "yield", "error", "break", "continue", "finally"}
	// keyword order is free
	g.R.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	k := g.n(4)
	if g.p(100) {
		k = 6
	}
	for _, h := range hs[:k] {
		ws = append(ws, Lit(h))
		l := map[string]kind{}
		if h == "return" || h == "yield" || h == "error" {
			n := g.pick("e", "r", "a")
			ws = append(ws, Lit(n))
			l[n] = kAny
		}
		hc := g.inner(l, false)
		s := g.script(2, hc)
		if g.p(g.W["pass"]) {
			s.Ss = append(s.Ss, S(Lit("pass")))
		} else {
			s = g.ending(s, hc)
		}
		ws = append(ws, BlkW(s))
	}
	return one(g.use(ws))
}
func (g *G) space(kw string) []*Sentence {
	name := g.cmdName()
	c := newCtx(g.c)
	var args []*Word
	req := 0
	if kw == "ensemble" {
		words, _, r, opt, rem := g.spec()
		if (opt > 0 || rem) && g.p(900) {
			words, r = nil, 0
			for i := 0; i < g.n(3); i++ {
				w := Lit(fmt.Sprintf("s%d", i))
				if g.p(300) {
					w = TupW(g.guard(), w)
				}
				words = append(words, w)
				r++
			}
		}
		req = r
		args = append(args, TupW(words...))
	}
	body := &Script{}
	subs := []string{}
	g.with(c, func() {
		k := 1 + g.n(3)
		for i := 0; i < k; i++ {
			if g.p(500) {
				sn := g.pick("s1", "s2", "s3")
				sub := []string{"proc", "closure", "macro", "closure"}[g.n(4)]
				np := g.n(3)
				if kw == "ensemble" {
					np += req
				}
				var ps []*Word
				l := map[string]kind{}
				for j := 0; j < np; j++ {
					n := fmt.Sprintf("p%d", j)
					ps = append(ps, Lit(n))
					l[n] = kAny
				}
				cc := g.inner(l, false)
				if sub == "proc" {
					cc = newCtx(g.c)
					cc.vars = l
				}
				bs := g.ending(g.script(2, cc), cc)
				if np > 0 && g.p(500) {
					bs.Ss = append(bs.Ss, S(Lit("emit"), Var("p0")))
				}
				body.Ss = append(body.Ss, S(Lit(sub), Lit(sn), TupW(ps...), BlkW(bs)))
				subs = append(subs, sn)
				c.cmds = append(c.cmds, cmdInfo{name: sn, req: np, kind: sub})
			} else {
				body.Ss = append(body.Ss, g.stmts()...)
			}
		}
	})
	if g.p(g.W["jump"] / 2) {
		g.with(c, func() { body.Ss = append(body.Ss, g.jump()) })
	}
	ws := append([]*Word{Lit(kw)}, args...)
	anon := g.p(150)
	if !anon {
		ws = []*Word{Lit(kw), Lit(name)}
		ws = append(ws, args...)
	}
	ws = append(ws, BlkW(body))
	head := Lit(name)
	var r []*Sentence
	if anon {
		n := g.varName()
		r = one(S(Lit("set"), Lit(n), Exp(ws...)))
		g.setKnown(n, kCmd, false)
		head = Exp(Var(n))
	} else {
		r = one(S(ws...))
	}
	meth := func(g *G) []*Word {
		sn := g.pick("s1", "s2", "s3", "nosub")
		if len(subs) > 0 && g.p(850) {
			sn = subs[g.n(len(subs))]
		}
		np := g.n(3)
		for _, ci := range c.cmds {
			if ci.name == sn && g.p(850) {
				np = ci.req
			}
		}
		vals := func(k int) (r []*Word) {
			for i := 0; i < k; i++ {
				r = append(r, g.val(kAny))
			}
			return
		}
		switch kw {
		case "scope":
			switch g.n(5) {
			case 0, 1:
				return []*Word{Lit("eval"), BlkW(g.script(2, c))}
			case 2:
				return []*Word{Lit(g.pick("subcommands", "bad", "call"))}
			}
			return append([]*Word{Lit("call"), Lit(sn)}, vals(np)...)
		case "ensemble":
			if np >= req {
				np -= req
			}
			a := vals(req)
			switch g.n(9) {
			case 0:
				return a
			case 1:
				if g.p(500) {
					return append(a, Lit("subcommands"))
				}
				return vals(g.n(3))
			}
			return append(append(a, Lit(sn)), vals(np)...)
		}
		if g.p(100) && len(c.cmds) <= 3 {
			return []*Word{Lit("subcommands")}
		}
		return append([]*Word{Lit(sn)}, vals(np)...)
	}
	if !anon {
		g.c.cmds = append(g.c.cmds, cmdInfo{name: name, kind: kw, args: meth, subs: subs})
	}
	use := func() {
		switch {
		case kw != "scope" && g.p(350):
			// through the metacommand
			ws := []*Word{Exp(head)}
			switch g.n(6) {
			case 0:
				ws = append(ws, Lit("eval"), BlkW(g.script(2, c)))
			case 1:
				ws = append(ws, Lit("eval"), TupW(append([]*Word{Lit("emit")}, g.val(kAny))...))
			case 2, 3:
				sn := g.pick("s1", "s2", "s3")
				if len(subs) > 0 {
					sn = subs[g.n(len(subs))]
				}
				ws = append(ws, Lit("call"), Lit(sn))
				for _, ci := range c.cmds {
					if ci.name == sn {
						for i := 0; i < ci.req; i++ {
							ws = append(ws, g.val(kAny))
						}
						break
					}
				}
			case 4:
				sn := g.pick("s1", "s2", "zz")
				if len(subs) > 0 {
					sn = subs[g.n(len(subs))]
				}
				ws = append(ws, Lit("import"), Lit(sn))
				if g.p(500) {
					ws = append(ws, Lit(g.pick("imp", "f")))
				}
				r = append(r, g.use(ws), g.use([]*Word{Lit(sn), g.val(kAny)}))
				return
			default:
				ws = append(ws, Lit(g.pick("subcommands", "argspec", "nosub")))
			}
			r = append(r, g.use(ws))
		case kw == "namespace" && g.p(250):
			ns := []string{}
			for n := range c.vars {
				ns = append(ns, n)
			}
			for n := range c.consts {
				ns = append(ns, n)
			}
			sortStrings(ns)
			n := g.pick("a", "zz")
			if len(ns) > 0 {
				n = ns[g.n(len(ns))]
			}
			vn := "nsv"
			r = append(r, S(Lit("set"), Lit(vn), Exp(head)), S(Lit("emit"), Sub(Lit(vn), Key(Lit(n)))))
		default:
			r = append(r, g.use(append([]*Word{head}, meth(g)...)))
		}
	}
	for i := 0; i < 1+g.n(2); i++ {
		use()
	}
	return r
}
func stCoroutine(g *G) []*Sentence {
	g.nv++
	n := fmt.Sprintf("co%d", g.nv)
	c := g.inner(nil, false)
	c.inCor = true
	body := &Script{}
	k := 1 + g.n(3)
	for i := 0; i < k; i++ {
		switch g.n(5) {
		case 0, 1:
			g.with(c, func() { body.Ss = append(body.Ss, S(Lit("emit"), Exp(Lit("yield"), g.val(kAny)))) })
		case 2:
			g.with(c, func() {
				body.Ss = append(body.Ss, S(Lit("loop"), Lit("i"), Lit("x"), Exp(Lit("list"), g.tuple(0, 3, kInt)),
					Blk(S(Lit("tick")), S(Lit("emit"), Exp(Lit("yield"), Var("x"))))))
			})
		default:
			body.Ss = append(body.Ss, g.script(1, c).Ss...)
		}
	}
	if g.p(300) {
		g.with(c, func() { body.Ss = append(body.Ss, g.jump()) })
	}
	g.setKnown(n, kCmd, false)
	r := one(S(Lit("set"), Lit(n), Exp(Lit("coroutine"), BlkW(body))))
	for i := 0; i < 1+g.n(5); i++ {
		r = append(r, g.corOp(n))
		if g.p(200) {
			r = append(r, g.stmts()...)
		}
	}
	return r
}

// a coroutine that fails, then is waited for again and again
func stCorErr(g *G) []*Sentence {
	g.nv++
	n := fmt.Sprintf("co%d", g.nv)
	c := g.inner(nil, false)
	c.inCor = true
	body := &Script{}
	if g.p(300) {
		body.Ss = append(body.Ss, S(Lit("yield"), g.val(kStr)))
	}
	body.Ss = append(body.Ss, g.script(1, c).Ss...)
	if g.p(700) {
		body.Ss = append(body.Ss, S(Lit("error"), g.val(kStr)))
	}
	g.setKnown(n, kCmd, false)
	r := one(S(Lit("set"), Lit(n), Exp(Lit("coroutine"), BlkW(body))))
	wait := func() *Sentence { return S(Var(n), Lit("wait")) }
	for i := 0; i < 1+g.n(3); i++ {
		switch g.n(4) {
		case 0, 1:
			r = append(r, S(Lit("catch"), Blk(wait()), Lit("error"), Lit("e"), Blk(S(Lit("emit"), Var("e")))))
		case 2:
			f := fmt.Sprintf("w%d", g.nv)
			r = append(r, S(Lit("closure"), Lit(f), TupW(), Blk(wait())), S(Lit("catch"), Blk(S(Lit(f)))))
		default:
			r = append(r, S(Lit("catch"), Blk(S(Lit("idem"), Exp(wait().Ws...)))))
		}
	}
	if g.p(500) {
		r = append(r, wait())
	}
	return r
}
func (g *G) corOp(n string) *Sentence {
	h := Exp(Var(n))
	var s *Sentence
	switch g.n(9) {
	case 0, 1, 2:
		s = S(Lit("emit"), Exp(h, Lit("wait")))
	case 3, 4, 5:
		s = S(Lit("emit"), Exp(h, Lit("yield"), g.val(kAny)))
	case 6:
		return S(Lit("emit"), TupW(Exp(h, Lit("active")), Exp(h, Lit("done"))))
	case 7:
		s = S(Lit("emit"), Exp(h, Lit("yield")))
	default:
		return S(Lit("emit"), Exp(h, Lit(g.pick("done", "active", "subcommands"))))
	}
	if g.p(600) {
		return S(Lit("emit"), Exp(Lit("catch"), Blk(s)))
	}
	return s
}
func stAlias(g *G) []*Sentence {
	g.nc++
	n := fmt.Sprintf("al%d", g.nc)
	var w *Word
	info := cmdInfo{name: n, kind: "alias", opt: 2}
	switch g.n(7) {
	case 0:
		w = Lit(g.pick("idem", "+", "list", "emit", "set", "if", "nocmd"))
		info.req = 1
	case 1:
		w = TupW(Lit("+"), g.val(kInt))
		info.req = 1
	case 2:
		w = TupW(Lit("idem"))
		info.req, info.opt = 1, 0
	case 3:
		w = TupW(Lit("string"), g.val(kStr))
	case 4:
		w = TupW(TupW(Lit("list")), g.val(kList))
	case 5:
		w = TupW(Lit(g.pick("return", "yield", "error", "break", "continue", "eval")))
	default:
		var l []cmdInfo
		for c := g.c; c != nil; c = c.par {
			l = append(l, c.cmds...)
		}
		w = Lit("idem")
		info.req, info.opt = 1, 0
		if len(l) > 0 {
			c := l[g.n(len(l))]
			if !c.rec {
				w = Lit(c.name)
				info.req, info.opt, info.rem, info.args = c.req, c.opt, c.rem, c.args
				if g.p(400) && c.args == nil && c.req > 0 {
					w = TupW(Lit(c.name), g.val(kAny))
					info.req--
				}
			}
		}
	}
	r := one(S(Lit("alias"), Lit(n), w))
	if g.p(150) {
		r = one(S(Lit("set"), Lit("al"), Exp(Lit("alias"), Lit(n), w)))
		r = append(r, g.use([]*Word{Exp(Var("al")), Lit(g.pick("command", "subcommands", "bad"))}))
	}
	g.c.cmds = append(g.c.cmds, info)
	if s := g.callOf(info); s != nil {
		r = append(r, g.use(s.Ws))
	}
	return r
}
func (g *G) callOf(c cmdInfo) *Sentence {
	ws := []*Word{Lit(c.name)}
	if c.args != nil {
		return S(append(ws, c.args(g)...)...)
	}
	n := c.req
	if c.opt > 0 {
		n += g.n(c.opt + 1)
	}
	for i := 0; i < n; i++ {
		ws = append(ws, g.val(g.oneOf(kAny, kInt)))
	}
	return S(ws...)
}

// prefix is a tuple command word
func (g *G) prefix(d int) *Word {
	var w *Word
	switch g.n(8) {
	case 0:
		w = TupW(Lit("idem"))
	case 1:
		w = TupW(Lit("+"), g.val(kInt))
	case 2:
		w = TupW(Lit("list"), g.val(kList))
	case 3:
		w = TupW(Lit("emit"))
	case 4:
		w = TupW()
	case 5:
		w = TupW(Lit(g.pick("string", "dict", "nocmd", "1", "true")), g.val(kAny))
	case 6:
		if s := g.call(kAny); s != nil {
			k := 1 + g.n(len(s.Ws))
			return TupW(s.Ws[:k]...)
		}
		w = TupW(Lit("idem"))
	default:
		w = TupW(Lit(g.pick("set", "let")), Lit("tv"))
	}
	if d > 0 && g.p(400) {
		in := g.prefix(d - 1)
		if g.p(500) {
			return TupW(in)
		}
		return TupW(in, g.val(kAny))
	}
	return w
}
func stTupleCmd(g *G) []*Sentence {
	p := g.prefix(2)
	ws := []*Word{p}
	for i := 0; i < g.n(3); i++ {
		ws = append(ws, g.val(g.oneOf(kAny, kInt)))
	}
	if g.p(250) {
		n := g.varName()
		g.setKnown(n, kTup, false)
		return []*Sentence{S(Lit("set"), Lit(n), p), g.use(append([]*Word{Var(n)}, ws[1:]...))}
	}
	return one(g.use(ws))
}
func stModule(g *G) []*Sentence {
	name := g.cmdName()
	c := newCtx(nil)
	mg := *g
	body := &Script{}
	body.Ss = append(body.Ss, S(Lit("import"), Lit("host"), TupW(Lit("emit"), Lit("tick"))))
	exp := []string{}
	k := 1 + g.n(3)
	g2 := &mg
	g2.inMod = true
	g2.with(c, func() {
		for i := 0; i < k; i++ {
			switch g.n(4) {
			case 0, 1:
				n := g.pick("m1", "m2", "m3")
				body.Ss = append(body.Ss, S(Lit(g.pick("proc", "closure", "macro")), Lit(n), TupW(Lit("?x")), BlkW(g2.script(2, c))))
				if g.p(700) {
					body.Ss = append(body.Ss, S(Lit("export"), Lit(n)))
					exp = append(exp, n)
				}
			case 2:
				body.Ss = append(body.Ss, S(Lit("export"), Lit(g.pick("m1", "idem", "nope"))))
				exp = append(exp, "m1")
			default:
				body.Ss = append(body.Ss, g2.stmts()...)
			}
		}
		if g.p(g.W["jump"] / 3) {
			body.Ss = append(body.Ss, g2.jump())
		}
	})
	g.nv, g.nc, g.budget = mg.nv, mg.nc, mg.budget
	r := one(S(Lit("module"), Lit(name), BlkW(body)))
	for i := 0; i < 1+g.n(3); i++ {
		n := g.pick("m1", "m2", "idem", "nope")
		if len(exp) > 0 && g.p(700) {
			n = exp[g.n(len(exp))]
		}
		switch g.n(6) {
		case 0:
			r = append(r, g.use([]*Word{Lit(name), Lit("exports")}))
		case 1:
			r = append(r, g.use([]*Word{Lit(name), Lit("import"), Lit(n), Lit("ali")}), g.use([]*Word{Lit("ali"), g.val(kAny)}))
		case 2:
			r = append(r, g.use([]*Word{Lit(name), Lit(g.pick("subcommands", "bad", "import"))}))
		default:
			r = append(r, g.use([]*Word{Lit(name), Lit("import"), Lit(n)}), g.use([]*Word{Lit(n), g.val(kAny)}))
		}
	}
	return r
}
func stEval(g *G) []*Sentence {
	if g.p(250) {
		return one(g.use([]*Word{Lit("eval"), TupW(g.typed0(g.anyKind())...)}))
	}
	return one(g.use([]*Word{Lit("eval"), g.bodyBlk(2)}))
}
func stScript(g *G) []*Sentence {
	b := g.bodyBlk(2)
	switch g.n(5) {
	case 0:
		return one(g.use([]*Word{Lit("script"), b, Lit("length")}))
	case 1:
		n := g.varName()
		g.setKnown(n, kBlk, false)
		return []*Sentence{S(Lit("set"), Lit(n), Exp(Lit("script"), b, Lit("append"), g.bodyBlk(1))),
			g.use([]*Word{Lit("eval"), Var(n)})}
	case 2:
		return []*Sentence{S(Lit("set"), Lit("parts"), Exp(Lit("script"), b, Lit("split"))),
			g.use([]*Word{Lit("list"), Var("parts"), Lit("length")}),
			S(Lit("list"), Var("parts"), Lit("foreach"), Lit("e"), Blk(S(Lit("tick")), g.use([]*Word{Lit("eval"), Var("e")})))}
	case 3:
		n := g.varName()
		g.setKnown(n, kBlk, false)
		return []*Sentence{S(Lit("set"), Lit(n), b), g.use([]*Word{Lit("eval"), Var(n)}), g.use([]*Word{Lit("eval"), Var(n)})}
	}
	return one(g.use([]*Word{Lit("script"), g.val(kAny)}))
}
func stIntrinsic(g *G) []*Sentence {
	var r []*Sentence
	var ss []*Sentence
	for i := 0; i < 1+g.n(4); i++ {
		switch g.n(6) {
		case 0:
			ss = append(ss, S(Lit("^")))
		case 1, 2:
			ss = append(ss, S(Lit("|>"), Lit(g.pick("idem", "emit", "list", "+", "string"))))
		case 3:
			ss = append(ss, S(Lit("|>"), Lit(g.pick("+", "list", "string")), g.val(kInt)))
		case 4:
			ss = append(ss, S(Lit("idem"), Exp(Lit("^"))))
		default:
			ss = append(ss, S(Lit("idem"), g.val(kAny)))
		}
	}
	if g.p(500) {
		r = append(r, S(Lit("emit"), ExpW(Scr(ss...))))
	} else {
		r = append(r, ss...)
		r = append(r, S(Lit("emit"), Exp(Lit("^"))))
	}
	return r
}

// wordy value: substitutions, selectors, compounds, expansion
func stWord(g *G) []*Sentence {
	setup := []*Sentence{
		S(Lit("set"), Lit("wl"), Exp(Lit("list"), TupW(Lit("x"), Exp(Lit("list"), TupW(Lit("y"), Lit("z"))), Exp(Lit("dict"), TupW(Lit("k"), Lit("v")))))),
		S(Lit("set"), Lit("wd"), Exp(Lit("dict"), TupW(Lit("a"), Lit("1"), Lit("b"), Exp(Lit("dict"), TupW(Lit("c"), Lit("2"))), Lit("l"), Exp(Lit("list"), TupW(Lit("p"), Lit("q")))))),
		S(Lit("set"), Lit("wt"), TupW(Lit("wa"), Lit("wb"))),
		S(Lit("set"), Lit("wa"), Lit("wb")),
		S(Lit("set"), Lit("wb"), Lit("val")),
		S(Lit("set"), Lit("wi"), Exp(Lit("+"), Lit("1"))),
		S(Lit("set"), Lit("wm"), TupW(Exp(Lit("list"), TupW(Lit("1"), Lit("2"))), Exp(Lit("list"), TupW(Lit("3"), Lit("4"))))),
	}
	var r []*Sentence
	if g.known(kSpec) == "" { // once per program
		r = append(r, setup...)
		g.c.vars["\x00"] = kSpec
		delete(g.c.vars, "\x00")
	}
	for i := 0; i < 1+g.n(3); i++ {
		ws := []*Word{Lit("emit"), g.wordy(2)}
		if g.p(300) {
			ws = []*Word{Lit("emit"), TupW(g.wordy(2), g.wordy(1))}
		}
		if g.p(100) {
			ws = []*Word{Lit("emit"), Exp(Lit("catch"), Blk(S(Lit("idem"), g.wordy(2))))}
		}
		s := S(ws...)
		if g.p(100) {
			s.Ws = append(s.Ws, Cmt(g.pick("#{c}#", "# to the end of line", "##{ #{ }##")))
		}
		r = append(r, s)
	}
	return r
}
func (g *G) sel(d int) *Sel {
	if g.p(500) {
		return Idx(Lit("idem"), Lit(g.pick("0", "1", "2", "-1", "9", "x")))
	}
	if g.p(200) && d > 0 {
		return Idx(Lit("idem"), Var("wi"))
	}
	switch g.n(8) {
	case 0:
		return Key(Lit("b"), Lit("c"))
	case 1:
		return Key()
	case 2:
		return Rul(S(Lit("rule")), S(Lit("r2"), Lit("x")))
	case 3:
		return Key(TupW(Lit("a")))
	}
	return Key(Lit(g.pick("a", "b", "c", "k", "l", "zz")))
}
func (g *G) sels(max int) []*Sel {
	var r []*Sel
	for i := 0; i < g.n(max+1); i++ {
		r = append(r, g.sel(1))
	}
	return r
}
func (g *G) wname() string { return g.pick("wl", "wd", "wt", "wa", "wb", "wi", "wm", "wz", "wl", "wd") }
func (g *G) wordy(d int) *Word {
	switch g.n(16) {
	case 0, 1, 2:
		return Sub(Lit(g.wname()), g.sels(3)...)
	case 3:
		return SubN(2+g.n(2), false, Lit(g.pick("wa", "wt", "wb")))
	case 4:
		return SubN(1+g.n(2), false, Lit("wa"), g.sels(1)...)
	case 5:
		return Sub(BlkW(One(Lit(g.wname()))), g.sels(2)...)
	case 6:
		return Sub(TupW(Lit("wa"), Lit(g.wname()), TupW(Lit("wb"))), g.sels(2)...)
	case 7:
		return Sub(Exp(Lit("idem"), Sub(Lit(g.wname()))), g.sels(2)...)
	case 8:
		return Qual(Lit(g.pick("wl", "src")), append(g.sels(2), g.sel(1))...)
	case 9:
		return Qual(TupW(Lit("wl"), Lit("wd")), append(g.sels(1), g.sel(1))...)
	case 10:
		// expansion
		return TupW(Lit("a"), SubN(1, true, Lit(g.pick("wt", "wl", "wm", "wa"))), Lit("z"))
	case 11:
		return TupW(SubN(1+g.n(2), true, TupW(Lit("wa"), Lit("wb"))), SubN(1, true, Exp(Lit("idem"), TupW(Lit("1"), Lit("2")))))
	case 12:
		// compound
		ms := []*Word{Lit(g.pick("x", "pre_"))}
		ms = append(ms, g.stemSub())
		if g.p(500) {
			ms = append(ms, g.stemSub())
		}
		if g.p(400) {
			ms = append(ms, Lit("post"))
		}
		return Cmp(ms...)
	case 13:
		ms := []*Word{Lit("<"), g.stemSub(), Lit(" "), g.stemSub(), Lit(">")}
		return StrW(ms...)
	case 14:
		return Here(g.pick("raw $x [y] {z", "a \"\" b", "$", "x\ny"))
	}
	if d > 0 {
		return Exp(Lit("idem"), g.wordy(d-1))
	}
	return Exp()
}
func (g *G) stemSub() *Word {
	switch g.n(5) {
	case 0:
		return Exp(Lit("idem"), g.val(g.oneOf(kInt, kStr)))
	case 1:
		return Sub(BlkW(One(Lit("wl"))), Idx(Lit("idem"), Lit("0")))
	case 2:
		return Sub(BlkW(One(Lit("wd"))), Key(Lit(g.pick("a", "b"))))
	case 3:
		return SubN(2, false, BlkW(One(Lit("wa"))))
	}
	return Sub(BlkW(One(Lit(g.pick("wa", "wb", "wi", "wl")))))
}
func stArgspec(g *G) []*Sentence {
	sp := g.specWord()
	if g.p(300) {
		sp = g.optSpecWord()
	}
	switch g.n(4) {
	case 0:
		return one(g.use([]*Word{Lit("argspec"), sp}))
	case 1:
		return one(g.use([]*Word{Lit("argspec"), sp, Lit("usage")}))
	case 2:
		var vs []*Word
		for i := 0; i < g.n(4); i++ {
			vs = append(vs, g.val(kAny))
		}
		r := one(g.use([]*Word{Lit("argspec"), sp, Lit("set"), TupW(vs...)}))
		for _, n := range []string{"p", "q"} {
			r = append(r, S(Lit("emit"), Exp(Lit("get"), Lit(n), Lit("none"))))
		}
		return r
	}
	n := g.varName()
	g.setKnown(n, kSpec, false)
	return []*Sentence{S(Lit("set"), Lit(n), Exp(Lit("argspec"), sp)),
		S(Lit("closure"), Lit("spc"), Var(n), g.block(1, nil)),
		g.use([]*Word{Lit("spc"), g.val(kAny)})}
}

// argument specification with options
type optArg struct {
	names []string
	kind  string // req opt flag
	arg   string
}

func (g *G) optSpec() (ws []*Word, pos []string, opts []optArg) {
	all := []string{"p", "q", "r", "s", "t", "u"}
	g.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	on := []string{"-o", "-v", "-w", "--long", "-x"}
	g.R.Shuffle(len(on), func(i, j int) { on[i], on[j] = on[j], on[i] })
	rem := false
	k := 1 + g.n(5)
	for i := 0; i < k; i++ {
		n := all[i]
		arg := func(req bool) *Word {
			w := Lit(n)
			if !req {
				w = Lit("?" + n)
				if g.p(350) {
					w = TupW(Lit("?"+n), g.litConst())
				}
			}
			if g.p(g.W["guard"]) {
				if req {
					return TupW(g.guard(), Lit(n))
				}
				return TupW(g.guard(), Lit("?"+n))
			}
			return w
		}
		switch x := g.n(10); {
		case x < 5 && len(on) > 0 && !rem:
			a := optArg{names: []string{on[0]}, arg: n}
			on = on[1:]
			if len(on) > 0 && g.p(250) {
				a.names = append(a.names, on[0])
				on = on[1:]
			}
			a.kind = g.pick("req", "opt", "flag")
			var nw []*Word
			for _, o := range a.names {
				if a.kind == "flag" {
					o = "?" + o
				}
				nw = append(nw, Lit(o))
			}
			if len(nw) == 1 {
				ws = append(ws, nw[0])
			} else {
				ws = append(ws, TupW(nw...))
			}
			ws = append(ws, arg(a.kind == "req"))
			opts = append(opts, a)
		case x == 9 && !rem:
			ws = append(ws, Lit("*"+n))
			rem = true
			pos = append(pos, "*"+n)
		case x >= 7:
			ws = append(ws, arg(false))
			pos = append(pos, "?"+n)
		default:
			ws = append(ws, arg(true))
			pos = append(pos, n)
		}
	}
	return
}
func (g *G) optSpecWord() *Word {
	ws, _, _ := g.optSpec()
	if g.p(120) {
		// malformed on purpose
		i := g.n(len(ws) + 1)
		bad := []*Word{Lit("-o"), Lit("?"), StrW(), Lit("--"), Lit("?--"), TupW(), TupW(Lit("a"), Lit("b")), TupW(Lit("a"), Lit("b"), Lit("c"), Lit("d")),
			TupW(Lit("-o"), Lit("-o")), TupW(Lit("-o"), Lit("b")), TupW(Lit("?-v"), Lit("-o")), Lit("*"), Lit("*p"), Lit("-"), Lit("?-"), Lit("p")}[g.n(16)]
		ws = append(ws[:i:i], append([]*Word{bad}, ws[i:]...)...)
	}
	if g.p(500) {
		return TupW(ws...)
	}
	return BlkW(One(ws...))
}
func stOptions(g *G) []*Sentence {
	ws, pos, opts := g.optSpec()
	kw := g.pick("proc", "closure", "macro")
	var body []*Sentence
	ns := []*Word{}
	for _, p := range pos {
		for len(p) > 0 && (p[0] == '*' || p[0] == '?') {
			p = p[1:]
		}
		ns = append(ns, Exp(Lit("get"), Lit(p), Lit("none")))
	}
	for _, o := range opts {
		ns = append(ns, Exp(Lit("get"), Lit(o.arg), Lit("none")))
	}
	body = append(body, S(Lit("emit"), TupW(ns...)))
	n := "opt"
	r := one(S(Lit(kw), Lit(n), TupW(ws...), Blk(body...)))
	for c := 0; c < 1+g.n(4); c++ {
		args := []*Word{Lit(n)}
		// walk the specification, dropping and shuffling a bit
		for _, w := range g.optCall(ws, opts) {
			args = append(args, w)
		}
		s := g.use(args)
		if g.p(700) {
			s = S(Lit("emit"), Exp(Lit("catch"), Blk(S(args...))))
		}
		r = append(r, s)
	}
	return r
}
func (g *G) optCall(ws []*Word, opts []optArg) (r []*Word) {
	find := func(n string) *optArg {
		for i := range opts {
			for _, o := range opts[i].names {
				if o == n || "?"+o == n {
					return &opts[i]
				}
			}
		}
		return nil
	}
	var group [][]*Word
	flush := func() {
		g.R.Shuffle(len(group), func(i, j int) { group[i], group[j] = group[j], group[i] })
		for _, x := range group {
			r = append(r, x...)
		}
		if len(group) > 0 && g.p(150) {
			r = append(r, Lit("--"))
		}
		group = nil
	}
	for i := 0; i < len(ws); i++ {
		w := ws[i]
		name := w.V
		if w.K == "tup" && len(w.B.Ss) > 0 {
			name = w.B.Ss[0].Ws[0].V
		}
		if o := find(name); o != nil {
			i++
			keep := o.kind == "req" && g.p(930) || o.kind != "req" && g.p(550)
			if keep {
				x := []*Word{Lit(o.names[g.n(len(o.names))])}
				if o.kind != "flag" {
					x = append(x, g.optVal())
				}
				group = append(group, x)
				if g.p(40) {
					group = append(group, x)
				}
			}
			continue
		}
		flush()
		switch {
		case len(name) > 0 && name[0] == '*':
			for j := 0; j < g.n(3); j++ {
				r = append(r, g.optVal())
			}
		case len(name) > 0 && name[0] == '?' || (w.K == "tup" && len(w.B.Ss[0].Ws) > 1 && len(w.B.Ss[0].Ws[1].V) > 0 && w.B.Ss[0].Ws[1].V[0] == '?'):
			if g.p(500) {
				r = append(r, g.optVal())
			}
		default:
			if g.p(950) {
				r = append(r, g.optVal())
			}
		}
	}
	flush()
	if g.p(80) {
		r = append(r, Lit(g.pick("-o", "-v", "extra", "-zz", "--")))
	}
	return
}
func (g *G) optVal() *Word {
	if g.p(80) {
		return Lit(g.pick("-o", "-v", "--", "-zz", "-x"))
	}
	if g.p(700) {
		return g.literal(g.oneOf(kInt, kStr, kBool))
	}
	return g.val(kAny)
}
func stMeta(g *G) []*Sentence {
	switch g.n(7) {
	case 0:
		return one(g.use([]*Word{Exp(Lit(g.pick("list", "dict", "string", "tuple", "script"))), Lit(g.pick("subcommands", "argspec", "bad"))}))
	case 1:
		t := g.pick("list", "dict", "string", "tuple", "script")
		ws := []*Word{Exp(Lit(t)), Lit("call"), Lit(subsOf[t][g.n(len(subsOf[t]))])}
		for n := g.n(4); n > 0; n-- {
			ws = append(ws, g.val(g.oneOf(kList, kDict, kStr, kInt, kTup)))
		}
		return one(g.caught(ws...))
	case 2:
		// extend a type ensemble
		n := g.pick("twice", "length2", "first")
		return []*Sentence{
			S(Exp(Lit("list")), Lit("eval"), Blk(S(Lit("macro"), Lit(n), TupW(Lit("value")), Blk(S(Lit("list"), Var("value"), Lit("length")))))),
			g.use([]*Word{Lit("list"), g.val(kList), Lit(n)}),
		}
	case 3:
		return one(g.use([]*Word{g.literal(kNum), Lit(g.pick("subcommands", "bad"))}))
	case 4:
		return one(g.use([]*Word{Lit(g.pick("true", "false")), Lit(g.pick("subcommands", "bad", "?"))}))
	}
	n := g.cmdName()
	kw := g.pick("proc", "closure", "macro")
	return []*Sentence{
		S(Lit("set"), Lit("mc"), Exp(Lit(kw), Lit(n), TupW(Lit("x")), Blk(S(Lit("emit"), Var("x"))))),
		g.use([]*Word{Exp(Var("mc")), g.val(kInt)}),
		g.use([]*Word{Var("mc"), Lit(g.pick("subcommands", "argspec", "bad"))}),
		S(Lit("emit"), Exp(Lit("argspec"), Exp(Var("mc"), Lit("argspec")), Lit("usage"))),
	}
}

// a value, a derived value, and both shown again
func stImmut(g *G) []*Sentence {
	k := g.oneOf(kList, kDict, kStr, kTup, kList, kDict, kBlk)
	a, b := "ia", "ib"
	g.setKnown(a, k, false)
	r := []*Sentence{S(Lit("set"), Lit(a), g.literal(k)), S(Lit("set"), Lit(b), Var(a))}
	for i := 0; i < 2+g.n(4); i++ {
		src := g.pick(a, b)
		dst := g.pick(a, b, "ic", "ic")
		ws := g.immutOp(k, src, a)
		if g.p(150) && k != kTup && k != kBlk {
			ws = []*Word{Lit("idem"), Var(src)}
		}
		r = append(r, S(Lit("set"), Lit(dst), Exp(ws...)))
		if g.p(150) {
			r = append(r, g.stmts()...)
		}
	}
	r = append(r, S(Lit("emit"), TupW(Var(a), Var(b), Exp(Lit("get"), Lit("ic"), Lit("none")))))
	return r
}

// an operation giving a new value from the one in src (and a)
func (g *G) immutOp(k kind, src, a string) []*Word {
	var ws []*Word
	v := Var(src)
	ix := func() *Word { return Lit(g.pick("0", "1", "2", "-1", "3")) }
	switch k {
	case kList:
		switch g.n(6) {
		case 0:
			ws = []*Word{Lit("list"), v, Lit("append"), TupW(g.val(kInt))}
		case 1:
			ws = []*Word{Lit("list"), v, Lit("insert"), ix(), TupW(g.val(kInt), g.val(kStr))}
		case 2:
			ws = []*Word{Lit("list"), v, Lit("replace"), ix(), ix(), TupW(g.val(kStr))}
		case 3:
			ws = []*Word{Lit("list"), v, Lit("remove"), ix(), ix()}
		case 4:
			ws = []*Word{Lit("list"), v, Lit("range"), ix(), ix()}
		default:
			ws = []*Word{Lit("list"), v, Lit("append"), Var(src), Var(a)}
		}
	case kDict:
		switch g.n(3) {
		case 0:
			ws = []*Word{Lit("dict"), v, Lit("add"), Text(keys[g.n(len(keys))]), g.val(kInt)}
		case 1:
			ws = []*Word{Lit("dict"), v, Lit("remove"), Text(keys[g.n(len(keys))])}
		default:
			ws = []*Word{Lit("dict"), v, Lit("merge"), Exp(Lit("dict"), g.pairs(2)), Var(src)}
		}
	case kStr:
		ws = []*Word{Lit("string"), v, Lit("append"), g.val(kStr)}
	case kTup:
		ws = []*Word{Lit("list"), v}
		if g.p(400) {
			ws = []*Word{Lit("list"), v, Lit("append"), TupW(g.val(kInt))}
		}
	default:
		ws = []*Word{Lit("script"), v, Lit("append"), g.block(1, nil)}
	}
	return ws
}

// several values made from the same one, itself made in several steps
func stFork(g *G) []*Sentence {
	k := g.oneOf(kList, kList, kDict, kStr, kTup, kBlk)
	g.setKnown("fa", k, false)
	r := []*Sentence{S(Lit("set"), Lit("fa"), g.literal(k))}
	grow := func(src string) []*Word {
		switch {
		case k == kList || k == kTup:
			return []*Word{Lit("list"), Var(src), Lit("append"), TupW(g.val(kInt))}
		case k == kDict:
			return []*Word{Lit("dict"), Var(src), Lit("add"), Text(keys[g.n(len(keys))]), g.val(kInt)}
		case k == kStr:
			return []*Word{Lit("string"), Var(src), Lit("append"), g.val(kStr)}
		}
		return []*Word{Lit("script"), Var(src), Lit("append"), g.block(1, nil)}
	}
	for i := 0; i < 1+g.n(5); i++ {
		r = append(r, S(Lit("set"), Lit("fa"), Exp(grow("fa")...)))
	}
	fs := []*Word{Var("fa")}
	for i := 0; i < 2+g.n(2); i++ {
		n := fmt.Sprintf("f%d", i)
		ws := grow("fa")
		if g.p(350) {
			ws = g.immutOp(k, "fa", "fa")
		}
		r = append(r, S(Lit("set"), Lit(n), Exp(ws...)))
		fs = append(fs, Var(n))
	}
	if k == kBlk {
		for i, f := range fs {
			r = append(r, S(Lit("catch"), Blk(S(Lit("eval"), f))))
			fs[i] = Exp(Lit("script"), f, Lit("length"))
		}
	}
	return append(r, S(Lit("emit"), TupW(fs...)))
}
func stSort(g *G) []*Sentence {
	var ws []*Word
	for i := 0; i < g.n(7); i++ {
		ws = append(ws, Lit(g.pick("1", "2", "3", "5", "4", "0", "7", "-1")))
	}
	if g.p(300) {
		ws = []*Word{}
		for i := 0; i < g.n(6); i++ {
			ws = append(ws, Text(g.pick("b", "a", "c", "ab", "B", "", "z z", "10", "9")))
		}
		return one(g.use([]*Word{Lit("list"), TupW(ws...), Lit("sort")}))
	}
	cmp := g.pick("-", "-", "rev", "by", "bad")
	r := []*Sentence{}
	var cw *Word = Lit("-")
	switch cmp {
	case "rev":
		r = append(r, S(Lit("closure"), Lit("rev"), TupW(Lit("x"), Lit("y")), Blk(S(Lit("-"), Var("y"), Var("x")))))
		cw = Lit("rev")
	case "by":
		// equal keys: the order of equal elements is kept
		r = append(r, S(Lit("closure"), Lit("by"), TupW(Lit("x"), Lit("y")), Blk(S(Lit("-"), Exp(Lit("string"), Var("x"), Lit("length")), Exp(Lit("string"), Var("y"), Lit("length"))))))
		cw = Lit("by")
		for i := range ws {
			ws[i] = Text(g.pick("a", "b", "cc", "dd", "eee", "", "f"))
		}
	case "bad":
		cw = Lit(g.pick("nocmd", "list", "idem", "string"))
	}
	if g.p(200) {
		cw = TupW(cw)
	}
	return append(r, g.use([]*Word{Lit("list"), TupW(ws...), Lit("sort"), cw}))
}
func stConvert(g *G) []*Sentence {
	return one(g.use([]*Word{Lit(g.pick("int", "bool", "real", "string", "list", "dict", "tuple", "script", "argspec")), g.val(kAny)}))
}

var arities = []string{"idem", "return", "yield", "error", "break", "continue", "eval", "let", "set", "get", "exists", "unset", "+", "-", "*", "/", "true", "false", "!", "&&", "||",
	"loop", "while", "if", "when", "catch", "pass", "scope", "namespace", "ensemble", "macro", "closure", "proc", "coroutine", "alias", "list", "dict", "string", "tuple", "script", "int", "bool", "real", "argspec", "emit", "1"}

func stArity(g *G) []*Sentence {
	ws := []*Word{Lit(arities[g.n(len(arities))])}
	if g.p(350) {
		t := g.pick("list", "dict", "string", "tuple", "script")
		ws = []*Word{Lit(t), g.val(map[string]kind{"list": kList, "dict": kDict, "string": kStr, "tuple": kTup, "script": kBlk}[t]), Lit(subsOf[t][g.n(len(subsOf[t]))])}
	}
	for i := 0; i < g.n(5); i++ {
		k := g.anyKind()
		if k == kBlk && (ws[0].V == "loop" || ws[0].V == "while") {
			k = kStr // could run forever
		}
		ws = append(ws, g.literal(k))
	}
	return one(S(Lit("emit"), Exp(Lit("catch"), Blk(S(ws...)))))
}

var subsOf = map[string][]string{
	"list":   {"length", "at", "range", "append", "remove", "insert", "replace", "sort", "foreach"},
	"dict":   {"size", "has", "get", "add", "remove", "merge", "foreach"},
	"string": {"length", "at", "range", "append", "remove", "insert", "replace", "==", "!=", ">", ">=", "<", "<="},
	"tuple":  {"length", "at"},
	"script": {"length", "append", "split"},
}

func stCollRaw(g *G) []*Sentence {
	t := g.pick("list", "dict", "string", "tuple", "list", "dict", "string")
	sub := subsOf[t][g.n(len(subsOf[t]))]
	ix := func() *Word {
		if g.p(60) {
			return g.val(kAny)
		}
		return Lit(g.pick("0", "1", "2", "-1", "3", "4", "5", "-2", "10"))
	}
	base := map[string]kind{"list": kList, "dict": kDict, "string": kStr, "tuple": kTup}[t]
	v := g.val(base)
	ws := []*Word{Lit(t), v, Lit(sub)}
	switch sub {
	case "at":
		ws = append(ws, ix())
		if g.p(400) {
			ws = append(ws, g.val(kAny))
		}
	case "range":
		ws = append(ws, ix())
		if g.p(700) {
			ws = append(ws, ix())
		}
	case "append", "merge":
		for i := 0; i < g.n(4); i++ {
			ws = append(ws, g.val(base))
		}
	case "remove":
		if t == "dict" {
			for i := 0; i < g.n(3); i++ {
				ws = append(ws, Text(keys[g.n(len(keys))]))
			}
		} else {
			ws = append(ws, ix(), ix())
		}
	case "insert":
		ws = append(ws, ix(), g.val(base))
	case "replace":
		ws = append(ws, ix(), ix(), g.val(base))
	case "has":
		ws = append(ws, Text(keys[g.n(len(keys))]))
	case "get":
		if g.p(250) {
			ws = append(ws, TupW(Text(keys[g.n(len(keys))]), Text(keys[g.n(len(keys))])))
		} else {
			ws = append(ws, Text(keys[g.n(len(keys))]))
			if g.p(500) {
				ws = append(ws, g.val(kAny))
			}
		}
	case "add":
		ws = append(ws, Text(keys[g.n(len(keys))]), g.val(kAny))
	case "foreach":
		return stForeach(g)
	case "sort":
		return stSort(g)
	case "==", "!=", ">", ">=", "<", "<=":
		ws = append(ws, g.val(kStr))
	}
	if g.p(250) && t != "tuple" {
		// selection by words
		n := "sv"
		switch t {
		case "dict":
			return []*Sentence{S(Lit("set"), Lit(n), Exp(Lit("dict"), v)), S(Lit("emit"), Sub(Lit(n), Key(Text(keys[g.n(len(keys))]))))}
		default:
			return []*Sentence{S(Lit("set"), Lit(n), Exp(Lit(t), v)), S(Lit("emit"), Sub(Lit(n), Idx(Lit("idem"), ix())))}
		}
	}
	s := S(Lit("emit"), Exp(ws...))
	if g.p(400) {
		s = S(Lit("emit"), Exp(Lit("catch"), Blk(S(ws...))))
	}
	return one(s)
}
func stTruth(g *G) []*Sentence {
	// every step of a chain is observable
	var args []*Word
	for i := 0; i < 1+g.n(4); i++ {
		switch g.n(4) {
		case 0:
			args = append(args, Lit(g.pick("true", "false", "true", "false", "x")))
		case 1:
			args = append(args, Blk(S(Lit("emit"), Lit(g.pick("true", "false")))))
		case 2:
			args = append(args, Exp(Lit("emit"), Lit(g.pick("true", "false"))))
		default:
			args = append(args, Blk(S(Lit("emit"), Lit(fmt.Sprint(i))), S(Lit(g.pick("idem", "!")), Lit(g.pick("true", "false", "true", "false", "1")))))
		}
	}
	op := g.pick("&&", "||", "!", "&&", "||")
	if op == "!" {
		args = args[:1]
	}
	return one(S(Lit("emit"), Exp(Lit("catch"), Blk(S(append([]*Word{Lit(op)}, args...)...)))))
}

// a command called in a context that turns every outcome into a value
func stGuarded(g *G) []*Sentence {
	c := g.inner(nil, false)
	return one(S(Lit("emit"), Exp(Lit("catch"), BlkW(g.ending(g.script(2, c), c)))))
}

// a jump through several kinds of bodies
func stNested(g *G) []*Sentence {
	s := one(g.jump())
	if g.p(400) {
		s = append([]*Sentence{S(Lit("emit"), g.literal(kInt))}, s...)
	}
	d := 2 + g.n(4)
	for i := 0; i < d; i++ {
		b := Blk(s...)
		// some bodies need their own definitions next to the call
		g.nc++
		n := fmt.Sprintf("nest%d", g.nc)
		var w []*Sentence
		pre := S(Lit("tick"))
		bl := Blk(append([]*Sentence{pre}, s...)...)
		switch g.n(16) {
		case 0:
			w = one(S(Lit("eval"), b))
		case 1:
			w = one(S(Lit("if"), g.literal(kBool), b, Lit("else"), Blk(s...)))
		case 2:
			w = one(S(Lit("while"), g.pickTest(), bl))
		case 3:
			w = one(S(Lit("loop"), Lit("i"), Lit("x"), Exp(Lit("list"), TupW(Lit("1"), Lit("2"))), bl))
		case 4:
			w = one(S(Lit("list"), TupW(Lit("1"), Lit("2")), Lit("foreach"), Lit("x"), bl))
		case 5:
			w = one(S(Lit("catch"), b))
		case 6:
			h := g.pick("return", "error", "yield")
			w = one(S(Lit("catch"), b, Lit(h), Lit("e"), Blk(S(Lit("emit"), Var("e")), g.after()), Lit("finally"), Blk(S(Lit("emit"), Lit("fin")))))
		case 7:
			w = one(S(Lit("catch"), b, Lit(g.pick("break", "continue")), Blk(S(Lit("emit"), Lit("h")), g.after())))
		case 8:
			w = []*Sentence{S(Lit("proc"), Lit(n), TupW(), b), S(Lit("emit"), Exp(Lit(n)))}
		case 9:
			w = []*Sentence{S(Lit("closure"), Lit(n), TupW(), b), S(Lit("emit"), Exp(Lit(n)))}
		case 10:
			w = []*Sentence{S(Lit("macro"), Lit(n), TupW(), b), S(Lit("emit"), Exp(Lit(n)))}
		case 11:
			w = []*Sentence{S(Lit("scope"), Lit(n), Blk(S(Lit("idem"), Lit("s")))), S(Lit("emit"), Exp(Lit(n), Lit("eval"), b))}
		case 12:
			w = one(S(Lit("emit"), Exp(Lit(g.pick("scope", "namespace")), b)))
		case 13:
			w = []*Sentence{S(Lit("set"), Lit(n), Exp(Lit("coroutine"), b)), S(Lit("emit"), Exp(Exp(Var(n)), Lit("wait"))), S(Lit("emit"), Exp(Exp(Var(n)), Lit("wait")))}
		case 14:
			w = one(S(Lit(g.pick("&&", "||", "!")), b))
		default:
			w = one(S(Lit("when"), TupW(b, Blk(S(Lit("idem"), Lit("t"))), Blk(S(Lit("idem"), Lit("f"))))))
		}
		s = append(w, S(Lit("emit"), Lit(fmt.Sprintf("after%d", i))))
		if g.p(300) {
			s[len(w)-1] = S(Lit("emit"), Exp(w[len(w)-1].Ws...))
		}
	}
	return s
}
func (g *G) pickTest() *Word {
	if g.p(500) {
		return Lit("true")
	}
	return Blk(S(Lit("idem"), Lit("true")))
}
func (g *G) after() *Sentence {
	if g.p(250) {
		return S(Lit("pass"))
	}
	return S(Lit("idem"), Lit("handled"))
}
func stImport(g *G) []*Sentence { return one(S(Lit("emit"), g.val(kAny))) }
func stExport(g *G) []*Sentence { return one(S(Lit("emit"), g.val(kAny))) }

var _ = rec.Prefix

// stLoopPat is a loop of any kind whose iterations end in chosen ways
func stLoopPat(g *G) []*Sentence {
	n := g.pick("p", "q", "r")
	lim := 2 + g.n(3)
	var r []*Sentence
	ctr := func(v string) *Sentence { return S(Lit("set"), Lit(v), Exp(Lit("+"), Var(v), Lit("1"))) }
	cond := func(k int) *Word { return Exp(Var(n), Lit(g.pick("==", "==", ">=", "<")), Lit(fmt.Sprint(k))) }
	// what happens in the iterations
	acts := func() []*Sentence {
		var b []*Sentence
		for i := 0; i < 1+g.n(3); i++ {
			var a *Sentence
			switch g.n(8) {
			case 0, 1:
				a = S(Lit("continue"))
			case 2:
				a = S(Lit("break"))
			case 3:
				a = S(Lit(g.pick("yield", "yield", "return", "error")), Text("v"))
			case 4:
				a = S(Lit("eval"), Blk(S(Lit(g.pick("continue", "break")))))
			case 5:
				a = S(Lit("catch"), Blk(S(Lit(g.pick("continue", "break")))), Lit(g.pick("continue", "break")), Blk(S(Lit("emit"), Text("h")), S(Lit(g.pick("pass", "continue", "break", "idem")), g.val(kStr))))
				last := a.Ws[3].B.Ss[1]
				if last.Ws[0].V != "idem" {
					last.Ws = last.Ws[:1]
				}
			default:
				a = S(Lit("emit"), Var(n))
			}
			b = append(b, S(Lit("if"), cond(g.n(lim+1)), Blk(a)))
		}
		return append(b, S(Lit("idem"), StrW(Lit("v"), Sub(BlkW(One(Lit(n)))))))
	}
	var ws []*Word
	switch g.n(7) {
	case 0, 1:
		r = append(r, S(Lit("set"), Lit(n), Lit("0")))
		body := append([]*Sentence{S(Lit("tick")), ctr(n), S(Lit("if"), Exp(Var(n), Lit(">"), Lit(fmt.Sprint(lim))), Blk(S(Lit("break"))))}, acts()...)
		ws = []*Word{Lit("while"), Lit("true"), BlkW(Scr(body...))}
	case 2:
		r = append(r, S(Lit("set"), Lit(n), Lit("0")))
		body := append([]*Sentence{S(Lit("tick")), ctr(n)}, acts()...)
		ws = []*Word{Lit("while"), Blk(S(Var(n), Lit("<"), Lit(fmt.Sprint(lim)))), BlkW(Scr(body...))}
	case 3:
		body := append([]*Sentence{S(Lit("tick")), S(Lit("if"), Exp(Var(n), Lit(">"), Lit(fmt.Sprint(lim))), Blk(S(Lit("break"))))}, acts()...)
		ws = []*Word{Lit("loop"), Lit(n), BlkW(Scr(body...))}
	case 4:
		var es []*Word
		for i := 0; i < lim; i++ {
			es = append(es, Lit(fmt.Sprint(g.n(4))))
		}
		ws = []*Word{Lit("loop"), Lit(n), Exp(Lit("list"), TupW(es...)), BlkW(Scr(append([]*Sentence{S(Lit("tick"))}, acts()...)...))}
		if g.p(500) {
			es = es[:g.n(len(es))]
			ws = []*Word{Lit("loop"), ws[1], ws[2], Lit("e2"), Exp(Lit("list"), TupW(es...)), ws[3]}
			ws[5].B.Ss = append([]*Sentence{S(Lit("emit"), TupW(Exp(Lit("get"), Lit("e2"), Lit("none")), Exp(Lit("get"), Lit(n), Lit("none"))))}, ws[5].B.Ss...)
			// the variable may be gone
			ws[5].B.Ss = append([]*Sentence{S(Lit("tick")), S(Lit("if"), Exp(Lit("!"), Exp(Lit("exists"), Lit(n))), Blk(S(Lit("break"))))}, ws[5].B.Ss...)
		}
	case 5:
		var es []*Word
		for i := 0; i < lim; i++ {
			es = append(es, Lit(fmt.Sprint(g.n(4))))
		}
		ws = []*Word{Lit("list"), TupW(es...), Lit("foreach"), Lit(n), BlkW(Scr(append([]*Sentence{S(Lit("tick"))}, acts()...)...))}
	default:
		// a script source deciding from the index
		src := BlkW(Scr(S(Lit("if"), Exp(Var(n), Lit(">"), Lit(fmt.Sprint(lim))), Blk(S(Lit("break")))),
			S(Lit("if"), cond(g.n(lim)), Blk(S(Lit(g.pick("continue", "continue", "break", "yield"))))), S(Lit("idem"), StrW(Lit("s"), Sub(BlkW(One(Lit(n))))))))
		body := append([]*Sentence{S(Lit("tick")), S(Lit("emit"), Exp(Lit("get"), Lit("e"), Lit("none"))), S(Lit("if"), Exp(Var(n), Lit(">"), Lit("8")), Blk(S(Lit("break"))))}, acts()...)
		ws = []*Word{Lit("loop"), Lit(n), Lit("e"), src, BlkW(Scr(body...))}
		if g.p(400) {
			ws = []*Word{Lit("loop"), Lit(n), Lit("e"), src, Lit("e3"), Exp(Lit("list"), TupW(Lit("1"), Lit("2"))), BlkW(Scr(body...))}
		}
	}
	return append(r, S(Lit("emit"), Exp(Lit("catch"), Blk(S(ws...)))))
}

// stRedef defines a command, calls it from several places, redefines it and
// calls it again
func stRedef(g *G) []*Sentence {
	n := g.pick("cc", "dd", "idem", "ff")
	var uses []*Word
	def := func(v string) *Sentence {
		k := g.pick("closure", "macro", "proc")
		if g.p(150) {
			return S(Lit("alias"), Lit(n), TupW(Lit("string"), Text(v)))
		}
		return S(Lit(k), Lit(n), TupW(), Blk(S(Lit("string"), Text(v))))
	}
	r := []*Sentence{def("one")}
	for i := 0; i < 1+g.n(3); i++ {
		u := fmt.Sprintf("u%d", i)
		call := S(Lit(n))
		switch g.n(7) {
		case 0:
			r = append(r, S(Lit("proc"), Lit(u), TupW(), Blk(call)))
			uses = append(uses, Exp(Lit(u)))
		case 1:
			r = append(r, S(Lit("closure"), Lit(u), TupW(), Blk(call)))
			uses = append(uses, Exp(Lit(u)))
		case 2:
			r = append(r, S(Lit("scope"), Lit(u), Blk(S(Lit("closure"), Lit("k"), TupW(), Blk(call)), S(Lit("catch"), Blk(call)))))
			uses = append(uses, Exp(Lit(u), Lit("eval"), Blk(call)), Exp(Lit(u), Lit("call"), Lit("k")))
		case 3:
			r = append(r, S(Lit("namespace"), Lit(u), Blk(S(Lit("macro"), Lit("k"), TupW(), Blk(call)), S(Lit("proc"), Lit("p"), TupW(), Blk(call)), S(Lit("catch"), Blk(call)))))
			uses = append(uses, Exp(Lit(u), Lit("k")), Exp(Lit(u), Lit("p")), Exp(Exp(Lit(u)), Lit("eval"), Blk(call)))
		case 4:
			r = append(r, S(Lit("set"), Lit(u), Exp(Lit("coroutine"), Blk(S(Lit("while"), Lit("true"), Blk(S(Lit("tick")), S(Lit("yield"), Exp(Lit("catch"), Blk(call)))))))))
			uses = append(uses, Exp(Var(u), Lit("wait")))
		case 5:
			r = append(r, S(Lit("alias"), Lit(u), Lit(n)))
			uses = append(uses, Exp(Lit(u)))
		default:
			r = append(r, S(Lit("ensemble"), Lit(u), TupW(Lit("x")), Blk(S(Lit("proc"), Lit("s"), TupW(Lit("x")), Blk(call)), S(Lit("macro"), Lit("m"), TupW(Lit("x")), Blk(call)))))
			uses = append(uses, Exp(Lit(u), Lit("1"), Lit("s")), Exp(Lit(u), Lit("1"), Lit("m")))
		}
	}
	uses = append(uses, Exp(Lit(n)))
	all := func() *Sentence {
		var ws []*Word
		for _, u := range uses {
			if g.p(750) {
				ws = append(ws, Exp(Lit("catch"), Blk(S(u.B.Ss[0].Ws...))))
			}
		}
		return S(Lit("emit"), TupW(ws...))
	}
	r = append(r, all())
	for i := 0; i < 1+g.n(2); i++ {
		switch g.n(4) {
		case 0:
			// in an inner scope
			u := g.pick("u0", "u1")
			r = append(r, S(Lit("catch"), Blk(S(Lit(u), Lit("eval"), Blk(def(fmt.Sprint("in", i)))))))
		case 1:
			r = append(r, S(Lit("catch"), Blk(S(Exp(Lit("u0")), Lit("eval"), Blk(def(fmt.Sprint("in", i)))))))
		default:
			r = append(r, def(fmt.Sprint("re", i)))
		}
		r = append(r, all())
	}
	return r
}

// stQual holds qualified words and selects them further
func stQual(g *G) []*Sentence {
	k := func() *Word { return Lit(g.pick("k1", "k2", "k3")) }
	r := []*Sentence{nil}
	base := g.pick("wd", "wl", "zz")
	r[0] = S(Lit("set"), Lit("qa"), Exp(Lit("idem"), Qual(Lit(base), Key(k()))))
	if g.p(300) {
		r[0] = S(Lit("set"), Lit("qa"), Exp(Lit("idem"), Qual(Lit(base), Key(k()), Idx(Lit("idem"), Lit("1")))))
	}
	names := []string{"qa"}
	for i := 0; i < 1+g.n(4); i++ {
		src := names[g.n(len(names))]
		dst := g.pick("qa", "qb", "qc", "qd")
		var w *Word
		switch g.n(4) {
		case 0:
			w = Sub(Lit(src), Idx(Lit("idem"), Lit("0")))
		case 1:
			w = Sub(Lit(src), Key(k(), k()))
		default:
			w = Sub(Lit(src), Key(k()))
		}
		r = append(r, S(Lit("set"), Lit(dst), w))
		if !contains(names, dst) {
			names = append(names, dst)
		}
	}
	var ws []*Word
	for _, n := range names {
		ws = append(ws, Var(n))
	}
	return append(r, S(Lit("emit"), TupW(ws...)))
}
func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// yielding is a block which yields several times before ending some way
func (g *G) yielding(vars ...string) *Word {
	var ss []*Sentence
	v := func() *Word {
		if len(vars) > 0 && g.p(600) {
			return Var(vars[g.n(len(vars))])
		}
		return Lit(g.pick("y1", "y2", "y3", "y4"))
	}
	for i := 0; i < g.n(4); i++ {
		switch g.n(5) {
		case 0:
			ss = append(ss, S(Lit("yield"), v()))
		case 1:
			ss = append(ss, S(Lit("emit"), v()))
		case 2:
			ss = append(ss, S(Lit("emit"), TupW(v(), Exp(Lit("yield"), v()), v())))
		default:
			ss = append(ss, S(Lit("emit"), Exp(Lit("yield"), v())))
		}
	}
	switch g.n(9) {
	case 0, 1:
		ss = append(ss, S(Lit("error"), v()))
	case 2:
		ss = append(ss, S(Lit("return"), v()))
	case 3:
		ss = append(ss, S(Lit("break")))
	case 4:
		ss = append(ss, S(Lit("continue")))
	case 5:
		ss = append(ss, S(Lit("yield"), v()))
	case 6:
		ss = append(ss, S(Lit("return"), Exp(Lit("yield"), v())))
	default:
		ss = append(ss, S(Lit("idem"), v()))
	}
	return Blk(ss...)
}

// stResume calls resumable commands through prefixes, aliases and ensembles
func stResume(g *G) []*Sentence {
	body := g.yielding()
	var hs []*Word
	for _, k := range []string{"return", "yield", "error", "break", "continue"} {
		if g.p(350) {
			h := g.yielding("e")
			if g.p(250) {
				h.B.Ss = append(h.B.Ss[:len(h.B.Ss)-1], S(Lit("pass")))
			}
			hs = append(hs, Lit(k))
			if k == "return" || k == "yield" || k == "error" {
				hs = append(hs, Lit("e"))
			} else {
				h = g.yielding()
			}
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 || g.p(400) {
		hs = append(hs, Lit("finally"), g.yielding())
	}
	var r []*Sentence
	g.nc++
	u := fmt.Sprint("rs", g.nc)
	w := Lit("catch")
	pre := []*Word{body}
	switch g.n(4) {
	case 0:
		w, pre = TupW(Lit("catch"), body), nil
	case 1:
		w = TupW(Lit("catch"))
	}
	wrap := func() {
		switch g.n(3) {
		case 0:
			w = TupW(w)
		case 1:
			g.nc++
			n := fmt.Sprint("rs", g.nc)
			r = append(r, S(Lit("alias"), Lit(n), w))
			w = Lit(n)
		}
	}
	wrap()
	wrap()
	ws := append([]*Word{}, pre...)
	switch g.n(6) {
	case 0, 1:
		// as a subcommand; the body is its argument
		var x []*Word
		if len(pre) > 0 {
			x = []*Word{Lit("x")}
		}
		r = append(r, S(Lit("ensemble"), Lit(u), TupW(x...), Blk(S(Lit("alias"), Lit("c"), w))))
		ws = append(append([]*Word{Lit(u)}, ws...), Lit("c"))
	case 2:
		// nested ensembles
		x := []*Word{}
		if len(pre) > 0 {
			x = []*Word{Lit("x")}
		}
		r = append(r, S(Lit("ensemble"), Lit(u), TupW(x...), Blk(S(Lit("ensemble"), Lit("in"), TupW(x...), Blk(S(Lit("alias"), Lit("c"), w))))))
		ws = append(append([]*Word{Lit(u)}, ws...), Lit("in"), Lit("c"))
	case 3:
		r = append(r, S(Lit("namespace"), Lit(u), Blk(S(Lit("alias"), Lit("c"), w))))
		ws = append([]*Word{Lit(u), Lit("c")}, ws...)
	case 4:
		r = append(r, S(Lit("scope"), Lit(u), Blk(S(Lit("alias"), Lit("c"), w))))
		ws = append([]*Word{Lit(u), Lit("call"), Lit("c")}, ws...)
	default:
		ws = append([]*Word{w}, ws...)
	}
	ws = append(ws, hs...)
	s := S(ws...)
	switch g.n(4) {
	case 0:
		r = append(r, S(Lit("emit"), Exp(Lit("catch"), Blk(s))))
	case 1:
		r = append(r, S(Lit("set"), Lit("co"), Exp(Lit("coroutine"), Blk(s))))
		for i := 0; i < 2+g.n(3); i++ {
			r = append(r, S(Lit("emit"), TupW(Exp(Lit("catch"), Blk(S(Var("co"), Lit(g.pick("wait", "yield")), Lit(fmt.Sprint("b", i))))), Exp(Var("co"), Lit("done")))))
			if k := r[len(r)-1].Ws[1].B.Ss[0].Ws[0].B.Ss[0].Ws[1].B.Ss[0]; k.Ws[1].V == "wait" {
				k.Ws = k.Ws[:2]
			}
		}
	default:
		r = append(r, s)
	}
	return r
}

// stInter defines commands which yield, or calls them; calls from different
// main scripts are interleaved
func stInter(g *G) []*Sentence {
	name := func() string { return g.pick("in1", "in2", "in3") }
	if g.ni > 0 && !g.interDef && g.p(750) {
		n := g.inter[g.n(len(g.inter))]
		s := S(append(append([]*Word{}, n...), Lit(g.pick("A", "B", "C", "D")), Lit(g.pick("1", "2", "3")))...)
		switch g.n(4) {
		case 0:
			return one(S(Lit("emit"), Exp(Lit("catch"), Blk(s))))
		case 1:
			return one(S(Lit("emit"), ExpW(Scr(s))))
		}
		return one(S(Lit("emit"), Exp(Lit("catch"), Blk(s), Lit("error"), Lit("e"), Blk(S(Lit("idem"), Var("e"))), Lit("return"), Lit("e"), Blk(S(Lit("idem"), Var("e"))), Lit("break"), Blk(S(Lit("idem"), Lit("brk"))), Lit("continue"), Blk(S(Lit("idem"), Lit("cnt"))))))
	}
	g.ni++
	n := name()
	b := g.yielding("x", "y")
	// locals of the call
	switch g.n(5) {
	case 0:
		b.B.Ss = append([]*Sentence{S(Lit("set"), Lit("l"), Exp(Lit("yield"), Var("x")))}, append(b.B.Ss, S(Lit("emit"), TupW(Var("x"), Var("l"))))...)
	case 1:
		b = Blk(S(Lit("loop"), Lit("i"), Exp(Lit("list"), TupW(Lit("p"), Lit("q"))), BlkW(Scr(append([]*Sentence{S(Lit("tick")), S(Lit("emit"), TupW(Var("i"), Exp(Lit("yield"), TupW(Var("x"), Var("i"))), Var("i")))}, b.B.Ss...)...))),
			S(Lit("emit"), Var("y")))
	case 2:
		b = Blk(S(Lit("catch"), b, Lit("error"), Lit("e"), Blk(S(Lit("yield"), Var("e")), S(Lit("emit"), TupW(Var("e"), Var("x")))), Lit("finally"), Blk(S(Lit("emit"), Exp(Lit("yield"), Var("y"))))))
	case 3:
		b.B.Ss = append(b.B.Ss, S(Lit("emit"), TupW(Var("x"), Var("y"))))
		if g.ni > 1 {
			k := g.inter[g.n(len(g.inter))]
			if k[0].V < n && len(k) == 1 {
				b.B.Ss = append([]*Sentence{S(append(append([]*Word{}, k...), Var("y"), Var("x"))...)}, b.B.Ss...)
			}
		}
	}
	kind := g.pick("macro", "macro", "closure", "proc", "alias")
	args := TupW(Lit("x"), Lit("y"))
	if g.p(200) {
		args = TupW(Lit("x"), TupW(Lit("?y"), Lit("dy")), Lit("*z"))
	}
	if kind == "alias" {
		g.nc++
		m := fmt.Sprint("lm", g.nc)
		g.inter = append(g.inter, []*Word{Lit(n)})
		return []*Sentence{S(Lit("macro"), Lit(m), args, b), S(Lit("alias"), Lit(n), TupW(Lit(m)))}
	}
	if g.p(250) {
		g.nc++
		u := fmt.Sprint("sp", g.nc)
		sp := g.pick("namespace", "scope")
		ws := []*Word{Lit(u), Lit("call"), Lit(n)}
		if sp == "namespace" {
			ws = []*Word{Lit(u), Lit(n)}
		}
		g.inter = append(g.inter, ws)
		return one(S(Lit(sp), Lit(u), Blk(S(Lit("set"), Lit("y"), Lit("outer")), S(Lit(kind), Lit(n), args, b))))
	}
	g.inter = append(g.inter, []*Word{Lit(n)})
	return one(S(Lit(kind), Lit(n), args, b))
}

// interProgram interleaves calls of the same commands from several scripts
func interProgram(g *G, p *rec.Program) {
	g.W = weights("emit=3 set=3 inter=30 resume=5 yield=4 coroutine=4 loop=3 ensemble=2 alias=2")
	g.budget = 10
	g.MaxD = 3
	one := func(n int) {
		s := &Script{}
		for i := 0; i < n; i++ {
			s.Ss = append(s.Ss, g.stmts()...)
		}
		p.Mains = append(p.Mains, s)
	}
	// the definitions
	for len(g.inter) < 1+g.n(3) {
		g.interDef = true
		p.Mains = append(p.Mains, Scr(stInter(g)...))
		g.interDef = false
	}
	p.Mains = []*Script{{Ss: flat(p.Mains)}}
	for i := 0; i < 2+g.n(2); i++ {
		s := Scr(stInter(g)...)
		p.Mains = append(p.Mains, s)
		if g.p(500) {
			one(1)
		}
	}
	p.Mains = Tame(p.Mains)
	for i := 0; i < 10; i++ {
		v := rec.M{"t": "str", "s": fmt.Sprintf("back%d", i)}
		k := g.pick("later", "later", "later", "val", "same")
		b := rec.M{"k": k}
		if k != "same" {
			b["v"] = v
		}
		p.Back = append(p.Back, b)
	}
}
func flat(l []*Script) (r []*Sentence) {
	for _, s := range l {
		r = append(r, s.Ss...)
	}
	return r
}
