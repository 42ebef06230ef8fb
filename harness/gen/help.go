package gen

import . "hv/lang"

// commands that can be named here
func (g *G) visible() (r []cmdInfo) {
	for c := g.c; c != nil; c = c.par {
		r = append(r, c.cmds...)
	}
	return
}

var helpSubs = []string{"subcommands", "eval", "call", "argspec", "import", "exports", "bad", "wait", "length", "at", "?", "!?", "append", "foreach", "s1", "s2", "in", "f", "g", "h", "cmd1", "cmd2", "a", "b"}

func (g *G) helpWord() *Word {
	switch g.n(6) {
	case 0:
		return g.val(kAny)
	case 1:
		return TupW(Lit("a"), Lit("b"))
	case 2:
		return Blk(S(Lit("idem"), Lit("a")))
	}
	return Lit(helpSubs[g.n(len(helpSubs))])
}

// caught emits the outcome of a command
func (g *G) caught(ws ...*Word) *Sentence {
	return S(Lit("emit"), Exp(Lit("catch"), Blk(S(ws...))))
}
func (g *G) argspecWord() *Word {
	return [](func() *Word){
		func() *Word { return TupW(Lit("a")) },
		func() *Word { return TupW() },
		func() *Word { return TupW(Lit("a"), Lit("b")) },
		func() *Word { return TupW(Lit("a"), Lit("?b")) },
		func() *Word { return TupW(TupW(Lit("?a"), Lit("dflt")), Lit("b")) },
		func() *Word { return TupW(Lit("a"), Lit("*")) },
		func() *Word { return TupW(Lit("*rest"), Lit("z")) },
		func() *Word { return TupW(TupW(Lit("-o"), Lit("--opt")), Lit("o"), Lit("a")) },
		func() *Word { return TupW(Lit("a"), TupW(Lit("-o")), Lit("?o"), TupW(Lit("?-f")), Lit("?fl")) },
		func() *Word { return TupW(TupW(Lit("int"), Lit("a")), TupW(Lit("?list"), Lit("b"))) },
		func() *Word { return TupW(Lit("v"), TupW(Lit("?w"), Blk(S(Lit("emit"), Lit("never")))), TupW(Lit("?x"), Lit("y"))) },
	}[g.n(11)]()
}

// help of anything, with any words
func stHelp(g *G) []*Sentence {
	var pre []*Sentence
	ws := []*Word{Lit("help")}
	vis := g.visible()
	body := func() *Word { return Blk(S(Lit("emit"), Lit("ran")), S(Lit("idem"), g.val(kInt))) }
	def := func(n string) *Sentence {
		return S(Lit(g.pick("proc", "closure", "macro")), Lit(n), g.argspecWord(), body())
	}
	sub := func() *Word { return Lit(g.pick("s1", "s2", "in", "subcommands", "bad", "s3")) }
	inside := func() []*Sentence {
		r := []*Sentence{def("s1"), def("s2")}
		switch g.n(4) {
		case 0:
			r = append(r, S(Lit("alias"), Lit("s3"), Lit("s1")))
		case 1:
			r = append(r, S(Lit("scope"), Lit("s3"), Blk()))
		case 2:
			r = append(r, S(Exp(Lit("list")), Lit("import"), Lit(g.pick("length", "at", "foreach")), Lit("s3")))
		}
		if g.p(500) {
			r = append(r, S(Lit("ensemble"), Lit("in"), TupW(Lit("x")), Blk(def("s1"), def("s2"))))
		} else if g.p(500) {
			r = append(r, S(Lit("namespace"), Lit("in"), Blk(def("s1"), def("s2"))))
		}
		return r
	}
	k := g.n(12)
	switch {
	case k < 2:
		ws = append(ws, Lit(append(arities, "parse", "module", "import", "help", "|>", "^", "tick", "nocmd")[g.n(len(arities)+8)]))
	case k == 2:
		t := g.pick("list", "dict", "string", "tuple", "script", "argspec", "int", "bool", "real")
		s := "subcommands"
		if l := subsOf[t]; l != nil && g.p(850) {
			s = l[g.n(len(l))]
		}
		ws = append(ws, Lit(t), g.val(kAny), Lit(s))
	case k == 3:
		ws = append(ws, Exp(Lit(g.pick("list", "dict", "int", "script"))), g.helpWord())
	case k < 7:
		// an ensemble or a namespace with things in it
		n := g.cmdName()
		if g.p(600) {
			as := []*Word{TupW(), TupW(Lit("v")), TupW(Lit("v"), Lit("w")), TupW(TupW(Lit("int"), Lit("v")))}[g.n(4)]
			pre = append(pre, S(Lit("ensemble"), Lit(n), as, Blk(inside()...)))
			ws = append(ws, Lit(n))
			if g.p(200) {
				ws[1] = Exp(Lit(n))
			}
			for range as.ItemWords() {
				if g.p(900) {
					ws = append(ws, g.val(kInt))
				}
			}
		} else {
			pre = append(pre, S(Lit("namespace"), Lit(n), Blk(inside()...)))
			ws = append(ws, Lit(n))
			if g.p(200) {
				ws[1] = Exp(Lit(n))
			}
		}
		ws = append(ws, sub())
		if g.p(500) {
			ws = append(ws, g.val(kInt), sub())
		}
	case k == 7:
		n := g.cmdName()
		pre = append(pre, def(n))
		ws = append(ws, Lit(n))
		if g.p(300) {
			ws[1] = Exp(Lit(n))
		}
	case k == 8:
		ws = append(ws, []*Word{g.val(kInt), TupW(Lit("idem"), Lit("a")), g.val(kAny), Exp(Lit("coroutine"), body()), Exp(Lit("alias"), Lit("h"), Lit("idem")),
			Exp(Lit("closure"), g.argspecWord(), body()), Exp(Exp(Lit("proc"), TupW(Lit("a")), body())), Exp(Lit("scope"), Blk()), Exp(Lit("namespace"), Blk(inside()...)),
			Exp(Lit("module"), Blk(S(Lit("idem"), Lit("a"))))}[g.n(10)])
	default:
		if len(vis) == 0 {
			ws = append(ws, Lit("help"))
			break
		}
		c := vis[g.n(len(vis))]
		ws = append(ws, Lit(c.name))
		if g.p(200) {
			ws[1] = Exp(Lit(c.name))
		}
		if len(c.subs) > 0 && g.p(600) {
			ws = append(ws, Lit(c.subs[g.n(len(c.subs))]))
		}
	}
	for n := g.n(4); n > 0; n-- {
		ws = append(ws, g.helpWord())
	}
	r := append(pre, g.caught(ws...))
	if g.p(300) {
		r = append(r, g.caught(ws[:2+g.n(len(ws)-1)]...))
	}
	return r
}
