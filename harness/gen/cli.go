package gen

import (
	"fmt"
	. "hv/lang"
	"hv/rec"
	"strings"
)

// inputs that are not scripts: nothing to evaluate, or something wrong
var rawVoid = []string{"", "", " ", ";", " ; ;", "# nothing", "#{ a }#", "#{ a\nb }#", "\\\n", "##{ #{ }# \n}##", "# a \\\n"}
var rawBad = []string{"idem ]", "idem )", "}", "foo {a ]", "(a }", "idem a\"", "[idem (])", "idem {\n)", "$\"a\"", "idem [list (1 2]",
	"\"a\"\"", "{\"a\n\n\"\"}", "(a))", "#{ #{ }# }# ]", "a{b}{c\n}}"}
var rawOpen = []string{"idem {", "idem (1 2", "\"abc", "[idem \"a]", "#{ never", "[idem \\", "idem \"\"\"abc\"\"", "\"\"TAG\nabc\nTAG"}

func init() {
	profiles["C23"] = cliProgram
	profiles["C23p"] = plainSession
	profiles["C23f"] = fileProgram
}

const cliWeights = "jump=50 loopjump=100 guard=60 recurse=40 emit=10 compute=8 set=9 let=5 destruct=3 get=4 unset=2 if=5 when=3 while=2 loop=4 foreach=3 catch=4 proc=6 closure=6 macro=4 call=10 yield=3 scope=3 namespace=4 ensemble=4 coroutine=3 corerr=2 alias=3 tuplecmd=3 module=2 eval=4 script=3 word=5 argspec=2 options=2 arity=2 unknown=4 badword=1 collraw=4 convert=3 number=4 immut=2 convert=3 cli=24"

// a sentence of the command line's own commands
func stCli(g *G) []*Sentence {
	if g.P == nil || g.P.Mode == "" {
		return one(S(Lit("idem"), Lit("a")))
	}
	switch g.n(16) {
	case 12, 13:
		// a file that yields, in a coroutine
		g.nf++
		f := fmt.Sprintf("s%d.lna", g.nf)
		n := g.pick("y1", "y2")
		b := []*Sentence{S(Lit("emit"), Exp(Lit("yield"), g.val(kInt)))}
		if g.p(500) {
			b = append(b, S(Lit("set"), Lit("t"), Exp(Lit("yield"), g.val(kStr))))
		}
		if g.p(300) {
			b = []*Sentence{S(Lit("catch"), Blk(b...), Lit("finally"), Blk(S(Lit("emit"), Lit("left"))))}
		}
		if g.p(200) {
			b = append(b, S(Lit("nocmd")))
		} else if g.p(300) {
			b = append(b, S(Lit("return"), g.val(kStr)))
		} else {
			b = append(b, S(Lit("idem"), g.val(kInt)))
		}
		g.P.Files = append(g.P.Files, rec.File{Path: f, Body: &Script{Ss: b}})
		var body *Word
		switch g.n(3) {
		case 0:
			body = Blk(S(Lit("source"), Lit(f)))
		case 1:
			body = Blk(S(Lit("emit"), Exp(Lit("source"), Lit(f))), S(Lit("idem"), Lit("end")))
		default:
			body = Blk(S(Lit("idem"), Cmp(Lit("got"), Exp(Lit("source"), Lit(f)))))
		}
		r := one(S(Lit("set"), Lit(n), Exp(Lit("coroutine"), body)))
		for k := 2 + g.n(2); k > 0; k-- {
			if g.p(300) {
				r = append(r, S(Exp(Var(n)), Lit("yield"), g.val(kStr)))
			} else {
				r = append(r, S(Exp(Var(n)), Lit("wait")))
			}
		}
		return r
	case 14, 15:
		return g.lines()
	case 0, 1, 2, 3:
		if n := len(g.P.Files); n > 0 && g.p(300) {
			return one(S(Lit("source"), Lit(g.P.Files[g.n(n)].Path)))
		}
		g.nf++
		path := fmt.Sprintf("s%d.lna", g.nf)
		if g.p(200) {
			path = fmt.Sprintf("lib/s%d.lna", g.nf)
		}
		if g.p(120) {
			k := g.n(4)
			g.P.Files = append(g.P.Files, rec.File{Path: path, Raw: []string{"emit \"a", "emit (a", "emit a}", "emit [idem\n"}[k],
				Err: []string{"unmatched string delimiter", "unmatched left parenthesis", "unmatched right brace", "unmatched left bracket"}[k]})
		} else {
			b := g.script(1+g.n(3), g.c)
			g.P.Files = append(g.P.Files, rec.File{Path: path, Body: b})
		}
		r := one(S(Lit("source"), Lit(path)))
		if g.p(400) {
			r = one(g.use(r[0].Ws))
		}
		if g.p(400) {
			if s := g.call(kAny); s != nil {
				r = append(r, s)
			}
		}
		return r
	case 4:
		return one(S(Lit("source"), Lit(g.pick("nope", "lib/nope.lna"))))
	case 5:
		// the same in a body of its own
		if n := len(g.P.Files); n > 0 {
			f := Lit(g.P.Files[g.n(n)].Path)
			return one(S(Lit(g.pick("catch", "eval", "scope")), Blk(S(Lit("source"), f), S(Lit("emit"), Lit("after")))))
		}
		return one(S(Lit("source")))
	case 6:
		return one(S(Lit(g.pick("source", "exit", "load", "picol")), g.val(kStr), g.val(kInt), g.val(kStr), g.val(kStr)))
	case 7:
		return one(S(Lit("load"), Lit(g.pick("nope", "verif", "native/nope")), Lit("other")), S(Lit("import"), Lit("other"), TupW(Lit("emit"))))
	case 8, 9:
		return one(g.use([]*Word{Lit("picol"), g.oneWord(Blk(S(Lit("set"), Lit("a"), Lit("5"))), Blk(S(Lit("set"), Lit("a"))), Blk(S(Lit("+"), Lit("1"), Lit("2"))),
			Blk(S(Lit("return"), Lit("3"))), Lit("3"))}))
	case 10:
		return one(S(Lit("help"), Lit(g.pick("source", "exit", "load", "picol")), g.val(kStr)))
	}
	if g.p(250) {
		return one(S(Lit("exit")))
	}
	return one(S(Lit("catch"), Blk(S(Lit("exit"), Lit("now")))))
}
// texts and blocks of several lines
func (g *G) lines() []*Sentence {
	var b strings.Builder
	for k := 2 + g.n(4); k > 0; k-- {
		b.WriteString(g.pick("a", "", "", "b c", " ", "# d", "1"))
		b.WriteString("\n")
	}
	w := Text(b.String() + g.pick("", "e"))
	switch g.n(4) {
	case 0:
		return one(S(Lit("idem"), w))
	case 1:
		return one(S(Lit("set"), Lit("ml"), w), S(Lit("string"), Var("ml"), Lit("length")))
	case 2:
		return one(S(Lit("eval"), Blk(S(Lit("idem"), w))))
	}
	return one(S(Lit("idem"), Exp(Lit("list"), TupW(w, Lit("x")))))
}
func (g *G) oneWord(ws ...*Word) *Word { return ws[g.n(len(ws))] }

// inputs makes every sentence an input, among others
func (g *G) inputs(p *rec.Program) {
	var ms []*Script
	for _, s := range p.Mains {
		for i := 0; i < len(s.Ss); i++ {
			m := &Script{Ss: []*Sentence{s.Ss[i]}}
			for i+1 < len(s.Ss) && g.p(120) {
				ws := s.Ss[i].Ws
				if w := ws[len(ws)-1]; w.K == "cmt" && !strings.HasPrefix(w.V, "#{") {
					break // the next line is another input
				}
				i++
				m.Ss = append(m.Ss, s.Ss[i])
			}
			ms = append(ms, m)
		}
	}
	p.Mains = nil
	for _, m := range ms {
		void := true
		for _, s := range m.Ss {
			for _, w := range s.Ws {
				void = void && w.K == "cmt"
			}
		}
		if !void {
			p.Mains = append(p.Mains, m)
		}
	}
	ms = p.Mains
	raw := func() {
		switch {
		case g.p(120):
			p.Items = append(p.Items, rec.Item{Main: -1, Raw: rawVoid[g.n(len(rawVoid))]})
		case g.p(70):
			p.Items = append(p.Items, rec.Item{Main: -1, Raw: rawBad[g.n(len(rawBad))]})
		}
	}
	for i := range ms {
		raw()
		p.Items = append(p.Items, rec.Item{Main: i})
	}
	raw()
	if g.p(150) {
		p.Items = append(p.Items, rec.Item{Main: -1, Raw: rawOpen[g.n(len(rawOpen))]})
	}
}

// tameAll makes sure that the scripts and the files end
func tameAll(p *rec.Program) {
	all := append([]*Script{}, p.Mains...)
	for _, f := range p.Files {
		if f.Body != nil {
			all = append(all, f.Body)
		}
	}
	all = Tame(all)
	p.Mains = all[:len(p.Mains)]
	k := len(p.Mains)
	for i := range p.Files {
		if p.Files[i].Body != nil {
			p.Files[i].Body = all[k]
			k++
		}
	}
}

func cliProgram(g *G, p *rec.Program) {
	g.W = weights(cliWeights)
	g.P = p
	p.Mode = "session"
	p.Cap = true
	g.budget, g.MaxD = 16, 3
	g.mains(p, 1, 6)
	g.inputs(p)
	tameAll(p)
}
func fileProgram(g *G, p *rec.Program) {
	g.W = weights(cliWeights)
	g.P = p
	p.Mode = "file"
	switch {
	case g.p(60):
		p.Items = []rec.Item{{Main: -1, Raw: rawBad[g.n(len(rawBad))]}}
		p.Plain = g.p(500)
	case g.p(60):
		p.Items = []rec.Item{{Main: -1, Raw: rawOpen[g.n(len(rawOpen))] + "\n"}}
		p.Plain = g.p(500)
	case g.p(300):
		p.Plain = true
		p.Mains = []*Script{{}}
		for i := g.n(4); i >= 0; i-- {
			p.Mains[0].Ss = append(p.Mains[0].Ss, g.plain()...)
		}
		p.Items = []rec.Item{{Main: 0}}
	default:
		g.budget, g.MaxD = 12, 3
		g.mains(p, 1, 4)
		if g.p(500) {
			p.Mains[0].Ss = append(p.Mains[0].Ss, S(Lit("idem"), g.val(kAny)))
		}
		p.Items = []rec.Item{{Main: 0}}
	}
	tameAll(p)
}

// plainSession has no recorded commands: the program itself can run it
func plainSession(g *G, p *rec.Program) {
	g.P = p
	g.W = weights("word=1")
	p.Mode = "session"
	p.Cap = true
	p.Plain = true
	m := &Script{}
	for i := 2 + g.n(7); i > 0; i-- {
		m.Ss = append(m.Ss, g.plain()...)
	}
	p.Mains = []*Script{m}
	g.inputs(p)
}

// sentences without emit and tick
func (g *G) plain() []*Sentence {
	lit := func() *Word { return g.literal(g.oneOf(kInt, kStr, kBool, kNum, kList, kTup, kDict, kBlk)) }
	v := func() *Word {
		if len(g.names) > 0 && g.p(600) {
			return Var(g.names[g.n(len(g.names))])
		}
		return lit()
	}
	switch g.n(13) {
	case 12:
		return g.lines()
	case 0, 1, 2:
		n := g.pick("a", "b", "c")
		r := one(S(Lit(g.pick("set", "set", "set", "let")), Lit(n), v()))
		g.names = append(g.names, n)
		return r
	case 3:
		return one(S(Lit("idem"), v()))
	case 4:
		return one(S(Lit(g.pick("+", "*", "-")), v(), g.val(kInt)))
	case 5:
		return one(S(Lit(g.pick("proc", "closure", "macro")), Lit(g.pick("f", "g")), TupW(Lit("x"), Lit("?y")),
			Blk(S(Lit("idem"), TupW(Lit("got"), Lit("x"))), S(Lit(g.pick("idem", "error", "return")), Lit("x")), S(Lit("idem"), Exp(Lit("get"), Lit("y"), Lit("none"))))))
	case 6:
		return one(S(Lit(g.pick("f", "g")), v()))
	case 7:
		return one(S(Lit("list"), TupW(v(), v()), Lit(g.pick("length", "at", "append")), TupW(v())))
	case 8:
		return one(S(Lit("string"), v(), Lit("append"), v()))
	case 9:
		return one(S(Lit(g.pick("error", "nocmd", "return", "break", "yield", "pass")), Text(g.pick("a", "some text", "x$y", ""))))
	case 10:
		return one(S(Lit("if"), g.literal(kBool), Blk(S(Lit("idem"), v())), Lit("else"), Blk(S(Lit("nocmd"), Lit("here")))))
	}
	return one(S(Lit("idem"), Exp(Lit("idem"), v()), g.oneWord(v(), Cmt("#{ more }#"))))
}
