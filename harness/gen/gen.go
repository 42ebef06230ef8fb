// Package gen generates Helena programs.
package gen

import (
	"fmt"
	. "hv/lang"
	"hv/rec"
	"math/rand"
	"strings"
)

type kind int

const (
	kAny kind = iota
	kInt
	kNum
	kBool
	kStr
	kList
	kDict
	kTup
	kBlk
	kCmd
	kSpec
)

type cmdInfo struct {
	name string
	req  int // required arguments
	opt  int
	rem  bool
	args func(g *G) []*Word // special argument lists
	kind string             // proc closure macro scope ns ens alias cor mod
	subs []string
	ret  kind
	rec  bool // do not call (it would recurse)
}
type ctx struct {
	par    *ctx
	vars   map[string]kind
	consts map[string]kind
	locals map[string]kind
	cmds   []cmdInfo
	own    bool
	inProc bool
	inLoop bool
	inCor  bool
	catch  bool
}

// G generates one program.
type G struct {
	interDef bool
	ni       int
	inter    [][]*Word
	R        *rand.Rand
	W        map[string]int
	c        *ctx
	depth    int
	budget   int
	nv, nc   int
	MaxD     int
	Err      int // chance (per mille) of a deliberate mistake
	Prof     string
	idx      int // number of the program
	inMod    bool
	P        *rec.Program // session or script of the command line
	nf       int
	names    []string
}

func (g *G) n(k int) int             { return g.R.Intn(k) }
func (g *G) p(permille int) bool     { return g.R.Intn(1000) < permille }
func (g *G) pick(s ...string) string { return s[g.n(len(s))] }
func newCtx(par *ctx) *ctx {
	return &ctx{par: par, vars: map[string]kind{}, consts: map[string]kind{}, locals: map[string]kind{}}
}

// with runs f in a changed context.
func (g *G) with(c *ctx, f func()) {
	o := g.c
	g.c = c
	f()
	g.c = o
}

// body context in the same scope, with its own locals
func (g *G) inner(locals map[string]kind, loop bool) *ctx {
	c := *g.c
	c.locals = locals
	if c.locals == nil {
		c.locals = map[string]kind{}
	}
	if loop {
		c.inLoop = true
	}
	return &c
}

func (g *G) varName() string {
	if g.p(700) {
		return g.pick("a", "b", "c", "d")
	}
	g.nv++
	return fmt.Sprintf("v%d", g.nv)
}
func (g *G) cmdName() string {
	if g.p(400) {
		return g.pick("f", "g", "h")
	}
	g.nc++
	return fmt.Sprintf("cmd%d", g.nc)
}

// a known variable of kind k, or ""
func (g *G) known(k kind) string {
	var l []string
	add := func(m map[string]kind) {
		ks := []string{}
		for n := range m {
			ks = append(ks, n)
		}
		// map order is random: sort for determinism
		sortStrings(ks)
		for _, n := range ks {
			if k == kAny || m[n] == k || (k == kNum && m[n] == kInt) {
				l = append(l, n)
			}
		}
	}
	add(g.c.vars)
	add(g.c.consts)
	add(g.c.locals)
	if len(l) == 0 {
		return ""
	}
	return l[g.n(len(l))]
}
func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var ints = []string{"0", "1", "2", "3", "-1", "5", "10", "7", "42", "-4"}
var nums = []string{"1", "0.5", "2", "-1.5", "3.25", "10", ".5", "4.0", "-2", "0", "100", "0.25"}
var strs = []string{"a", "b", "foo", "bar", "hello world", "", "x y", "key", "true", "12", "a-b", "Hello", "abcdef", "two\nlines", "(", "$x", "[y]", "{", "\\", "\"q\"", "#c", ";", "a;b", "*", "éa"[2:]}

func (g *G) anyKind() kind {
	return []kind{kInt, kInt, kStr, kStr, kBool, kList, kDict, kTup, kBlk, kNum}[g.n(10)]
}

// val returns a word for a value of kind k.
func (g *G) val(k kind) *Word {
	if g.p(g.Err) {
		k = g.anyKind()
	}
	if k == kAny {
		k = g.anyKind()
	}
	if g.p(300) || (k == kCmd && g.p(800)) {
		if n := g.known(k); n != "" {
			return g.varRef(n)
		}
	}
	if g.depth < g.MaxD && g.p(300) {
		g.depth++
		defer func() { g.depth-- }()
		return g.compute(k)
	}
	return g.literal(k)
}
func (g *G) varRef(n string) *Word {
	switch g.n(8) {
	case 0:
		return Sub(BlkW(One(Lit(n))))
	case 1:
		return Exp(Lit("get"), Lit(n))
	case 2:
		return Sub(Exp(Lit("get"), Lit(n)))
	}
	return Var(n)
}
func (g *G) literal(k kind) *Word {
	switch k {
	case kInt:
		return Lit(ints[g.n(len(ints))])
	case kNum:
		return Lit(nums[g.n(len(nums))])
	case kBool:
		return Lit(g.pick("true", "false"))
	case kStr:
		if g.p(150) {
			return g.strTemplate()
		}
		return Text(strs[g.n(len(strs))])
	case kList:
		return Exp(Lit("list"), g.tuple(0, 4, kAny))
	case kDict:
		return Exp(Lit("dict"), g.pairs(g.n(4)))
	case kTup:
		return g.tuple(0, 3, kAny)
	case kBlk:
		g.depth++
		defer func() { g.depth-- }()
		return g.block(1, nil)
	case kCmd:
		return Lit(g.pick("idem", "+", "list", "emit", "!"))
	case kSpec:
		return Exp(Lit("argspec"), g.specWord())
	}
	return g.literal(g.anyKind())
}
func (g *G) strTemplate() *Word {
	var ms []*Word
	lastLit := false
	for i := 0; i < 1+g.n(4); i++ {
		switch {
		case !lastLit && g.p(500):
			ms = append(ms, Lit(g.pick("a", "b ", " ", "x-", "[", "$", "{}", "\n", ":")))
			lastLit = true
		case g.p(600):
			if n := g.known(kInt); n != "" {
				ms = append(ms, Sub(BlkW(One(Lit(n)))))
				lastLit = false
			}
		default:
			ms = append(ms, g.compute(kStr))
			lastLit = false
		}
	}
	// text right after a closed block is text; after $x{..} a parenthesis
	// would select: literals are escaped
	return StrW(ms...)
}
func (g *G) tuple(min, max int, k kind) *Word {
	n := min + g.n(max-min+1)
	var ws []*Word
	for i := 0; i < n; i++ {
		if g.depth >= g.MaxD {
			ws = append(ws, g.literal(kStr))
		} else {
			g.depth++
			ws = append(ws, g.val(k))
			g.depth--
		}
	}
	t := TupW(ws...)
	return t
}

var keys = []string{"a", "b", "k1", "x y", "", "1"}

func (g *G) pairs(n int) *Word {
	var ws []*Word
	for i := 0; i < n; i++ {
		ws = append(ws, Text(keys[g.n(len(keys))]))
		g.depth++
		ws = append(ws, g.val(kAny))
		g.depth--
	}
	return TupW(ws...)
}

// compute is an expression giving a value of kind k
func (g *G) compute(k kind) *Word {
	switch g.n(12) {
	case 0:
		return Exp(Lit("idem"), g.val(k))
	case 1:
		return Exp(Lit("if"), g.test(), Blk(S(Lit("idem"), g.val(k))), Lit("else"), Blk(S(Lit("idem"), g.val(k))))
	case 2:
		if w := g.call(k); w != nil {
			return ExpW(Scr(w))
		}
	case 3:
		return ExpW(Scr(S(g.pureStmt()...), S(Lit("idem"), g.val(k))))
	case 4:
		return Exp(Lit("emit"), g.val(k))
	case 5:
		return Exp(Lit("eval"), Blk(S(Lit("idem"), g.val(k))))
	case 6:
		return Exp(Lit(g.pick("true", "false")), Lit(g.pick("?", "!?")), g.val(k), g.val(k))
	}
	return Exp(g.typed(k)...)
}
func (g *G) pureStmt() []*Word {
	return []*Word{Lit("emit"), g.literal(kInt)}
}

// typed returns a command sentence computing a value of kind k
func (g *G) typed(k kind) []*Word {
	L := func(s string) *Word { return Lit(s) }
	ix := func() *Word { return Lit(g.pick("0", "1", "2", "-1", "3", "5")) }
	switch k {
	case kInt:
		switch g.n(8) {
		case 0:
			return []*Word{L("list"), g.val(kList), L("length")}
		case 1:
			return []*Word{L("string"), g.val(kStr), L("length")}
		case 2:
			return []*Word{L("dict"), g.val(kDict), L("size")}
		case 3:
			return []*Word{L("int"), g.val(kInt)}
		case 4:
			return []*Word{g.val(kInt), L(g.pick("+", "-", "*")), g.val(kInt)}
		case 5:
			return []*Word{L("tuple"), g.val(kTup), L("length")}
		}
		ws := []*Word{L(g.pick("+", "-", "*", "+"))}
		for i := 0; i < 1+g.n(3); i++ {
			ws = append(ws, g.val(kInt))
		}
		return ws
	case kNum:
		if g.p(300) {
			ws := []*Word{g.val(kNum)}
			for i := 0; i < 1+g.n(3); i++ {
				ws = append(ws, L(g.pick("+", "-", "*", "/", "+")), g.val(kNum))
			}
			return ws
		}
		if g.p(150) {
			return []*Word{L("real"), g.val(kNum)}
		}
		ws := []*Word{L(g.pick("+", "-", "*", "/", "+"))}
		for i := 0; i < 1+g.n(3); i++ {
			ws = append(ws, g.val(kNum))
		}
		return ws
	case kBool:
		switch g.n(8) {
		case 0:
			return []*Word{L("!"), g.boolish()}
		case 1:
			ws := []*Word{L(g.pick("&&", "||"))}
			for i := 0; i < 1+g.n(3); i++ {
				ws = append(ws, g.boolish())
			}
			return ws
		case 2:
			return []*Word{L("string"), g.val(kStr), L(g.pick("==", "!=", ">", ">=", "<", "<=")), g.val(kStr)}
		case 3:
			return []*Word{L("exists"), L(g.pick("a", "b", "c", "d", "zz"))}
		case 4:
			return []*Word{L("dict"), g.val(kDict), L("has"), Text(keys[g.n(len(keys))])}
		case 5:
			return []*Word{L("bool"), g.val(kBool)}
		}
		return []*Word{g.val(kNum), L(g.pick("==", "!=", ">", ">=", "<", "<=")), g.val(kNum)}
	case kStr:
		switch g.n(8) {
		case 0:
			return []*Word{L("string"), g.val(kStr), L("append"), g.val(kStr), g.val(kInt)}
		case 1:
			return []*Word{L("string"), g.val(kStr), L("range"), ix(), ix()}
		case 2:
			return []*Word{L("string"), g.val(kStr), L("insert"), ix(), g.val(kStr)}
		case 3:
			return []*Word{L("string"), g.val(kStr), L("at"), ix(), Text("d")}
		case 4:
			return []*Word{L("string"), g.val(kStr), L("replace"), ix(), ix(), g.val(kStr)}
		case 5:
			return []*Word{L("string"), g.val(kStr), L("remove"), ix(), ix()}
		}
		return []*Word{L("string"), g.val(g.oneOf(kStr, kInt, kBool, kNum))}
	case kList:
		switch g.n(10) {
		case 0:
			return []*Word{L("list"), g.val(kList), L("append"), g.val(kList), g.val(kList)}
		case 1:
			return []*Word{L("list"), g.val(kList), L("range"), ix(), ix()}
		case 2:
			return []*Word{L("list"), g.val(kList), L("insert"), ix(), g.val(kList)}
		case 3:
			return []*Word{L("list"), g.val(kList), L("replace"), ix(), ix(), g.val(kList)}
		case 4:
			return []*Word{L("list"), g.val(kList), L("remove"), ix(), ix()}
		case 5:
			return []*Word{L("list"), g.tuple(0, 4, kStr), L("sort")}
		case 6:
			if g.p(500) {
				return []*Word{L("dict"), g.pairs(g.n(3)), L(g.pick("keys", "values", "entries"))}
			}
		}
		return []*Word{L("list"), g.tuple(0, 4, kAny)}
	case kDict:
		switch g.n(6) {
		case 0:
			return []*Word{L("dict"), g.val(kDict), L("add"), Text(keys[g.n(len(keys))]), g.val(kAny)}
		case 1:
			return []*Word{L("dict"), g.val(kDict), L("remove"), Text(keys[g.n(len(keys))])}
		case 2:
			return []*Word{L("dict"), g.val(kDict), L("merge"), g.val(kDict)}
		}
		return []*Word{L("dict"), g.pairs(g.n(4))}
	case kTup:
		return []*Word{L("tuple"), g.val(g.oneOf(kTup, kList, kTup))}
	case kBlk:
		return []*Word{L("idem"), g.literal(kBlk)}
	case kCmd:
		if g.p(500) {
			return []*Word{L(g.pick("closure", "macro", "proc")), TupW(Lit("x")), g.block(2, map[string]kind{"x": kAny})}
		}
		return []*Word{L("idem"), g.literal(kCmd)}
	case kSpec:
		return []*Word{L("argspec"), g.specWord()}
	}
	return []*Word{L("idem"), g.val(k)}
}
func (g *G) oneOf(ks ...kind) kind { return ks[g.n(len(ks))] }

func (g *G) boolish() *Word {
	switch g.n(5) {
	case 0, 1:
		return g.val(kBool)
	case 2:
		return Blk(S(g.typed0(kBool)...))
	case 3:
		return Blk(S(Lit("emit"), g.literal(kBool)))
	}
	return g.block(1, nil)
}
func (g *G) typed0(k kind) []*Word {
	if g.depth >= g.MaxD {
		return []*Word{Lit("idem"), g.literal(k)}
	}
	g.depth++
	defer func() { g.depth-- }()
	return g.typed(k)
}

// test is a condition: a boolean or a script
func (g *G) test() *Word {
	if g.p(400) || g.depth >= g.MaxD {
		return g.literal(kBool)
	}
	g.depth++
	defer func() { g.depth-- }()
	if g.p(500) {
		return Blk(S(g.typed(kBool)...))
	}
	return g.boolish()
}

// block is a script word with up to n statements
func (g *G) block(n int, locals map[string]kind) *Word {
	return BlkW(g.script(n, g.inner(locals, false)))
}
func (g *G) script(n int, c *ctx) *Script {
	s := &Script{}
	g.with(c, func() {
		g.depth++
		k := g.n(n + 1)
		if g.p(850) && k == 0 {
			k = 1
		}
		for i := 0; i < k; i++ {
			s.Ss = append(s.Ss, g.stmts()...)
		}
		g.depth--
	})
	return s
}

// ending adds a control-flow statement at the end of a script from time to time
func (g *G) ending(s *Script, c *ctx) *Script {
	if g.p(g.W["jump"]) {
		g.with(c, func() { s.Ss = append(s.Ss, g.jump()) })
	}
	return s
}
func (g *G) jump() *Sentence {
	switch g.n(9) {
	case 0:
		return S(Lit("return"))
	case 1, 2:
		return S(Lit("return"), g.val(kAny))
	case 3:
		return S(Lit("error"), g.val(kStr))
	case 4:
		return S(Lit("break"))
	case 5:
		return S(Lit("continue"))
	case 6:
		return S(Lit("yield"), g.val(kAny))
	case 7:
		if g.W["pass"] > 0 || g.p(100) {
			return S(Lit("pass"))
		}
		return S(Lit("break"))
	}
	return S(Lit("idem"), g.val(kAny))
}

// jumpIf is a conditional jump
func (g *G) jumpIf() *Sentence {
	return S(Lit("if"), g.test(), Blk(g.jump()))
}

// stmts returns one statement (possibly with companions)
func (g *G) stmts() []*Sentence {
	g.budget--
	if g.budget < 0 || g.depth > g.MaxD {
		return []*Sentence{S(Lit("emit"), g.literal(g.anyKind()))}
	}
	tot := 0
	for _, s := range order {
		tot += g.W[s.name]
	}
	x := g.n(tot)
	for _, s := range order {
		x -= g.W[s.name]
		if x < 0 {
			r := s.f(g)
			if g.p(30) {
				r = append(r, S(Cmt(g.pick("# comment", "#{ block }#", "##{ nested #{ }# }##"))))
			}
			return r
		}
	}
	return nil
}

type stmt struct {
	name string
	f    func(g *G) []*Sentence
}

var order []stmt

func one(s ...*Sentence) []*Sentence { return s }

// use wraps an expression sentence: bare, emitted, or assigned
func (g *G) use(ws []*Word) *Sentence {
	switch g.n(6) {
	case 0:
		return S(ws...)
	case 1:
		n := g.varName()
		g.setKnown(n, kAny, false)
		return S(Lit("set"), Lit(n), Exp(ws...))
	}
	return S(Lit("emit"), Exp(ws...))
}
func (g *G) setKnown(n string, k kind, con bool) {
	if con {
		g.c.consts[n] = k
	} else {
		g.c.vars[n] = k
	}
}

// shape is a destructuring pattern together with a matching value
func (g *G) shape(d int) (*Word, *Word, []string) {
	if d == 0 || g.p(450) {
		n := g.varName()
		return Lit(n), g.val(kAny), []string{n}
	}
	var a, b []*Word
	var ns []string
	k := g.n(4)
	for i := 0; i < k; i++ {
		x, y, z := g.shape(d - 1)
		a, b, ns = append(a, x), append(b, y), append(ns, z...)
	}
	switch {
	case g.p(120):
		b = append(b, g.val(kAny))
	case g.p(60) && len(b) > 0:
		b = b[:len(b)-1]
	}
	return TupW(a...), TupW(b...), ns
}

// loopBody: bodies start with a bare tick so that every loop ends
func (g *G) loopBody(locals map[string]kind) *Word {
	c := g.inner(locals, true)
	s := g.script(3, c)
	if g.p(g.W["loopjump"]) {
		g.with(c, func() {
			j := S(Lit("if"), g.loopTest(locals), Blk(S(Lit(g.pick("break", "continue")))))
			i := g.n(len(s.Ss) + 1)
			s.Ss = append(s.Ss[:i:i], append([]*Sentence{j}, s.Ss[i:]...)...)
		})
	}
	s = g.ending(s, c)
	s.Ss = append([]*Sentence{S(Lit("tick"))}, s.Ss...)
	return BlkW(s)
}
func (g *G) loopTest(locals map[string]kind) *Word {
	ks := []string{}
	for n, k := range locals {
		if k == kInt {
			ks = append(ks, n)
		}
	}
	sortStrings(ks)
	if len(ks) == 0 {
		return g.test()
	}
	return Exp(Var(ks[g.n(len(ks))]), Lit(g.pick("==", ">", ">=")), Lit(g.pick("1", "2", "0")))
}

// call of a known user command, or nil
func (g *G) call(k kind) *Sentence {
	var l []cmdInfo
	for c := g.c; c != nil; c = c.par {
		l = append(l, c.cmds...)
	}
	if len(l) == 0 {
		return nil
	}
	c := l[g.n(len(l))]
	if c.rec {
		return nil
	}
	ws := []*Word{Lit(c.name)}
	if c.args != nil {
		return S(append(ws, c.args(g)...)...)
	}
	n := c.req
	if c.opt > 0 {
		n += g.n(c.opt + 1)
	}
	if c.rem {
		n += g.n(3)
	}
	if g.p(g.Err * 2) {
		n += g.n(3) - 1
	}
	for i := 0; i < n; i++ {
		ws = append(ws, g.val(kAny))
	}
	return S(ws...)
}

// spec is an argument specification without options
func (g *G) spec() (words []*Word, names []string, req, opt int, rem bool) {
	all := []string{"p", "q", "r", "s"}
	k := g.n(4)
	r := -1
	if k > 0 && g.p(250) {
		r = g.n(k)
	}
	for i := 0; i < k; i++ {
		n := all[i]
		names = append(names, n)
		guard := func() *Word {
			return g.guard()
		}
		switch {
		case i == r:
			words = append(words, Lit("*"+n))
			rem = true
		case g.p(650):
			req++
			if g.p(g.W["guard"]) {
				words = append(words, TupW(guard(), Lit(n)))
			} else {
				words = append(words, Lit(n))
			}
		default:
			opt++
			d := func() *Word {
				if g.p(400) {
					return BlkW(g.script(1, g.inner(nil, false)))
				}
				return g.litConst()
			}
			switch {
			case g.p(g.W["guard"]) && g.p(500):
				words = append(words, TupW(guard(), Lit("?"+n), d()))
			case g.p(g.W["guard"]):
				words = append(words, TupW(guard(), Lit("?"+n)))
			case g.p(600):
				words = append(words, TupW(Lit("?"+n), d()))
			default:
				words = append(words, Lit("?"+n))
			}
		}
	}
	return
}
func (g *G) litConst() *Word {
	return Lit(g.pick("1", "dflt", "true", "x"))
}
func (g *G) guard() *Word {
	switch g.n(5) {
	case 0:
		return Lit("int")
	case 1:
		return Lit("bool")
	case 2:
		return TupW(Lit("list"))
	case 3:
		return Lit("emit")
	}
	return Lit(g.pick("string", "idem", "real", "gf", "gf", "nocmd"))
}

// a guard of its own: it has no guard itself, so that it cannot recurse
func (g *G) guardDef() *Sentence {
	v := Var("v")
	body := [][]*Sentence{
		{S(Lit("emit"), TupW(Lit("guard"), v))},
		{S(Lit("emit"), v), S(Lit("idem"), TupW(v, v))},
		{S(Lit("return"), v), S(Lit("emit"), Lit("never"))},
		{S(Lit("yield"), v), S(Lit("idem"), v)},
		{S(Lit("int"), v)},
		{S(Lit("break"))},
		{S(Lit("idem"), Lit("fixed"))},
		{S(Lit("set"), Lit("gseen"), v), S(Lit("emit"), Var("gseen"))},
		{S(Lit("error"), Lit("refused"))},
	}[g.n(9)]
	return S(Lit(g.pick("proc", "closure", "macro")), Lit("gf"), TupW(Lit("v")), Blk(body...))
}
func (g *G) specWord() *Word {
	w, _, _, _, _ := g.spec()
	if g.p(500) {
		return TupW(w...)
	}
	return BlkW(One(w...))
}

func (g *G) define(kind string) []*Sentence {
	words, names, req, opt, rem := g.spec()
	name := g.cmdName()
	locals := map[string]kind_{}
	for _, n := range names {
		locals[n] = kAny
	}
	var c *ctx
	if kind == "proc" {
		c = newCtx(g.c)
		c.vars = locals
	} else {
		c = g.inner(locals, false)
	}
	c.inProc = true
	info := cmdInfo{name: name, req: req, opt: opt, rem: rem, kind: kind}
	// recursion: the command can call itself behind a tick
	var body *Script
	g.c.cmds = append(g.c.cmds, cmdInfo{name: name, rec: true})
	body = g.ending(g.script(3, c), c)
	if g.p(g.W["recurse"]) {
		ws := []*Word{Lit(name)}
		g.with(c, func() {
			for i := 0; i < req; i++ {
				ws = append(ws, g.literal(kInt))
			}
		})
		if rem := kind != "macro" || true; rem {
			body.Ss = append(body.Ss, S(ws...))
		}
		body.Ss = append([]*Sentence{S(Lit("tick"))}, body.Ss...)
	}
	g.c.cmds = g.c.cmds[:len(g.c.cmds)-1]
	bw := BlkW(body)
	if g.p(g.W["guard"] / 2) {
		bw = TupW(g.guard(), bw)
	}
	spec := TupW(words...)
	if g.p(300) {
		spec = BlkW(One(words...))
	}
	if g.p(200) {
		// anonymous, kept in a variable
		n := g.varName()
		g.setKnown(n, kCmd, false)
		r := one(S(Lit("set"), Lit(n), Exp(Lit(kind), spec, bw)))
		if g.p(700) {
			ws := []*Word{Sub(Exp(Var(n)))}
			ws = []*Word{Exp(Var(n))}
			for i := 0; i < req; i++ {
				ws = append(ws, g.val(kAny))
			}
			r = append(r, g.use(ws))
		}
		return r
	}
	r := one(S(Lit(kind), Lit(name), spec, bw))
	g.c.cmds = append(g.c.cmds, info)
	if g.p(700) {
		if s := g.call(kAny); s != nil {
			r = append(r, g.use(s.Ws))
		}
	}
	return r
}

type kind_ = kind

// Program generates the program number i of a profile.
func Program(prof string, seed int64, i int) (*rec.Program, *Printer) {
	r := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + int64(hash(prof))))
	g := &G{R: r, Prof: prof, MaxD: 3, Err: 25, idx: i}
	g.c = newCtx(nil)
	pr := &Printer{}
	if r.Intn(3) == 0 {
		pr.R = rand.New(rand.NewSource(r.Int63()))
	}
	p := &rec.Program{Id: fmt.Sprintf("%s-%d-%d", prof, seed, i), Profile: prof}
	f, ok := profiles[prof]
	if !ok {
		panic("unknown profile " + prof)
	}
	f(g, p)
	return p, pr
}
func hash(s string) uint32 {
	h := uint32(2166136261)
	for _, c := range s {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

// mains fills p with k main scripts of up to n statements
func (g *G) mains(p *rec.Program, k, n int) {
	for i := 0; i < k; i++ {
		s := &Script{}
		m := 1 + g.n(n)
		if g.W["guard"] > 0 && i == 0 && g.p(300) {
			s.Ss = append(s.Ss, g.guardDef())
		}
		for j := 0; j < m; j++ {
			s.Ss = append(s.Ss, g.stmts()...)
		}
		if g.p(g.W["jump"]) {
			s.Ss = append(s.Ss, g.jump())
		}
		p.Mains = append(p.Mains, s)
	}
	p.Mains = Tame(p.Mains)
	for i := 0; i < 6; i++ {
		switch g.n(6) {
		case 0:
			p.Back = append(p.Back, rec.M{"k": "same"})
		case 1:
			if i > 2 {
				p.Back = append(p.Back, rec.M{"k": "drop"})
			}
		case 2, 3:
			if k > 1 && g.p(600+g.W["inter"]*10) {
				p.Back = append(p.Back, rec.M{"k": "later", "v": rec.M{"t": "str", "s": fmt.Sprintf("later%d", i)}})
			}
		default:
			v := rec.M{"t": "str", "s": fmt.Sprintf("back%d", i)}
			switch g.n(4) {
			case 0:
				v = rec.M{"t": "int", "i": i}
			case 1:
				v = rec.M{"t": "bool", "b": g.p(500)}
			}
			p.Back = append(p.Back, rec.M{"k": "val", "v": v})
		}
	}
}

var profiles = map[string]func(g *G, p *rec.Program){}

func weights(s string) map[string]int {
	m := map[string]int{}
	for _, f := range strings.Fields(s) {
		var n string
		var w int
		i := strings.IndexByte(f, '=')
		n = f[:i]
		fmt.Sscan(f[i+1:], &w)
		m[n] = w
	}
	return m
}
