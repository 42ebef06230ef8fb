package gen

import (
	"fmt"
	. "hv/lang"
	"strings"
)

// Calls of every command, each argument either what the command expects or
// anything at all. A word <k> stands for an argument of kind k.
// Shapes of calls, see above
var Shapes = strings.Split(strings.TrimSpace(`
idem <w>
return <w>
yield <w>
tailcall <k>
error <s>
break <w>
continue <w>
pass
eval <k>
set <n> <w>
set <q> <w>
set <y> <t>
let <n> <w>
let <y> <t>
get <n>
get <q>
get <n> <w>
get <q> <w>
get <y>
exists <n>
exists <q>
unset <n>
unset <q>
if <b> <k>
if <b> <k> else <k>
if <b> <k> elseif <b> <k> else <k>
if <b> <k> else <k> else <k>
when <wb>
when <c> <wb>
while <b> <B>
loop <B>
loop i <B>
loop x <l> <B>
loop i x <l> y <d> <B>
loop <y> <d> <B>
loop x <c> <B>
loop x <t> y <k> <B>
catch <k>
catch <k> return r <k>
catch <k> error e <k> finally <k>
catch <k> yield y <k> break <k> continue <k>
catch <k> <s> <s> <k>
+ <u>
+ <u> <u>
- <u> <u>
- <u>
* <u> <u> <u>
/ <u> <u>
<u> + <u>
<u> + <u> - <u>
<u> * <u> / <u>
<u> <op> <u>
<i> <s> <u>
true ? <w> <w>
false ? <w> <w>
true !? <w>
false !? <w> <w>
true ? <w>
! <b>
&& <b> <b>
|| <b> <b> <b>
int <i>
int <i> <op> <i>
real <u>
bool <b>
bool <b> <s>
closure <a> <k>
closure <new> <a> <k>
proc <a> <k>
proc <new> <a> <k>
macro <a> <k>
macro <new> <a> <k>
argspec <a>
argspec <a> usage
argspec <a> set <l>
argspec <a> <s> <l>
alias <new> <c>
scope <k>
scope <new> <k>
namespace <k>
namespace <new> <k>
ensemble <a> <k>
ensemble <new> <a> <k>
coroutine <k>
module <k>
module <new> <k>
import <s>
import <s> <new>
import <s> <t>
export <c>
list <l>
list <l> length
list <l> at <i>
list <l> at <i> <w>
list <l> range <i>
list <l> range <i> <i>
list <l> remove <i> <i>
list <l> append <l> <l>
list <l> insert <i> <l>
list <l> replace <i> <i> <l>
list <l> foreach x <B>
list <l> foreach i x <B>
list <l> foreach <y> <B>
list <l> sort
list <l> sort <c>
list <l> <s>
list <l> <s> <w>
dict <d>
dict <d> size
dict <d> has <s>
dict <d> get <s>
dict <d> get <s> <w>
dict <d> get <t>
dict <d> add <s> <w>
dict <d> remove <s>
dict <d> remove <s> <s>
dict <d> merge <d> <d>
dict <d> foreach x <B>
dict <d> foreach <y> <B>
dict <d> <s> <w>
string <s>
string <s> length
string <s> at <i>
string <s> at <i> <w>
string <s> range <i> <i>
string <s> range <i>
string <s> remove <i> <i>
string <s> append <s> <s>
string <s> insert <i> <s>
string <s> replace <i> <i> <s>
string <s> <cmp> <s>
string <s> <s> <s>
tuple <t>
tuple <t> length
tuple <t> at <i>
tuple <t> at <i> <w>
tuple <t> <s>
script <k>
script <k> length
script <k> append <k>
script <k> split
script <k> <s>
help <c>
help <c> <s>
emit <w>
|> <w>
<t>
<t> <w>
<obj> <m>
<obj> <m> <k>
<obj> <m> <w>
<obj> <m> <c> <w>
<obj> <m> <c> <new>
[list] call <sub> <l> <i>
[dict] call <sub> <d> <s>
[string] call <sub> <s> <i>
[list] <m> <w>
[dict] <m> <w>
`), "\n")

var shapeWords [][]string

func init() {
	for _, s := range Shapes {
		shapeWords = append(shapeWords, strings.Fields(s))
	}
}

// odd is a value few commands expect.
func (g *G) odd() *Word {
	switch g.n(26) {
	case 0, 1:
		return ExpW(Scr()) // nil
	case 2:
		return Exp(Lit("closure"), g.argspecWord(), Blk())
	case 3:
		return Exp(Lit("macro"), TupW(Lit("x")), Blk(S(Lit("idem"), Var("x"))))
	case 4:
		return Exp(Exp(Lit("proc"), TupW(Lit("?x")), Blk()))
	case 5:
		return Exp(Lit(g.pick("list", "dict", "string", "tuple", "script", "int", "bool", "real", "argspec")))
	case 6:
		return Exp(Lit("argspec"), g.argspecWord())
	case 7:
		return Exp(Lit("coroutine"), Blk(S(Lit("yield"), g.literal(kStr)), S(Lit("idem"), g.literal(kInt))))
	case 8:
		return Exp(Lit("scope"), Blk(S(Lit("set"), Lit("a"), g.literal(kInt))))
	case 9:
		return Exp(Lit("namespace"), Blk(S(Lit("macro"), Lit("s1"), TupW(), Blk())))
	case 10:
		return Exp(Lit("module"), Blk(S(Lit("macro"), Lit("s1"), TupW(), Blk()), S(Lit("export"), Lit("s1"))))
	case 11:
		return Exp(Lit("ensemble"), TupW(Lit("v")), Blk(S(Lit("macro"), Lit("s1"), TupW(Lit("v")), Blk())))
	case 12:
		return Exp(Exp(Lit("scope"), Blk()))
	case 13:
		return Qual(Lit("a"), Idx(Lit("0")))
	case 14:
		return Qual(Lit("a"), Key(Lit("k")), Idx(Lit("idem"), Lit("1")))
	case 15:
		return Qual(TupW(Lit("a"), Lit("b")), Key(Lit("k"), Lit("l")))
	case 16:
		return TupW()
	case 17:
		return TupW(g.odd1(), g.odd1())
	case 18:
		return Text(g.pick("", " ", "-", "*", "?", "-o", "?a", "*a", "return", "finally", "else", "set", "1.5", "-0", "+1", "007", "1 2", "TRUE", "subcommands"))
	case 19:
		return Exp(Lit("list"), TupW(g.odd1(), g.odd1()))
	case 20:
		return Exp(Lit("dict"), TupW(g.literal(kStr), g.odd1()))
	case 21:
		return BlkW(&Script{})
	case 22:
		return Lit(g.pick("1.5", "-1.5", "0.25", "100", "-100"))
	}
	return g.literal(g.anyKind())
}

// an element of an odd value: not another container of odd values
func (g *G) odd1() *Word {
	for {
		d := g.depth
		g.depth = 100
		w := g.odd0()
		g.depth = d
		if w != nil {
			return w
		}
	}
}
func (g *G) odd0() *Word {
	switch g.n(6) {
	case 0:
		return ExpW(Scr())
	case 1:
		return Exp(Lit("argspec"), g.argspecWord())
	case 2:
		return Exp(Lit("closure"), TupW(), Blk())
	case 3:
		return Qual(Lit("a"), Idx(Lit("0")))
	case 4:
		return TupW(TupW(), Lit("x"))
	}
	return g.literal(g.oneOf(kInt, kStr, kBool))
}

// body that ends and does little
func (g *G) stub() *Word {
	ss := []*Sentence{}
	if g.p(600) {
		ss = append(ss, S(Lit("emit"), g.literal(kInt)))
	}
	switch g.n(12) {
	case 0:
		ss = append(ss, S(Lit("set"), Lit(g.pick("a", "b", "m")), g.literal(kInt)))
	case 1:
		ss = append(ss, S(Lit(g.pick("return", "yield", "error", "break", "continue")), g.literal(kStr)))
	case 2:
		ss = append(ss, S(Lit("pass")))
	case 3:
		ss = append(ss, S(Lit("let"), Lit(g.pick("a", "m")), g.literal(kInt)))
	default:
		ss = append(ss, S(Lit("idem"), g.literal(g.oneOf(kInt, kStr, kBool))))
	}
	return BlkW(&Script{Ss: ss})
}

func (g *G) slot(k string) *Word {
	vn := func() string { return g.pick("a", "b", "c", "d", "m", "nope") }
	if g.p(330) && k != "new" && k != "sub" && k != "m" {
		switch k {
		case "B":
			w := g.odd()
			if w.K == "blk" {
				w.B.Ss = append([]*Sentence{S(Lit("tick"))}, w.B.Ss...)
			}
			return w
		}
		return g.odd()
	}
	switch k {
	case "w":
		return g.val(kAny)
	case "k":
		return g.stub()
	case "B":
		w := g.stub()
		w.B.Ss = append([]*Sentence{S(Lit("tick"))}, w.B.Ss...)
		return w
	case "s":
		if g.p(300) {
			return Lit(g.pick("append", "length", "at", "subcommands", "set", "usage", "else", "finally", "error", "return", "?", "+", "get", "foreach", "a.lna", "nope"))
		}
		return g.val(kStr)
	case "n":
		return Lit(vn())
	case "q":
		if g.p(500) {
			return Qual(Lit(vn()), Idx(g.val(kInt)))
		}
		return Qual(Lit(vn()), Key(g.literal(kStr)))
	case "y":
		return TupW(Lit(vn()), Lit(vn()))
	case "t":
		return g.tuple(0, 3, kAny)
	case "b":
		if g.p(400) {
			return Blk(S(Lit("idem"), g.literal(kBool)))
		}
		return g.val(kBool)
	case "i":
		return g.val(kInt)
	case "u":
		return g.val(kNum)
	case "l":
		return g.val(kList)
	case "d":
		return g.val(kDict)
	case "a":
		if g.p(300) {
			return []*Word{TupW(TupW()), TupW(Text("")), TupW(Lit("*")), TupW(Lit("*a"), Lit("*b")), TupW(Lit("a"), Lit("a")), TupW(TupW(Lit("?a"))), TupW(TupW(Lit("-x"))), TupW(Lit("-x")),
				TupW(TupW(Lit("a"), Lit("b"), Lit("c"))), TupW(TupW(Lit("?a"), TupW())), TupW(Lit("?")), TupW(TupW(Lit("-x"), Lit("y")), Lit("a")), TupW(TupW(Lit("*a"), Lit("d"))), TupW(TupW(Lit("nocmd"), Lit("a"))),
				TupW(g.odd1()), TupW(TupW(g.odd1(), Lit("a")))}[g.n(16)]
		}
		return g.argspecWord()
	case "c":
		if g.p(300) {
			return TupW(Lit(g.pick("idem", "list", "nocmd", "+")), g.literal(kInt))
		}
		return Lit(g.pick("idem", "+", "list", "emit", "!", "1", "true", "nocmd", "s1", "a"))
	case "op":
		return Lit(g.pick("==", "!=", "<", "<=", ">", ">=", "%", "**"))
	case "cmp":
		return Lit(g.pick("==", "!=", "<", "<=", ">", ">="))
	case "wb":
		ws := []*Word{}
		for n := g.n(5); n >= 0; n-- {
			ws = append(ws, g.slot(g.pick("k", "b", "c")))
		}
		if g.p(500) {
			return TupW(ws...)
		}
		return BlkW(One(ws...))
	case "new":
		g.nc++
		return Lit(fmt.Sprintf("ms%d", g.nc))
	case "m":
		return Lit(g.pick("subcommands", "argspec", "eval", "call", "import", "exports", "wait", "active", "done", "set", "usage", "nosub", "s1", "?", "+"))
	case "sub":
		t := g.pick("list", "dict", "string", "tuple", "script")
		return Lit(subsOf[t][g.n(len(subsOf[t]))])
	case "obj":
		for {
			w := g.odd()
			if w.K == "exp" {
				return w
			}
		}
	}
	panic("no kind " + k)
}

func stMisuse(g *G) []*Sentence {
	var ws []*Word
	g.depth++
	for _, x := range shapeWords[g.n(len(shapeWords))] {
		switch {
		case x[0] == '<' && len(x) > 2 && x != "<=":
			ws = append(ws, g.slot(x[1:len(x)-1]))
		case x[0] == '[':
			ws = append(ws, Exp(Lit(x[1:len(x)-1])))
		default:
			ws = append(ws, Lit(x))
		}
	}
	loop := ws[0].V == "loop" || ws[0].V == "while"
	if g.p(120) && len(ws) > 1 && !loop {
		ws = ws[:len(ws)-1]
	}
	if g.p(120) {
		w := g.odd()
		if w.K == "blk" && loop {
			w = Lit("x")
		}
		ws = append(ws, w)
	}
	g.depth--
	r := one(g.caught(ws...))
	if g.p(250) {
		// what a misuse may not have changed
		for _, n := range []string{"a", "b", "m"} {
			r = append(r, S(Lit("emit"), Exp(Lit("get"), Lit(n), Lit("none"))))
		}
	}
	return r
}
