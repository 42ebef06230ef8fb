// Package wild throws anything at an interpreter and records what its host
// can see: how every evaluation ended, whether it changed something, and
// whether the interpreter still works.
package wild

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"helena/native/go_slog"
	"hv/gen"
	"hv/rec"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"runtime/metrics"
	"sort"
	"strings"
	"time"
)

type M = map[string]any

var shapes [][]string

// what the interpreter knows of the outside
var names = []string{"v1", "v2", "v3", "k1", "w1"}

func init() {
	for _, s := range append(append([]string{}, gen.Shapes...), strings.Split(strings.TrimSpace(native), "\n")...) {
		shapes = append(shapes, strings.Fields(s))
	}
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
}

const native = `
parse <s>
parse <src>
eval [parse <src>]
script [parse <src>] append [parse <src>]
script <src> split
regexp Compile <re>
regexp CompilePOSIX <re>
regexp QuoteMeta <s>
regexp FindAllString <rx> <s> <i>
regexp FindAllStringIndex <rx> <s> <i>
regexp FindAllStringSubmatch <rx> <s> <i>
regexp FindAllStringSubmatchIndex <rx> <s> <i>
regexp FindString <rx> <s>
regexp FindStringIndex <rx> <s>
regexp FindStringSubmatch <rx> <s>
regexp FindStringSubmatchIndex <rx> <s>
regexp LiteralPrefix <rx>
regexp Longest <rx>
regexp MatchString <rx> <s>
regexp NumSubexp <rx>
regexp ReplaceAllLiteralString <rx> <s> <s>
regexp ReplaceAllString <rx> <s> <s>
regexp ReplaceAllStringFunc <rx> <s> <k>
regexp Split <rx> <s> <i>
regexp String <rx>
regexp SubexpIndex <rx> <s>
regexp SubexpNames <rx>
regexp <s> <rx>
os ReadFile <path>
os <s> <path>
slog Debug <w>
slog Info <w>
slog Warn <w>
slog Error <w>
slog <s> <w>
import go:regexp
import go:os (<new> <new>)
import go:slog ((slog <new>))
import <s> (<w> <w>)
`

type g struct {
	r  *rand.Rand
	nc int
}

func (g *g) n(k int) int             { return g.r.Intn(k) }
func (g *g) p(m int) bool            { return g.r.Intn(1000) < m }
func (g *g) pick(s ...string) string { return s[g.n(len(s))] }

var ints = []string{"0", "1", "-1", "2", "-0", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "-9223372036854775809", "4611686018427387904", "99999999999999999999", "00", "+5", "007"}
var reals = []string{"0.5", "1e308", "-1e308", "1e309", "1e-320", "NaN", "nan", "Infinity", "-Infinity", "Inf", "+Inf", "1.", ".", ".5", "-.5", "0x10", "1_000", "1e5", "1e", "0x1p-2", "-0.0", "9007199254740993.0", "1e19"}
var plain = []string{"", " ", "a", "b", "abc", "true", "false", "*", "?", "-", "-x", "?a", "*a", "é", "日本", "😀x", "a\x00b", "\x07", "\xff\xfe", "a\x80", "\u0301", "\u202e", "\\", "$", "$v1", "[", "]", "(", ")", "{", "}", "\"", "\"\"\"", "#", "#{", ";", "\n", "a\nb", "\t", "return", "error", "finally", "else", "v1", "k1", "subcommands", "length", "append", "go:regexp", "a.lna", ".", "..", "/"}

// str quotes a string
func str(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\', '"', '$', '[', ']', '(', ')', '{', '}', '#', ';':
			b.WriteByte('\\')
			b.WriteByte(c)
		case '\n':
			b.WriteString("\\n")
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}
func (g *g) raw() string {
	switch g.n(6) {
	case 0:
		var b strings.Builder
		for n := g.n(8); n > 0; n-- {
			if g.p(300) {
				b.WriteRune(rune(g.n(0x3000)))
			} else {
				b.WriteByte(byte(g.n(256)))
			}
		}
		return b.String()
	case 1:
		if g.p(100) {
			return strings.Repeat(g.pick("a", "ab ", "é", "("), 1+g.n(3000))
		}
	}
	return plain[g.n(len(plain))]
}
func (g *g) list(n, d int) string {
	var b []string
	for k := g.n(n + 1); k > 0; k-- {
		b = append(b, g.val(d+1))
	}
	return "(" + strings.Join(b, " ") + ")"
}

// block is a script without lasting effects
func (g *g) block() string {
	switch g.n(10) {
	case 0:
		return "{}"
	case 1:
		return "{" + g.pick("return", "yield", "break", "continue", "error x", "pass", "return []", "yield [list ()]", "error []", "tailcall {idem 1}", "error [list ()]") + "}"
	case 2:
		return "{idem " + g.val(2) + "}"
	case 3:
		return "{" + g.pick("nocmd", "idem $nope", "idem $v1[5]", "idem $v1(z)", "1 +", "[]", "()", "()  x", "$[]", "idem $", "idem a; |>", "^", "idem ^", "${}", "\"[error x]\"", "idem $v1[error x]") + "}"
	}
	return "{idem " + g.pick("1", "true", "a", "[]", "$v1") + "}"
}
func (g *g) val(d int) string {
	if d > 3 {
		return str(plain[g.n(len(plain))])
	}
	switch g.n(28) {
	case 0, 1, 2:
		return ints[g.n(len(ints))]
	case 3, 4:
		return reals[g.n(len(reals))]
	case 5, 6, 7, 8:
		return str(g.raw())
	case 9:
		return "[]"
	case 10:
		return "[list " + g.list(4, d) + "]"
	case 11:
		return "[dict (" + str(g.raw()) + " " + g.val(d+1) + ")]"
	case 12, 13:
		return g.list(3, d)
	case 14:
		return g.block()
	case 15:
		return "[" + g.pick("closure", "proc", "macro") + " " + g.spec() + " " + g.block() + "]"
	case 16:
		return "[[" + g.pick("closure", "proc", "macro") + " " + g.spec() + " " + g.block() + "]]"
	case 17:
		return "[argspec " + g.spec() + "]"
	case 18:
		return "[coroutine " + g.block() + "]"
	case 19:
		return "[" + g.pick("scope", "namespace", "module") + " {}]"
	case 20:
		return "[ensemble " + g.spec() + " {macro s1 (x) {idem $x}}]"
	case 21:
		return "[" + g.pick("list", "dict", "string", "tuple", "script", "int", "bool", "real", "argspec") + "]"
	case 22:
		return g.pick("v1", "(v1 v2)", "v1") + g.pick("[0]", "(a)", "[99999999999]", "()", "[]", "[error x]", "(a)(b)[0]", "{}", "[list ()]", "[-1]", "([list ()])")
	case 23:
		return "[regexp Compile " + str(g.pick("a", "(a)|b", "", "(?P<n>x)*", "\\\\", "é+", ".*")) + "]"
	case 24:
		return "[parse " + str(g.src()) + "]"
	case 25:
		return "$" + g.pick("v1", "v2", "k1", "v1[0]", "[list (1 2)]", "v3(a)", "{v1}", "(v1 v2)")
	case 26:
		return "\"\"\"" + strings.ReplaceAll(g.raw(), "\"", "") + "\"\"\""
	}
	return "\"" + g.pick("$v1", "[idem a]b", "[list ()]", "$[]", "[]", "a$v3[0]", "[closure () {}]", "[coroutine {}]", "$v2 $v1") + "\""
}
func (g *g) src() string {
	return g.pick("", "idem a", "(", "{", "a)", "]", "\"", "idem [", "#{", "\"\"\"", "idem \"a\"b", "; ;\n", "$", "$(", "a[b", "\\", "idem {a} # x", "é é", "\xff", "\x00", "((((((((", "a\\\n", "}")
}
func (g *g) spec() string {
	if g.p(500) {
		return g.pick("()", "(a)", "(a ?b)", "(?a b)", "(*a)", "a", "((?a d) b)", "(a *)", "((-o) o a)", "((int a))", "{a b}", "((?-f?) f)")
	}
	switch g.n(8) {
	case 0:
		return g.val(1)
	case 1:
		return g.list(4, 1)
	case 2:
		return "((" + g.val(2) + " a))"
	case 3:
		return "((?a " + g.val(2) + "))"
	case 4:
		return "(" + str(g.raw()) + " " + str(g.raw()) + ")"
	case 5:
		return "((" + g.pick("-x", "?-x", "?-x?", "-x?", "--", "-", "?-") + " " + g.val(2) + ") " + g.pick("a", "?a", "*a", "", "(int a)", "(a b)", "[]") + ")"
	case 6:
		return "(" + g.pick("a a", "*a *b", "?", "*", "* *", "?a *b c", "?a b ?c", "\"\"", "\"?\" b", "-x", "(?)", "(a)", "()", "(a b c)", "(? d)", "(nocmd a)", "(? (idem) a d e)") + ")"
	}
	return "(" + g.pick("(list a)", "(?dict b [list ()])", "(real x)", "({idem 1} a)", "((idem 1) a)", "([list] a)", "(error a)", "(break a)", "(? (int x) 1)") + ")"
}
func (g *g) slot(k string) string {
	if g.p(350) && k != "new" && k != "sub" && k != "B" && k != "path" && k != "p" {
		return g.val(0)
	}
	switch k {
	case "w", "c", "obj":
		if k == "c" && g.p(500) {
			return g.pick("idem", "list", "nocmd", "1", "1.5", "true", "(idem 1)", "((idem))", "[list]", "{}", "(list (1 2) at)")
		}
		return g.val(0)
	case "k", "b", "wb":
		if k == "wb" && g.p(500) {
			return "(" + g.val(1) + " " + g.block() + " " + g.val(1) + ")"
		}
		if k == "b" && g.p(400) {
			return g.pick("true", "false", "{idem true}", "{idem false}", "1")
		}
		return g.block()
	case "B":
		if g.p(300) {
			return g.pick("1", "[]", "\"\"", "[list ()]", "(break)", "(error x)", "$v1", "[closure () {}]")
		}
		return g.pick("{break}", "{error x}", "{return 1}", "{idem [break]}", "{idem a; break}", "{nocmd}")
	case "n":
		return g.pick(names...)
	case "q":
		return g.pick(names...) + g.pick("[0]", "[1]", "(a)", "[5]", "(a)(b)", "[list ()]", "[0][0]")
	case "y":
		return "(" + g.pick(names...) + " " + g.pick(names...) + g.pick("", " (v2 v3)", " k1", " []", " v1[0]") + ")"
	case "t":
		return g.list(3, 0)
	case "s":
		return str(g.raw())
	case "i":
		return ints[g.n(len(ints))]
	case "u":
		if g.p(500) {
			return reals[g.n(len(reals))]
		}
		return ints[g.n(len(ints))]
	case "l":
		return "[list " + g.list(4, 0) + "]"
	case "d":
		if g.p(500) {
			return "[dict (a 1 b (1 2))]"
		}
		return "[dict " + g.list(4, 0) + "]"
	case "a":
		return g.spec()
	case "op":
		return g.pick("==", "!=", "<", "<=", ">", ">=", "%", "**", "+", "-", "*", "/")
	case "cmp":
		return g.pick("==", "!=", "<", "<=", ">", ">=")
	case "new":
		g.nc++
		return fmt.Sprintf("n%d", g.nc)
	case "m":
		return g.pick("subcommands", "argspec", "call", "wait", "active", "done", "usage", "nosub", "s1", "?", "+", "exports")
	case "sub":
		return g.pick("length", "at", "range", "append", "remove", "insert", "replace", "sort", "foreach", "size", "has", "get", "add", "merge", "split", "==", "<")
	case "re":
		return str(g.pick("a", "(", "(a)|(b)", "[", "a{2,1}", "a**", "(?P<n>x)", "(?i)É", ".*", "\\pL", "\xff", "x*"))
	case "rx":
		return "[regexp " + g.pick("Compile", "CompilePOSIX") + " " + str(g.pick("a", "(a)|(b)", "", "x*", "é", ".", "(a*)(b)?")) + "]"
	case "src":
		return str(g.src())
	case "path":
		return str(g.pick("", "nofile", "a", "."))
	}
	return g.val(0)
}

// call is a sentence, with "false" when running it may change something
func (g *g) call() (string, bool) {
	sh := shapes[g.n(len(shapes))]
	if g.p(200) {
		sh = shapes[len(gen.Shapes)+g.n(len(shapes)-len(gen.Shapes))]
	}
	var ws []string
	for _, x := range sh {
		switch {
		case x[0] == '<' && len(x) > 2 && x != "<=":
			ws = append(ws, g.slot(x[1:len(x)-1]))
		case strings.Contains(x, "<") && strings.HasSuffix(x, ">)"), strings.Contains(x, "(<"), strings.Contains(x, "<") && strings.HasSuffix(x, ">]"), strings.Contains(x, ">)"):
			for strings.Contains(x, "<") {
				a, b := strings.Index(x, "<"), strings.Index(x, ">")
				v := strings.NewReplacer("<", "\\u003c", ">", "\\u003e").Replace(g.slot(x[a+1 : b]))
				x = x[:a] + v + x[b+1:]
			}
			ws = append(ws, x)
		default:
			ws = append(ws, x)
		}
	}
	loops := ws[0] == "loop" || ws[0] == "while" || sh[len(sh)-1] == "<B>"
	if g.p(150) && len(ws) > 1 && !loops {
		ws = ws[:len(ws)-1-g.n(len(ws)-1)]
	}
	if !loops {
		for g.p(200) {
			ws = append(ws, g.val(0))
		}
	}
	return strings.Join(ws, " "), true
}

// nest is something deep or long
func (g *g) nest() string {
	n := 1 << g.n(13)
	switch g.n(9) {
	case 0:
		return "idem " + strings.Repeat("(", n) + strings.Repeat(")", n)
	case 1:
		return strings.Repeat("idem [", n) + "idem a" + strings.Repeat("]", n)
	case 2:
		return "idem " + strings.Repeat("{", n%300) + strings.Repeat("}", n%300)
	case 3:
		return strings.Repeat("[idem ", n)
	case 4:
		return strings.Repeat("idem a;", n)
	case 5:
		return "idem " + strings.Repeat("a ", n)
	case 6:
		return "idem " + strings.Repeat("$", n) + "v1"
	case 7:
		return "idem \"" + strings.Repeat("[idem \"", n%300) + strings.Repeat("\"]", n%300) + "\""
	}
	return "idem $v1" + strings.Repeat("[0]", n)
}

// mutate damages a program
func (g *g) mutate(s string) string {
	toks := core.Tokenizer{}.Tokenize(s)
	if len(toks) == 0 {
		return s
	}
	var l []string
	for _, t := range toks {
		l = append(l, t.Sequence)
	}
	for n := 1 + g.n(3); n > 0; n-- {
		i := g.n(len(l))
		switch g.n(6) {
		case 0:
			l = append(l[:i:i], l[i+1:]...)
		case 1:
			l[i] = l[g.n(len(l))]
		case 2:
			j := g.n(len(l))
			l[i], l[j] = l[j], l[i]
		case 3:
			l[i] = g.val(1)
		case 4:
			l[i] += g.pick("[]", "()", "$", "(a)", "[0]", "\"", "{", "}", "]", "\\", " ", ";", "^", " [] ", "é")
		default:
			j := i + g.n(len(l)-i)
			l = append(l[:j:j], append(append([]string{}, l[i:j]...), l[j:]...)...)
		}
		if len(l) == 0 {
			return ""
		}
	}
	return strings.Join(l, "")
}

type host struct {
	scope *hd.Scope
	ev    []any
	steps int
	count int
	kept  []core.Value // values seen before
	dir   string
}

type hostCount struct{ h *host }

func (c hostCount) Execute(args []core.Value, _ any) core.Result {
	if len(args) != 2 {
		return core.ERROR("wrong # args")
	}
	_, s := core.ValueToString(args[1])
	c.h.count++
	return core.OK(core.STR(fmt.Sprintf("%s %d", s, c.h.count)))
}

type tickCmd struct{ h *host }

func (c tickCmd) Execute(args []core.Value, _ any) core.Result {
	c.h.steps += 20
	if c.h.steps > maxSteps {
		return core.ERROR("tick limit")
	}
	return core.OK(core.NIL)
}

type emitCmd struct{}

func (emitCmd) Execute(args []core.Value, _ any) core.Result {
	if len(args) != 2 {
		return core.ERROR(`wrong # args: should be "emit value"`)
	}
	return core.OK(args[1])
}

const maxSteps = 3000

func (h *host) run(src string) core.Result {
	p := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	if !p.Success {
		return core.ERROR("parse: " + p.Message)
	}
	return h.scope.PrepareProcess(h.scope.Compile(*p.Script)).Run()
}

// kinds collects the kinds of values in a value
func kinds(v core.Value, m map[string]bool, d int) {
	if d > 5000 {
		return
	}
	switch x := v.(type) {
	case core.ListValue:
		m["list"] = true
		for _, y := range x.Values {
			kinds(y, m, d+1)
		}
	case core.TupleValue:
		m["tup"] = true
		for _, y := range x.Values {
			kinds(y, m, d+1)
		}
	case core.DictionaryValue:
		m["dict"] = true
		for _, y := range x.Map {
			kinds(y, m, d+1)
		}
	case go_regexp.RegexpValue:
		m["regexp"] = true
	case core.QualifiedValue:
		m["qual"] = true
		kinds(x.Source, m, d+1)
	case core.StringValue:
		m["str"] = true
	case core.RealValue:
		m["real"] = true
	case core.IntegerValue:
		m["int"] = true
	default:
		m[rec.Value(v).(M)["t"].(string)] = true
	}
}
func keys(m map[string]bool) []any {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	r := []any{}
	for _, k := range l {
		r = append(r, k)
	}
	return r
}

// snap is what the scope holds
func (h *host) snap() string {
	var b strings.Builder
	for _, n := range names {
		v := h.scope.ResolveVariable(n)
		if v == nil {
			continue
		}
		fmt.Fprintf(&b, "%s=%s;", n, show(v, 0))
	}
	l := h.scope.GetLocalCommandNames()
	sort.Strings(l)
	fmt.Fprint(&b, len(l), " commands")
	for _, n := range l {
		if len(n) > 1 && n[0] == 'n' && n[1] >= '0' && n[1] <= '9' {
			b.WriteString(" " + n)
		}
	}
	return b.String()
}
func show(v core.Value, d int) string {
	if v == nil {
		return "missing"
	}
	s := fmt.Sprintf("%T", v)
	switch x := v.(type) {
	case core.ListValue:
		s += fmt.Sprint(len(x.Values))
		for _, y := range x.Values {
			s += "," + show(y, d+1)
		}
	case core.TupleValue:
		s += fmt.Sprint(len(x.Values))
		for _, y := range x.Values {
			s += "," + show(y, d+1)
		}
	case core.DictionaryValue:
		ks := []string{}
		for k := range x.Map {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += fmt.Sprintf(",%q:", k) + show(x.Map[k], d+1)
		}
	case core.StringValue, core.IntegerValue, core.BooleanValue, core.RealValue:
		s += fmt.Sprintf("%q", core.Display(v, nil))
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func heap() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

type process interface {
	Run() core.Result
	YieldBack(core.Value)
}

// eval evaluates a source as a host does, and records how it ended
func (h *host) eval(src string, pure, step bool) {
	before := ""
	if pure {
		before = h.snap()
	}
	add := func(r core.Result, pure bool) {
		m := map[string]bool{}
		kinds(r.Value, m, 0)
		e := M{"k": "call", "c": rec.CodeName(r), "t": keys(m), "msg": "", "same": true, "own": strings.Contains(src, "error")}
		if s, ok := r.Value.(core.StringValue); ok && r.Code == core.ResultCode_ERROR {
			if len(s.Value) > 0 {
				e["msg"] = "some"
			}
		}
		if pure && r.Code == core.ResultCode_ERROR {
			if after := h.snap(); after != before {
				e["same"] = false
				e["before"], e["after"] = before, after
			}
		}
		h.ev = append(h.ev, e)
		if r.Value != nil && len(h.kept) < 50 {
			h.kept = append(h.kept, r.Value)
		}
	}
	p := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	if !p.Success {
		h.ev = append(h.ev, M{"k": "syntax", "msg": map[bool]string{true: "", false: "some"}[p.Message == ""]})
		return
	}
	prog := h.scope.Compile(*p.Script)
	if !step {
		pr := h.scope.PrepareProcess(prog)
		r := pr.Run()
		add(r, pure)
		for i := 0; i < 2 && r.Code == core.ResultCode_YIELD; i++ {
			pr.YieldBack(core.STR("back"))
			r = pr.Run()
			add(r, false)
		}
		return
	}
	h.steps = 0
	pr := rec.NewStepper(h.scope, prog, func() bool {
		h.steps++
		return h.steps > maxSteps || h.steps%8 == 0 && heap() > 700<<20
	})
	r, out := pr.RunBounded()
	if out {
		h.ev = append(h.ev, M{"k": "budget"})
		return
	}
	add(r, pure)
}

// probe shows that the interpreter still works
func (h *host) probe(r *rand.Rand) {
	w := fmt.Sprintf("p%d", r.Intn(100))
	c := h.count
	res := h.run("zz-probe " + w)
	s := ""
	if x, ok := res.Value.(core.StringValue); ok {
		s = x.Value
	}
	h.ev = append(h.ev, M{"k": "probe", "c": rec.CodeName(res), "v": s, "want": w})
	h.count = c + 1
}

// Record makes session i.
func Record(seed int64, i int, dead string) M {
	r := rand.New(rand.NewSource(seed<<24 + int64(i)))
	g := &g{r: r}
	t := M{"id": fmt.Sprintf("wild-%d-%d", seed, i)}
	h := &host{ev: []any{}}
	srcs := []string{}
	type item struct {
		src        string
		pure, step bool
	}
	var plan []item
	if i%4 == 3 {
		// damaged programs
		for k := 0; k < 6; k++ {
			mains := gen.Texts("wild", seed, i*8+k)
			for _, s := range mains {
				plan = append(plan, item{g.mutate(s), false, true})
			}
		}
	} else {
		for k := 0; k < 25; k++ {
			s, pure := g.call()
			if g.p(25) {
				s, pure = g.nest(), true
			}
			plan = append(plan, item{s, pure, false})
		}
	}
	for _, p := range plan {
		srcs = append(srcs, p.src)
	}
	t["texts"] = srcs
	if dead != "" {
		t["ev"] = []any{M{"k": dead}}
		return t
	}
	dir, err := os.MkdirTemp("", "hvw")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				h.ev = append(h.ev, M{"k": "panic", "what": fmt.Sprint(e)})
			}
			done <- true
		}()
		h.scope = hd.NewRootScope(&hd.ScopeOptions{CaptureErrorStack: i%2 == 0, CapturePositions: i%2 == 0})
		reg := hd.NewModuleRegistry(nil)
		hd.InitCommandsForModule(h.scope, reg, dir)
		reg.Register("go:regexp", go_regexp.Initmodule())
		reg.Register("go:os", go_os.Initmodule())
		reg.Register("go:slog", go_slog.Initmodule())
		h.scope.RegisterNamedCommand("zz-host", hostCount{h})
		h.scope.RegisterNamedCommand("tick", tickCmd{h})
		h.scope.RegisterNamedCommand("emit", emitCmd{})
		res := h.run(`import go:regexp (regexp); import go:os (os); import go:slog (slog); set v1 [list (1 2 (3 4))]; set v2 a; set v3 [dict (a 1 b 2)]; let k1 [list (a b)]; closure zz-probe (x) {zz-host $x}`)
		h.ev = append(h.ev, M{"k": "start", "c": rec.CodeName(res)})
		for n, p := range plan {
			h.eval(p.src, p.pure, p.step)
			if n%5 == 4 || n == len(plan)-1 {
				h.probe(r)
			}
		}
	}()
	select {
	case <-done:
		t["ev"] = h.ev
	case <-time.After(20 * time.Second):
		t["ev"] = []any{M{"k": "hang"}}
		t["hang"] = true
	}
	return t
}

// Fatals are sources that could end the whole process.
var Fatals = map[string]string{
	"alias-of-itself":        "alias foo foo; foo",
	"aliases-of-each-other":  "alias foo bar; alias bar foo; foo",
	"guard-calls-its-own":    "closure f ((f p)) {}; f 1",
	"coroutine-in-coroutine": "proc f () {[coroutine {f}] wait}; f",
	"proc-in-proc":           "proc f (n) {if [$n == 0] {} else {f [- $n 1]}}; f 20000",
	"closure-in-closure":     "closure f (n) {if [$n == 0] {} else {f [- $n 1]}}; f 20000",
	"scope-in-scope":         "macro f (n) {if [$n == 0] {} else {scope {f [- $n 1]}}}; f 5000",
	"ensemble-in-ensemble":   "ensemble e () {proc f (n) {if [$n == 0] {} else {e f [- $n 1]}}}; e f 20000",
	"eval-in-eval":           "set s {if [$n == 0] {} else {set n [- $n 1]; eval $s}}; set n 20000; eval $s",
	"catch-in-catch":         "proc f (n) {if [$n == 0] {error x} else {catch {f [- $n 1]} error e {error $e}}}; f 5000",
	"tuple-of-tuples":        "set t idem; loop i {if [$i == 5000] {break}; set t ($t)}; $t a",
	"list-of-lists":          "set l [list ()]; loop i {if [$i == 5000] {break}; set l [list ($l)]}; idem $l",
}

// Fatal evaluates one of them.
func Fatal(name string) string {
	h := &host{ev: []any{}}
	h.scope = hd.NewRootScope(nil)
	hd.InitCommands(h.scope)
	return rec.CodeName(h.run(Fatals[name]))
}
