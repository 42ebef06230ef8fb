// Package nat calls the commands of the native modules on random arguments
// and records the results.
package nat

import (
	"context"
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"helena/native/go_slog"
	"log/slog"
	"math/rand"
	"os"
	"strings"
)

type M = map[string]any

// logger keeps the records it gets
type logger struct{ log []any }

func (*logger) Enabled(context.Context, slog.Level) bool { return true }
func (l *logger) Handle(_ context.Context, r slog.Record) error {
	name := r.Level.String()
	l.log = append(l.log, M{"lvl": name[:1] + strings.ToLower(name[1:]), "msg": bytes(r.Message), "attrs": r.NumAttrs()})
	return nil
}
func (l *logger) WithAttrs([]slog.Attr) slog.Handler { return l }
func (l *logger) WithGroup(string) slog.Handler      { return l }

func bytes(s string) []any {
	l := []any{}
	for i := 0; i < len(s); i++ {
		l = append(l, int(s[i]))
	}
	return l
}

// run is the state of a trace
type run struct {
	r     *rand.Rand
	scope *hd.Scope
	log   *logger
	res   []core.Value // expressions, in the order of their compilation
	names [][]string   // names of their groups
	files []string
	cover map[string]int
}

func (g *run) n(k int) int        { return g.r.Intn(k) }
func (g *run) p(permille int) bool { return g.r.Intn(1000) < permille }
func (g *run) pick(l []string) string { return l[g.n(len(l))] }

func (g *run) enc(v core.Value) M {
	switch v := v.(type) {
	case core.StringValue:
		return M{"t": "s", "b": bytes(v.Value)}
	case core.IntegerValue:
		if v.Value > 1<<30 || v.Value < -1<<30 {
			return M{"t": "oor"}
		}
		return M{"t": "i", "i": int(v.Value)}
	case core.BooleanValue:
		if v.Value {
			return M{"t": "b", "i": 1}
		}
		return M{"t": "b", "i": 0}
	case core.ListValue:
		return M{"t": "l", "l": g.encs(v.Values)}
	case core.TupleValue:
		return M{"t": "t", "l": g.encs(v.Values)}
	case ref:
		return M{"t": "re", "k": v.k}
	case go_regexp.RegexpValue:
		g.res = append(g.res, v)
		return M{"t": "re", "k": len(g.res)}
	}
	if v.Type() == core.ValueType_NIL {
		return M{"t": "nil"}
	}
	return M{"t": "x"}
}
func (g *run) encs(l []core.Value) []any {
	r := []any{}
	for _, v := range l {
		r = append(r, g.enc(v))
	}
	return r
}

// ref is an argument: the k-th expression
type ref struct {
	core.Value
	k int
}

func (g *run) ref() ref {
	k := g.n(len(g.res))
	return ref{g.res[k], k + 1}
}

// call runs a command on values
func (g *run) call(args []core.Value) (e M) {
	words := []string{}
	for i, v := range args {
		if i == 0 {
			_, s := core.ValueToString(v)
			words = append(words, s)
			continue
		}
		if r, ok := v.(ref); ok {
			v = r.Value
		}
		g.scope.SetNamedVariable(fmt.Sprintf("a%d", i), v)
		words = append(words, fmt.Sprintf("$a%d", i))
	}
	g.log.log = []any{}
	e = M{"m": words[0], "a": g.encs(args), "x": strings.Join(words, " ")}
	defer func() {
		if x := recover(); x != nil {
			e["r"] = M{"c": "panic", "v": M{"t": "s", "b": bytes(fmt.Sprint(x))}}
			e["log"] = g.log.log
		}
	}()
	script := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(strings.Join(words, " ")), nil).Script
	res := g.scope.PrepareProcess(g.scope.Compile(*script)).Run()
	e["r"] = M{"c": strings.ToLower(core.RESULT_CODE_NAME(res)), "v": g.enc(res.Value)}
	e["log"] = g.log.log
	return e
}

var chars = []string{"a", "a", "b", "b", "c", "d", "0", "1", "-", "_", " ", ".", "\n", "\t", "A", "$", "/"}

func (g *run) text() string {
	var b strings.Builder
	k := g.n(9)
	if g.p(100) {
		k = g.n(30)
	}
	for ; k > 0; k-- {
		b.WriteString(g.pick(chars))
	}
	return b.String()
}

// class returns a bracket expression
func (g *run) class(posix bool) string {
	if g.p(30) {
		return g.pick([]string{"[", "[a", "[]", "[^]", "[b-a]", "[a-", "[a-]", "[]a]", "[-a]", "[^-]", "[a-b-c]", "[a--]", "[a\\", "[\\]]", "[^\n]", "[a-\\n]"})
	}
	var b strings.Builder
	b.WriteString("[")
	if g.p(300) {
		b.WriteString("^")
	}
	for k := 1 + g.n(3); k > 0; k-- {
		switch g.n(8) {
		case 0, 1:
			b.WriteString(g.pick([]string{"a-b", "b-d", "0-9", "a-a", "A-Z", "a-z", "0-1"}))
		case 2:
			if posix {
				b.WriteString("_")
			} else {
				b.WriteString(g.pick([]string{"\\d", "\\w", "\\s", "\\S", "\\D", "\\W"}))
			}
		case 3:
			b.WriteString(g.pick([]string{"\\n", "\\t", "\\]", "\\-", "\\\\", "\\.", "."}))
		default:
			b.WriteString(g.pick([]string{"a", "b", "c", "d", "0", "_", " ", "$", "*", "(", "|", "/", "\n"}))
		}
	}
	b.WriteString("]")
	return b.String()
}

// expr returns an expression and whether it can match nothing
func (g *run) expr(d int, posix bool, names *[]string) (string, bool) {
	if g.p(120) && d > 0 {
		l := []string{}
		nullable := false
		for k := 2 + g.n(2); k > 0; k-- {
			s, e := g.seq(d-1, posix, names)
			l = append(l, s)
			nullable = nullable || e
		}
		return strings.Join(l, "|"), nullable
	}
	return g.seq(d, posix, names)
}
func (g *run) seq(d int, posix bool, names *[]string) (string, bool) {
	var b strings.Builder
	nullable := true
	k := 1 + g.n(3)
	if g.p(40) {
		k = 0
	}
	for ; k > 0; k-- {
		s, e := g.item(d, posix, names)
		b.WriteString(s)
		nullable = nullable && e
	}
	return b.String(), nullable
}
func (g *run) item(d int, posix bool, names *[]string) (s string, nullable bool) {
	switch k := g.n(20); {
	case k < 9:
		s = g.pick([]string{"a", "b", "c", "d", "a", "b", "0", "1", "-", "_", " ", "A"})
	case k < 11:
		s = g.class(posix)
	case k == 11:
		s = "."
	case k == 12:
		if posix {
			return g.pick([]string{"^", "$", "^", "$", "\\."}), true
		}
		return g.pick([]string{"^", "$", "\\b", "\\B", "\\A", "\\z"}), true
	case k == 13:
		s = g.pick([]string{"\\.", "\\$", "\\n", "\\\\", "\\(", "\\_", "\\/", "\n"})
		if !posix && g.p(500) {
			s = g.pick([]string{"\\d", "\\w", "\\s", "\\S", "\\W"})
		}
	case k == 14 && g.p(150):
		return g.pick([]string{"(*)", "(+a)", "|?", ")", "(", "a**", "a+*", "a{2}{3}", "a{2,1}", "a{1001}", "a{", "a{,2}", "a{x}", "({1})", "\\", "\\y", "\\8", "(a", "a)", "(?Pn>a)", "(?P<n", "(?<1 >a)",
			"(?<>a)", "(?P<a-b>c)", "(?*a)", "(?=a)", "a{01}", "a{1,02}", "x*?*", "a??", "]", "}", "a{1", "(|a)", "()", "a||b", "|"}), true
	default:
		if d <= 0 {
			s = "b"
			break
		}
		in, e := g.expr(d-1, posix, names)
		switch {
		case posix || g.p(550):
			*names = append(*names, "")
			s = "(" + in + ")"
		case g.p(600):
			n := fmt.Sprintf("%s%d", g.pick([]string{"n", "name", "_", "1"}), len(*names))
			if g.p(200) {
				n = g.pick([]string{"n", "N", "1"})
			}
			*names = append(*names, n)
			s = g.pick([]string{"(?P<", "(?<"}) + n + ">" + in + ")"
		default:
			s = "(?:" + in + ")"
		}
		nullable = e
	}
	if g.p(420) {
		q := g.pick([]string{"*", "+", "?", "*", "+", "?", "{2}", "{1,2}", "{0,1}", "{1,}", "{0,}", "{3}", "{0}"})
		if nullable && q != "?" {
			return s, nullable
		}
		nullable = nullable || q[0] == '*' || q[0] == '?' || strings.HasPrefix(q, "{0")
		s += q
		if !posix && g.p(250) {
			s += "?"
		}
	}
	return s, nullable
}

func (g *run) template() string {
	var b strings.Builder
	for k := g.n(4); k > 0; k-- {
		b.WriteString(g.pick([]string{"x", "-", "$1", "$2", "${1}", "${2}y", "$0", "$$", "$1x", "$n", "${n}", "$name1", "$", "${", "${}", "$9", "$01", "a", " ", "$1 ", "$_2", "${N}", "$-"}))
	}
	return b.String()
}

// stem returns a value with the text s
func (g *run) stem(s string) core.Value { return core.STR(s) }

func (g *run) number() core.Value {
	if g.p(40) {
		return g.odd()
	}
	if g.p(60) {
		return core.STR(g.pick([]string{"", "x", "1.5", " 1", "+2", "-", "--1", "1_0", "0x1", "01", "-0", "99999999999999999999"}))
	}
	k := []int{-1, -1, -1, -2, 0, 1, 1, 2, 2, 3, 4, 10}[g.n(12)]
	if g.p(500) {
		return core.INT(int64(k))
	}
	return core.STR(fmt.Sprint(k))
}

// odd returns a value without text
func (g *run) odd() core.Value {
	switch g.n(4) {
	case 0:
		return core.LIST([]core.Value{core.STR("a")})
	case 1:
		return core.TUPLE([]core.Value{})
	case 2:
		return core.NIL
	default:
		return core.DICT(map[string]core.Value{})
	}
}
func (g *run) str(s string) core.Value {
	switch {
	case g.p(15):
		return g.odd()
	case g.p(10) && len(g.res) > 0:
		return g.ref()
	case g.p(20):
		return core.INT(int64(g.n(300) - 100))
	}
	return core.STR(s)
}
func (g *run) re() core.Value {
	switch {
	case g.p(15):
		return core.STR("a")
	case g.p(8):
		return g.odd()
	case len(g.res) == 0:
		return core.STR("")
	}
	return g.ref()
}
func (g *run) name() string {
	l := []string{"", "n", "N", "1", "x"}
	for _, ns := range g.names {
		l = append(l, ns...)
	}
	return g.pick(l)
}

var methods = map[string]string{"FindAllString": "rtn", "FindAllStringIndex": "rtn", "FindAllStringSubmatch": "rtn", "FindAllStringSubmatchIndex": "rtn",
	"FindString": "rt", "FindStringIndex": "rt", "FindStringSubmatch": "rt", "FindStringSubmatchIndex": "rt", "MatchString": "rt", "LiteralPrefix": "r",
	"Longest": "r", "NumSubexp": "r", "String": "r", "SubexpNames": "r", "SubexpIndex": "rm", "ReplaceAllLiteralString": "rtp", "ReplaceAllString": "rtp",
	"ReplaceAllStringFunc": "rtp", "Split": "rtn", "QuoteMeta": "q", "Compile": "e", "CompilePOSIX": "e", "Unknown": "r", "": "", "findString": "rt"}
var order = []string{"FindAllString", "FindAllStringIndex", "FindAllStringSubmatch", "FindAllStringSubmatchIndex", "FindString", "FindStringIndex", "FindStringSubmatch",
	"FindStringSubmatchIndex", "MatchString", "LiteralPrefix", "NumSubexp", "String", "SubexpNames", "SubexpIndex", "ReplaceAllLiteralString", "ReplaceAllString",
	"Split", "Split", "ReplaceAllString", "QuoteMeta"}
var rare = []string{"ReplaceAllStringFunc", "Unknown", "", "findString"}

func (g *run) compile() core.Value { return g.compileAs(g.p(250)) }
func (g *run) compileAs(posix bool) core.Value {
	names := []string{}
	s, _ := g.expr(2+g.n(2), posix, &names)
	if len(g.res) > 0 && g.p(150) {
		if v, ok := g.res[g.n(len(g.res))].(go_regexp.RegexpValue); ok {
			if l := strings.TrimSuffix(strings.TrimPrefix(v.Display(nil), "{#{Regexp "), "}#}"); !strings.ContainsAny(l, "#?") {
				s = l // compiled again
			}
		}
	}
	g.names = append(g.names, names)
	return g.str(s)
}

func (g *run) args() []core.Value {
	m := g.pick(order)
	switch k := g.n(100); {
	case k < 22 || len(g.res) == 0:
		m = g.pick([]string{"Compile", "Compile", "CompilePOSIX"})
	case k < 26:
		m = "Longest"
	case k < 28:
		m = g.pick(rare)
	}
	l := []core.Value{core.STR("regexp"), core.STR(m)}
	for _, c := range methods[m] {
		switch c {
		case 'r':
			l = append(l, g.re())
		case 't':
			l = append(l, g.str(g.text()))
		case 'n':
			l = append(l, g.number())
		case 'm':
			l = append(l, g.str(g.name()))
		case 'p':
			l = append(l, g.str(g.template()))
		case 'q':
			l = append(l, g.str(g.text()+g.pick([]string{"", ".", "(a)", "[b]*", "a+?", "\\", "{}", "^$", "|"})))
		case 'e':
			l = append(l, g.compileAs(m == "CompilePOSIX"))
		}
	}
	return g.spoil(l)
}

// spoil adds or removes arguments, or replaces the method, now and then
func (g *run) spoil(l []core.Value) []core.Value {
	switch k := g.n(200); {
	case k < 3:
		return l[:len(l)-1]
	case k < 6:
		return append(l, core.STR(g.text()))
	case k == 6:
		l[1] = g.odd()
	case k == 7:
		return l[:1]
	}
	return l
}

func (g *run) osArgs() []core.Value {
	name := g.str(g.pick(append(g.files, "missing", "")))
	m := "ReadFile"
	if g.p(80) {
		m = g.pick([]string{"readFile", "", "WriteFile"})
	}
	return g.spoil([]core.Value{core.STR("os"), core.STR(m), name})
}
func (g *run) slogArgs() []core.Value {
	m := g.pick([]string{"Debug", "Info", "Warn", "Error"})
	if g.p(80) {
		m = g.pick([]string{"debug", "", "Fatal", "INFO"})
	}
	return g.spoil([]core.Value{core.STR("slog"), core.STR(m), g.str(g.text())})
}

// Record makes calls and returns their trace
func Record(seed int64, i int) M {
	g := &run{r: rand.New(rand.NewSource(seed*1000003 + int64(i))), log: &logger{}}
	old := slog.Default()
	slog.SetDefault(slog.New(g.log))
	defer slog.SetDefault(old)
	dir, err := os.MkdirTemp("", "nat")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	registry := hd.NewModuleRegistry(&hd.ModuleOptions{})
	registry.Register("go:regexp", go_regexp.Initmodule())
	registry.Register("go:os", go_os.Initmodule())
	registry.Register("go:slog", go_slog.Initmodule())
	g.scope = hd.NewRootScope(nil)
	hd.InitCommandsForModule(g.scope, registry, dir)
	script := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize("import go:regexp (regexp); import go:os (os); import go:slog (slog)"), nil).Script
	setup := g.scope.PrepareProcess(g.scope.Compile(*script)).Run()
	files := []any{}
	for k := g.n(3); k > 0; k-- {
		name, text := fmt.Sprintf("%s/f%d", dir, k), g.text()
		switch {
		case g.p(100):
			text = ""
		case g.p(250):
			b := make([]byte, g.n(20))
			if g.p(100) {
				b = make([]byte, 500+g.n(200))
			}
			for i := range b {
				b[i] = "\r\n\x00\xff\xc3\xa9\xef\xbb\xbfa"[g.n(10)]
			}
			text = string(b)
		}
		if os.WriteFile(name, []byte(text), 0o600) == nil {
			g.files = append(g.files, name)
			files = append(files, []any{bytes(name), bytes(text)})
		}
	}
	ev := []any{}
	if setup.Code != core.ResultCode_OK {
		ev = append(ev, M{"m": "import", "a": []any{}, "r": M{"c": strings.ToLower(core.RESULT_CODE_NAME(setup)), "v": g.enc(setup.Value)}, "log": []any{}})
	}
	if g.p(150) {
		// the same expression twice, one of them changed
		re := core.STR(g.pick([]string{"a|ab", "a+?", "(a|ab)(b?)", "b*?a??", "a{1,2}?", "(?:a|b|ab)+?b"}))
		for k := 0; k < 2; k++ {
			g.names = append(g.names, nil)
			ev = append(ev, g.call([]core.Value{core.STR("regexp"), core.STR("Compile"), re}))
		}
		if len(g.res) == 2 {
			ev = append(ev, g.call([]core.Value{core.STR("regexp"), core.STR("Longest"), ref{g.res[0], 1}}))
			for k := 0; k < 2; k++ {
				ev = append(ev, g.call([]core.Value{core.STR("regexp"), core.STR(g.pick([]string{"FindString", "FindStringIndex", "FindStringSubmatch"})), ref{g.res[k], k + 1}, core.STR(g.text() + g.pick([]string{"ab", "aab"}))}))
			}
		}
	}
	for k := 0; k < 12; k++ {
		a := g.args
		if g.p(60) {
			a = g.osArgs
		} else if g.p(60) {
			a = g.slogArgs
		}
		ev = append(ev, g.call(a()))
		if len(g.res) > 0 && g.p(60) {
			v := g.ref()
			ev = append(ev, M{"m": "display", "a": []any{g.enc(v)}, "r": M{"c": "ok", "v": M{"t": "s", "b": bytes(v.Value.(go_regexp.RegexpValue).Display(nil))}}, "log": []any{}})
		}
	}
	return M{"id": fmt.Sprintf("N-%d", i), "ev": ev, "files": files}
}
