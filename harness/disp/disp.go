// Package disp displays random values, reads the text back and records both.
package disp

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"hv/gen"
	"hv/syn"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type M = map[string]any

func newScope() *hd.Scope {
	scope := hd.NewRootScope(nil)
	hd.InitCommands(scope)
	return scope
}

type g struct {
	r     *rand.Rand
	scope *hd.Scope
}

func eval(scope *hd.Scope, src string) (res core.Result, err string) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Sprint("panic: ", e)
		}
	}()
	p := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	if !p.Success {
		return core.OK(core.NIL), "syntax: " + p.Message
	}
	res = scope.PrepareProcess(scope.Compile(*p.Script)).Run()
	if res.Code != core.ResultCode_OK {
		_, s := core.ValueToString(res.Value)
		return res, "code " + core.RESULT_CODE_NAME(res) + ": " + s
	}
	return res, ""
}

func (g *g) n(k int) int { return g.r.Intn(k) }

const special = " \t\n\r\f\\\"#${}()[];*"

func (g *g) str() string {
	switch g.n(10) {
	case 0:
		return ""
	case 1:
		return []string{"true", "false", "list", "dict", "idem", "1", "-2.5", "0x10", "é", "日本", "[]", "{}", "()", "$a", "#{", "}#", "\"\"\"", "\"\"EOF", "\\", "\\\\",
			"\\n", "\\\n", "a\\", "*", "$", "$*", ";", "\x00", "\x7f", "\xff\xfe", "a b", " ", "\t", "\n", "#", "##", "a#b", "# c", "a$", "a[b]", "a(b)", "a{b}"}[g.n(40)]
	}
	var b strings.Builder
	for k := g.n(8); k >= 0; k-- {
		switch g.n(7) {
		case 0, 1:
			b.WriteByte(special[g.n(len(special))])
		case 2:
			b.WriteByte(byte(g.n(256)))
		case 3:
			b.WriteString([]string{"é", "日", "\u2028", "😀", "\\x41", "\\u00e9"}[g.n(6)])
		default:
			b.WriteByte("abcxyz019.-+eE"[g.n(14)])
		}
	}
	return b.String()
}

// a script with a source: what is between braces, without escapes
func (g *g) block() (core.Value, bool) {
	var src string
	switch g.n(4) {
	case 0:
		src = gen.Texts([]string{"all", "C11"}[g.n(2)], g.r.Int63n(1000), g.n(1000))[0]
	default:
		src = syn.Rand(g.r)
	}
	src = strings.ReplaceAll(src, "\\", "")
	if len(src) > 300 {
		return nil, false
	}
	// not evaluated: the block may contain anything
	res, err := eval(g.scope, "idem {"+src+"}")
	if err != "" {
		return nil, false
	}
	s, ok := res.Value.(core.ScriptValue)
	if !ok || s.Source == nil || *s.Source != src {
		return nil, false
	}
	return s, true
}
func (g *g) int() int64 {
	switch g.n(4) {
	case 0:
		return int64(g.n(20) - 10)
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 0, -1}[g.n(6)]
	case 2:
		return int64(g.r.Uint64())
	}
	return g.r.Int63n(1000000) - 500000
}
func (g *g) real() float64 {
	switch g.n(6) {
	case 0:
		return []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e300, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), 1e21, 1e20, 123456789, 1e-7}[g.n(14)]
	case 1:
		for {
			f := math.Float64frombits(g.r.Uint64())
			if !math.IsNaN(f) {
				return f
			}
		}
	case 2:
		return float64(g.n(1000)) / 8
	}
	return g.r.NormFloat64() * math.Pow(10, float64(g.n(30)-15))
}
func (g *g) values(d, n int) []core.Value {
	r := []core.Value{}
	for k := g.n(n + 1); k > 0; k-- {
		r = append(r, g.value(d))
	}
	return r
}
func (g *g) value(d int) core.Value {
	k := g.n(12)
	if d <= 0 {
		k = g.n(7)
	}
	switch k {
	case 0:
		return core.NIL
	case 1:
		return core.BOOL(g.n(2) == 0)
	case 2:
		return core.INT(g.int())
	case 3:
		return core.REAL(g.real())
	case 4, 5:
		return core.STR(g.str())
	case 6:
		if v, ok := g.block(); ok {
			return v
		}
		return core.STR(g.str())
	case 7:
		return core.TUPLE(g.values(d-1, 4))
	case 8:
		return core.LIST(g.values(d-1, 4))
	case 9:
		m := map[string]core.Value{}
		for k := g.n(4); k > 0; k-- {
			m[g.str()] = g.value(d - 1)
		}
		return core.DICT(m)
	}
	return g.qualified(d)
}
func (g *g) qualified(d int) core.Value {
	var src core.Value = core.STR(g.str())
	if g.n(3) == 0 {
		// names in tuples may be qualified too
		vs := []core.Value{}
		for k := g.n(3); k > 0; k-- {
			switch g.n(4) {
			case 0:
				vs = append(vs, core.TUPLE([]core.Value{core.STR(g.str())}))
			case 1:
				vs = append(vs, g.qualified(d-1))
			default:
				vs = append(vs, core.STR(g.str()))
			}
		}
		src = core.TUPLE(vs)
	}
	sels := []core.Selector{}
	key := false
	for k := 1 + g.n(3); k > 0; k-- {
		if !key && g.n(2) == 0 {
			ks := g.values(d-1, 2)
			ks = append(ks, g.value(d-1))
			_, s := core.CreateKeyedSelector(ks)
			sels = append(sels, s)
			key = true
			continue
		}
		var i core.Value = core.INT(int64(g.n(100)))
		if g.n(3) == 0 {
			i = core.STR(strconv.Itoa(g.n(50)))
		}
		_, s := core.CreateIndexedSelector(i)
		sels = append(sels, s)
		key = false
	}
	return core.NewQualifiedValue(src, sels)
}

// display of dictionaries and lists, as a host does it
func display(displayable any) string {
	switch v := displayable.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, display)
	case core.DictionaryValue:
		return hd.DisplayDictionaryValue(v, display)
	}
	return core.DefaultDisplayFunction(displayable)
}

func bits(f float64) string { return strconv.FormatUint(math.Float64bits(f), 16) }

// Enc encodes a value exactly.
func Enc(v core.Value) any {
	switch x := v.(type) {
	case core.NilValue:
		return M{"t": "nil"}
	case core.BooleanValue:
		return M{"t": "bool", "y": syn.Bytes(strconv.FormatBool(x.Value))}
	case core.IntegerValue:
		return M{"t": "int", "y": syn.Bytes(strconv.FormatInt(x.Value, 10))}
	case core.RealValue:
		return M{"t": "real", "h": bits(x.Value)}
	case core.StringValue:
		return M{"t": "str", "y": syn.Bytes(x.Value)}
	case core.TupleValue:
		return M{"t": "tup", "u": encs(x.Values)}
	case core.ListValue:
		return M{"t": "list", "l": encs(x.Values)}
	case core.DictionaryValue:
		ks := []string{}
		for k := range x.Map {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		m := []any{}
		for _, k := range ks {
			m = append(m, []any{syn.Bytes(k), Enc(x.Map[k])})
		}
		return M{"t": "dict", "m": m}
	case core.ScriptValue:
		if x.Source != nil {
			return M{"t": "blk", "b": syn.Bytes(*x.Source)}
		}
		return M{"t": "scr"}
	case core.QualifiedValue:
		sel := []any{}
		for _, s := range x.Selectors {
			switch y := s.(type) {
			case core.IndexedSelector:
				sel = append(sel, M{"k": "idx", "x": Enc(y.Index)})
			case core.KeyedSelector:
				sel = append(sel, M{"k": "key", "ks": encs(y.Keys)})
			default:
				sel = append(sel, M{"k": fmt.Sprintf("%T", s)})
			}
		}
		return M{"t": "qual", "q": Enc(x.Source), "sel": sel}
	}
	return M{"t": fmt.Sprintf("%T", v)}
}
func encs(vs []core.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, Enc(v))
	}
	return r
}

var number = regexp.MustCompile(`[-+0-9a-zA-Z._]+`)

func record(id string, v core.Value) (t M) {
	t = M{"id": id, "v": Enc(v)}
	defer func() {
		if e := recover(); e != nil {
			t["o"] = "panic: " + fmt.Sprint(e)
			t["text"], t["nums"], t["back"] = []int{}, []any{}, M{"t": "none"}
		}
	}()
	text := core.Display(v, display)
	t["text"] = syn.Bytes(text)
	t["show"] = fmt.Sprintf("%q", text)
	nums := []any{}
	seen := map[string]bool{}
	for _, s := range number.FindAllString(text, -1) {
		if f, err := strconv.ParseFloat(s, 64); err == nil && !seen[s] {
			nums = append(nums, []any{syn.Bytes(s), bits(f)})
			seen[s] = true
		}
	}
	t["nums"] = nums
	res, err := eval(newScope(), "idem "+text)
	t["o"], t["back"] = err, M{"t": "none"}
	if err == "" {
		t["back"] = Enc(res.Value)
	}
	return t
}

// Record is the i-th recorded value.
func Record(seed int64, i int) M {
	r := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + 13))
	g := &g{r, newScope()}
	return record(fmt.Sprintf("C13-%d-%d", seed, i), g.value(i%5))
}

// Probes are fixed values, made by evaluating scripts.
var Probes = []struct{ Name, Src string }{
	{"block-with-escape", `idem {\}}`},
	{"parsed-line-comment", `parse "a # b"`},
	{"qualified-word-index", `idem a[idem foo]`},
	{"block", `idem {a "b" {c [d]} $e(f)}`},
	{"parsed-source", `parse {a {b} [c]; d}`},
	{"block-comment", `idem {#{a}# b}`},
	{"qualified", `idem ((a b) {c d})[1](e f)`},
}

func Probe(i int) M {
	p := Probes[i]
	scope := newScope()
	res, err := eval(scope, p.Src)
	if err != "" {
		return M{"id": p.Name, "v": M{"t": "none"}, "o": err, "text": []int{}, "nums": []any{}, "back": M{"t": "none"}, "show": ""}
	}
	return record(p.Name, res.Value)
}

const alphabet = "a \n\\\"#$*(){}[];"

// Enum is the i-th text of at most three (or more) characters that matter to
// the syntax, in one of the shapes of HDisplayProps.
func Enum(i int) M {
	k, j := i%12, i/12
	b := []byte{}
	for n := 0; ; n++ {
		c := 1
		for x := 0; x < n; x++ {
			c *= len(alphabet)
		}
		if j < c {
			for x := 0; x < n; x++ {
				b = append(b, alphabet[j%len(alphabet)])
				j /= len(alphabet)
			}
			break
		}
		j -= c
	}
	y := string(b)
	s, a, one := core.STR(y), core.STR("a"), core.INT(1)
	tup := func(vs ...core.Value) core.Value { return core.TUPLE(vs) }
	list := func(vs ...core.Value) core.Value { return core.LIST(vs) }
	idx := func(v core.Value) core.Selector { _, s := core.CreateIndexedSelector(v); return s }
	key := func(vs ...core.Value) core.Selector { _, s := core.CreateKeyedSelector(vs); return s }
	qual := func(q core.Value, ss ...core.Selector) core.Value { return core.NewQualifiedValue(q, ss) }
	dict := func(k string, v core.Value) core.Value { return core.DICT(map[string]core.Value{k: v}) }
	var v core.Value
	switch k {
	case 0:
		v = s
	case 1:
		v = tup(s)
	case 2:
		v = tup(s, s)
	case 3:
		v = tup(tup(), s, core.NIL)
	case 4:
		v = list(a, s)
	case 5:
		v = list(s, list())
	case 6:
		v = dict(y, s)
	case 7:
		v = core.DICT(map[string]core.Value{y: dict(y, one), "b" + y: a})
	case 8:
		v = qual(s, idx(one))
	case 9:
		v = qual(s, key(s), idx(one), key(a, s))
	case 10:
		v = qual(tup(s, a), key(list(s)))
	case 11:
		v = tup(qual(s, key(qual(s, idx(one)))), s)
	}
	return record(fmt.Sprintf("enum-0-%d", i), v)
}
