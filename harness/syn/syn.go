// Package syn records what the tokenizer and the parser make of a source.
package syn

import (
	"helena/core"
	"math/rand"
	"strings"
)

type M = map[string]any

var kinds = map[core.TokenType]string{
	core.TokenType_WHITESPACE: "ws", core.TokenType_NEWLINE: "nl", core.TokenType_CONTINUATION: "cont",
	core.TokenType_TEXT: "text", core.TokenType_ESCAPE: "esc", core.TokenType_COMMENT: "#",
	core.TokenType_OPEN_TUPLE: "(", core.TokenType_CLOSE_TUPLE: ")", core.TokenType_OPEN_BLOCK: "{",
	core.TokenType_CLOSE_BLOCK: "}", core.TokenType_OPEN_EXPRESSION: "[", core.TokenType_CLOSE_EXPRESSION: "]",
	core.TokenType_STRING_DELIMITER: "\"", core.TokenType_DOLLAR: "$", core.TokenType_SEMICOLON: ";", core.TokenType_ASTERISK: "*",
}

func Bytes(s string) []int {
	r := make([]int, len(s))
	for i := range r {
		r[i] = int(s[i])
	}
	return r
}
func pos(p core.SourcePosition) []int { return []int{int(p.Index), int(p.Line), int(p.Column)} }
func tokens(ts []core.Token) []any {
	r := []any{}
	for _, t := range ts {
		r = append(r, M{"k": kinds[t.Type], "p": pos(t.Position), "s": Bytes(t.Sequence), "l": Bytes(t.Literal)})
	}
	return r
}

// enc encodes syntax trees; without positions they are all <<>>
type enc struct {
	cap bool
	bad bool
}

func (e *enc) p(p *core.SourcePosition) []int {
	if (p != nil) != e.cap {
		e.bad = true
	}
	if p == nil {
		return []int{}
	}
	return pos(*p)
}
func (e *enc) script(s *core.Script) []any {
	r := []any{}
	for _, x := range s.Sentences {
		ws := []any{}
		for _, w := range x.Words {
			ws = append(ws, M{"p": e.p(w.Word.Position), "m": e.morphs(w.Word.Morphemes)})
		}
		r = append(r, M{"p": e.p(x.Position), "w": ws})
	}
	return r
}

// sub encodes a subscript, which starts where its delimiter is
func (e *enc) sub(at *core.SourcePosition, s *core.Script) []any {
	if (at != nil) != (s.Position != nil) || at != nil && *at != *s.Position {
		e.bad = true
	}
	return e.script(s)
}
func (e *enc) morphs(ms []core.Morpheme) []any {
	r := []any{}
	for _, m := range ms {
		d := M{"p": e.p(m.Position())}
		switch m := m.(type) {
		case core.LiteralMorpheme:
			d["k"], d["l"] = "lit", Bytes(m.Value)
		case core.TupleMorpheme:
			d["k"], d["s"] = "tup", e.sub(m.Position(), &m.Subscript)
		case core.BlockMorpheme:
			d["k"], d["s"], d["l"] = "blk", e.sub(m.Position(), &m.Subscript), Bytes(m.Value)
		case core.ExpressionMorpheme:
			d["k"], d["s"] = "exp", e.sub(m.Position(), &m.Subscript)
		case core.StringMorpheme:
			d["k"], d["m"] = "str", e.morphs(m.Morphemes)
		case core.HereStringMorpheme:
			d["k"], d["l"], d["n"] = "here", Bytes(m.Value), m.DelimiterLength
		case core.TaggedStringMorpheme:
			d["k"], d["l"], d["g"] = "tag", Bytes(m.Value), Bytes(m.Tag)
		case core.LineCommentMorpheme:
			d["k"], d["l"], d["n"] = "lc", Bytes(m.Value), m.DelimiterLength
		case core.BlockCommentMorpheme:
			d["k"], d["l"], d["n"] = "bc", Bytes(m.Value), m.DelimiterLength
		case core.SubstituteNextMorpheme:
			d["k"], d["x"], d["l"] = "sub", m.Expansion, Bytes(m.Value)
		}
		r = append(r, d)
	}
	return r
}

func outcome(r1, r2 core.ParseResult, cap bool, first *core.Token) M {
	if !r1.Success {
		return M{"o": "err", "v": r1.Message}
	}
	if !r2.Success {
		return M{"o": "inc", "v": r2.Message}
	}
	e := &enc{cap: cap}
	v := e.script(r2.Script)
	if (r2.Script.Position != nil) != cap || cap && first != nil && *r2.Script.Position != first.Position {
		e.bad = true
	}
	r := M{"o": "ok", "v": v}
	if e.bad {
		r["badpos"] = true
	}
	return r
}

// Record tokenizes and parses src; how selects one of several equivalent ways
func Record(id, src string, how int) (t M) {
	t = M{"id": id, "src": Bytes(src), "tok": []any{}, "r": M{"o": "none", "v": ""}, "cap": true}
	defer func() {
		if r := recover(); r != nil {
			t["r"] = M{"o": "panic", "v": ""}
		}
	}()
	var toks []core.Token
	if how&1 == 0 {
		toks = core.Tokenizer{}.Tokenize(src)
	} else {
		// step by step
		tk := core.Tokenizer{}
		if how&4 == 0 {
			// it was used before, and given up
			tk.Begin(core.NewStringStream("a \\x4"))
			for i := 0; i < how>>3+2 && !tk.End(); i++ {
				tk.Next()
			}
		}
		in := core.NewStringStreamFromFile(src, "f")
		tk.Begin(in)
		for !tk.End() {
			if x := tk.Next(); x != nil {
				toks = append(toks, *x)
			}
		}
	}
	t["tok"] = tokens(toks)
	var first *core.Token
	if len(toks) > 0 {
		first = &toks[0]
	}
	cap := how&2 == 0
	t["cap"] = cap
	opt := &core.ParserOptions{CapturePositions: cap}
	ps := core.NewParser(opt)
	if !cap && how&8 == 0 {
		ps = core.NewParser(nil)
	}
	switch how & 12 {
	case 0, 8:
		r1 := ps.ParseStream(core.NewArrayTokenStream(toks, nil))
		var r2 core.ParseResult
		if r1.Success {
			r2 = ps.CloseStream()
		}
		t["r"] = outcome(r1, r2, cap, first)
	case 4:
		// step by step, with another parser working on something else in between
		other := core.NewParser(nil)
		junk := core.Tokenizer{}.Tokenize("a (b \"$c[d]\" {e # f\n} g)")
		other.Begin(core.NewArrayTokenStream(junk, nil))
		ps.Begin(core.NewArrayTokenStream(toks, nil))
		r1 := core.PARSE_OK(nil)
		for r1.Success && !ps.End() {
			if !other.End() {
				other.Next()
			}
			r1 = ps.Next()
		}
		var r2 core.ParseResult
		if r1.Success {
			r2 = ps.CloseStream()
		}
		t["r"] = outcome(r1, r2, cap, first)
	case 12:
		// at once, with a parser that was used before
		ps.ParseTokens(core.Tokenizer{}.Tokenize("x {y (\"$z[$"), nil)
		r := ps.ParseTokens(toks, nil)
		t["r"] = outcome(core.PARSE_OK(nil), r, cap, first)
		if !r.Success {
			t["r"] = M{"o": "fail", "v": r.Message}
		}
	}
	return
}

const alphabet = "a \n\\#\"$*(){}[];"

// Count returns how many sources have up to n characters
func Count(n int) int {
	k, c := 1, 1
	for i := 0; i < n; i++ {
		c *= len(alphabet)
		k += c
	}
	return k
}

// Enum returns source number i, shortest first
func Enum(i int) string {
	l, c := 0, 1
	for i >= c {
		i -= c
		c *= len(alphabet)
		l++
	}
	b := make([]byte, l)
	for j := range b {
		b[j] = alphabet[i%len(alphabet)]
		i /= len(alphabet)
	}
	return string(b)
}

var pieces = []string{"a", "b", "cmd", "name", "1", " ", " ", " ", "\t", "\r", "\f", "\n", "\n", ";", "\\\n", "\\\n \t", "\\", "\\n", "\\x41", "\\x4", "\\x",
	"\\u00e9", "\\u12", "\\U1F600", "\\UFFFFFFFF", "\\U110000", "\\ud800", "\\101", "\\7", "\\400", "\\777", "\\8", "\\$", "\\\"", "\\(", "\\ ", "\\z", "#", "#", "##", "#{", "}#", "##{", "}##", "###",
	"\"", "\"", "\"", "\"\"", "\"\"\"", "\"\"\"\"", "\"\"EOF\n", "EOF\"\"", "\"\"EOF", "EOF", "  EOF\"\"", "$", "$", "$", "$*", "$$", "$*$", "*", "(", "(", "(", ")", ")", ")", "{", "{", "{", "}", "}", "}",
	"[", "[", "[", "]", "]", "]", "$a", "${a b}", "$[c]", "$a(k)", "$a[0]", "$a{r}", "\u00e9", "\u4e2d", "\x80", "\xff", "x(", "x[", "x{"}

// Rand returns a source made of pieces, more or less balanced
func Rand(r *rand.Rand) string {
	var b strings.Builder
	var open []string
	closeOf := map[string]string{"(": ")", "{": "}", "[": "]", "\"": "\"", "\"\"\"": "\"\"\"", "#{": "}#", "##{": "}##", "\"\"EOF\n": "EOF\"\""}
	bal := r.Intn(100)
	for n := 1 + r.Intn(24); n > 0; n-- {
		if len(open) > 0 && r.Intn(100) < 25+bal/4 {
			b.WriteString(open[len(open)-1])
			open = open[:len(open)-1]
			continue
		}
		p := pieces[r.Intn(len(pieces))]
		if c, ok := closeOf[p]; ok {
			open = append(open, c)
		} else if bal > 20 && (p == ")" || p == "}" || p == "]") {
			p = " "
		}
		b.WriteString(p)
	}
	for len(open) > 0 && r.Intn(100) < bal {
		b.WriteString(open[len(open)-1])
		open = open[:len(open)-1]
	}
	return b.String()
}
