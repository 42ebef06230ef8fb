// Package lang builds Helena source text from an abstract syntax, keeping
// track of the position of every construct independently of the parser under
// test.
package lang

import (
	"math/rand"
	"strings"
)

// Word is a word, or a stem of a compound word or string.
type Word struct {
	K    string // lit str cmp tup blk exp sub qual cmt bad
	V    string // literal or comment text
	Ms   []*Word
	B    *Script
	Base *Word
	N    int // substitution levels
	X    bool
	Sels []*Sel
	Q    int // literal style: 0 bare, 1 here-string, 2 tagged string

	p  Pos
	ps []Pos
}
type Sel struct {
	K string // idx key rul
	B *Script
	p Pos
}
type Sentence struct {
	Ws []*Word
	p  Pos
}
type Script struct {
	Ss  []*Sentence
	id  int
	p   Pos
	src string
}
type Pos [3]int

func Lit(s string) *Word             { return &Word{K: "lit", V: s} }
func Here(s string) *Word            { return &Word{K: "lit", V: s, Q: 1} }
func StrW(ms ...*Word) *Word         { return &Word{K: "str", Ms: ms} }
func Cmp(ms ...*Word) *Word          { return &Word{K: "cmp", Ms: ms} }
func TupW(ws ...*Word) *Word         { return &Word{K: "tup", B: One(ws...)} }
func BlkW(b *Script) *Word           { return &Word{K: "blk", B: b} }
func ExpW(b *Script) *Word           { return &Word{K: "exp", B: b} }
func Exp(ws ...*Word) *Word          { return ExpW(One(ws...)) }
func Blk(ss ...*Sentence) *Word      { return BlkW(&Script{Ss: ss}) }
func Cmt(s string) *Word             { return &Word{K: "cmt", V: s} }
func Var(n string) *Word             { return Sub(Lit(n)) }
func Sub(base *Word, s ...*Sel) *Word { return &Word{K: "sub", Base: base, N: 1, Sels: s} }
func SubN(n int, x bool, base *Word, s ...*Sel) *Word {
	return &Word{K: "sub", Base: base, N: n, X: x, Sels: s}
}
func Qual(base *Word, s ...*Sel) *Word { return &Word{K: "qual", Base: base, Sels: s} }
func Bad(s string) *Word               { return &Word{K: "bad", V: s} }
func Idx(ws ...*Word) *Sel             { return &Sel{K: "idx", B: One(ws...)} }
func Key(ws ...*Word) *Sel             { return &Sel{K: "key", B: One(ws...)} }
func Rul(ss ...*Sentence) *Sel         { return &Sel{K: "rul", B: &Script{Ss: ss}} }
func S(ws ...*Word) *Sentence          { return &Sentence{Ws: ws} }
func Cmdl(name string, ws ...*Word) *Sentence {
	return &Sentence{Ws: append([]*Word{Lit(name)}, ws...)}
}
func Scr(ss ...*Sentence) *Script { return &Script{Ss: ss} }
func One(ws ...*Word) *Script {
	if len(ws) == 0 {
		return &Script{}
	}
	return &Script{Ss: []*Sentence{S(ws...)}}
}

// Text returns the word for an arbitrary string constant.
func Text(s string) *Word {
	bare := s != ""
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_+-./<>=!&|^%@,:?~'`*", c)) {
			bare = false
		}
	}
	if bare {
		return Lit(s)
	}
	if s == "" {
		return StrW()
	}
	return StrW(Lit(s))
}

// Clone copies a script, so that no construct is printed at two places.
func (s *Script) Clone() *Script {
	if s == nil {
		return nil
	}
	r := &Script{}
	for _, st := range s.Ss {
		n := &Sentence{}
		for _, w := range st.Ws {
			n.Ws = append(n.Ws, w.Clone())
		}
		r.Ss = append(r.Ss, n)
	}
	return r
}
func (w *Word) Clone() *Word {
	if w == nil {
		return nil
	}
	r := *w
	r.ps = nil
	r.Ms, r.Sels = nil, nil
	for _, m := range w.Ms {
		r.Ms = append(r.Ms, m.Clone())
	}
	for _, x := range w.Sels {
		r.Sels = append(r.Sels, &Sel{K: x.K, B: x.B.Clone()})
	}
	r.B = w.B.Clone()
	r.Base = w.Base.Clone()
	return &r
}

// scripts calls f on the scripts that are parts of w.
func (w *Word) scripts(f func(w *Word, s *Script)) {
	if w.B != nil {
		f(w, w.B)
	}
	for _, m := range w.Ms {
		m.scripts(f)
	}
	for _, x := range w.Sels {
		f(w, x.B)
	}
	if w.Base != nil {
		w.Base.scripts(f)
	}
}

var defs = map[string]bool{"proc": true, "closure": true, "macro": true, "alias": true}

func (s *Script) sentences(f func(*Sentence)) {
	for _, st := range s.Ss {
		f(st)
		for _, w := range st.Ws {
			w.scripts(func(_ *Word, b *Script) { b.sentences(f) })
		}
	}
}

// mentions tells whether the script could run one of the named commands.
func (s *Script) mentions(names map[string]bool) bool {
	r := false
	s.sentences(func(st *Sentence) {
		for i, w := range st.Ws {
			if w.K == "lit" && names[w.V] || i == 0 && w.K != "lit" && w.K != "cmt" {
				r = true
			}
		}
	})
	return r
}

// Tame makes every definition that could call itself start with a tick, so
// that recursion ends.  It returns changed copies.
func Tame(all []*Script) (r []*Script) {
	names := map[string]bool{}
	for _, s := range all {
		s = s.Clone()
		r = append(r, s)
		s.sentences(func(st *Sentence) {
			if len(st.Ws) >= 3 && st.Ws[0].K == "lit" && defs[st.Ws[0].V] && st.Ws[1].K == "lit" {
				names[st.Ws[1].V] = true
			}
		})
	}
	for _, s := range r {
		s.tame(names)
	}
	return r
}
func (s *Script) tame(names map[string]bool) {
	var blocks func(w *Word)
	blocks = func(w *Word) {
		w.scripts(func(x *Word, b *Script) {
			if x.K == "blk" && x.B == b {
				if len(b.Ss) > 0 && b.mentions(names) && !(len(b.Ss[0].Ws) == 1 && b.Ss[0].Ws[0].V == "tick") {
					b.Ss = append([]*Sentence{{Ws: []*Word{Lit("tick")}}}, b.Ss...)
				}
				return
			}
			for _, st := range b.Ss {
				for _, y := range st.Ws {
					blocks(y)
				}
			}
		})
	}
	s.sentences(func(st *Sentence) {
		if len(st.Ws) >= 3 && st.Ws[0].K == "lit" && defs[st.Ws[0].V] {
			for _, w := range st.Ws[1:] {
				blocks(w)
			}
		}
	})
}

// Printer prints scripts.  Layout choices come from R; nil means canonical.
type Printer struct {
	R    *rand.Rand
	out  strings.Builder // source text
	lit  strings.Builder // text as block strings see it
	line int
	col  int
	idx  int
	Blks []*Script
	Flat bool // sentences of main scripts on one line
}

func (p *Printer) pos() Pos { return Pos{p.line, p.col, p.idx} }
func (p *Printer) put(s string) {
	p.lit.WriteString(s)
	p.seq(s)
}
func (p *Printer) seq(s string) {
	p.out.WriteString(s)
	for _, c := range s {
		p.idx++
		if c == '\n' {
			p.line++
			p.col = 0
		} else {
			p.col++
		}
	}
}

// esc writes an escape sequence whose value is v.
func (p *Printer) esc(seq, v string) {
	p.lit.WriteString(v)
	p.seq(seq)
}
func (p *Printer) n(k int) int {
	if p.R == nil {
		return 0
	}
	return p.R.Intn(k)
}

// Script prints a main script and returns its block number (from 1).
func (p *Printer) Script(s *Script) (int, string) {
	s = s.Clone()
	p.out.Reset()
	p.lit.Reset()
	p.line, p.col, p.idx = 0, 0, 0
	p.add(s)
	// The position of a script is that of its first token
	s.p = Pos{0, 0, 0}
	p.sentences(s, true)
	s.src = p.out.String()
	return s.id, s.src
}
func (p *Printer) add(s *Script) {
	p.Blks = append(p.Blks, s)
	s.id = len(p.Blks)
}
func (p *Printer) space() {
	switch p.n(14) {
	case 1:
		p.put("  ")
	case 2:
		p.put("\t")
	case 3:
		// continuation: reads as one space
		p.esc("\\\n", " ")
	case 4:
		p.esc("\\\n  \t", " ")
	default:
		p.put(" ")
	}
}
func (p *Printer) sep() {
	switch p.n(5) {
	case 1:
		p.put("\n")
	case 2:
		p.put("\n  ")
	case 3:
		p.put(";\n")
	case 4:
		p.put(" ;  ")
	default:
		p.put("; ")
	}
}
func (p *Printer) sentences(s *Script, top bool) {
	flat := top && p.Flat
	if p.n(8) == 1 && !top {
		p.put(" ")
	}
	for i, st := range s.Ss {
		if i > 0 {
			// a line comment ends with its line
			prev := s.Ss[i-1].Ws
			if len(prev) > 0 && prev[len(prev)-1].K == "cmt" && !strings.HasPrefix(prev[len(prev)-1].V, "#{") {
				p.put("\n")
			} else if flat {
				p.put(" ; ")
			} else {
				p.sep()
			}
		}
		for j, w := range st.Ws {
			if j > 0 {
				p.space()
			}
			if j == 0 {
				st.p = p.pos()
			}
			p.word(w)
		}
	}
	if flat {
		return
	}
	if n := len(s.Ss); n > 0 {
		l := s.Ss[n-1].Ws
		if len(l) > 0 && l[len(l)-1].K == "cmt" && !strings.HasPrefix(l[len(l)-1].V, "#{") {
			p.put("\n")
			return
		}
	}
	if p.n(12) == 1 {
		p.put("\n")
	}
}
func (p *Printer) script(s *Script, open, close string, at Pos) {
	p.add(s)
	s.p = at
	p.put(open)
	start := p.lit.Len()
	p.sentences(s, false)
	s.src = p.lit.String()[start:]
	p.put(close)
}

// fix removes combinations that read back as something else: an expression
// after a substitution is a selector, and so is one after a leading literal.
func fix(w *Word) {
	var r []*Word
	for _, m := range w.Ms {
		if n := len(r); n > 0 {
			l := r[n-1]
			if l.K == "sub" && m.K == "exp" {
				r = append(r, Lit("-"), m)
				continue
			}
			if l.K == "lit" && m.K == "lit" {
				r[n-1] = Lit(l.V + m.V)
				continue
			}
			if w.K == "cmp" && n == 1 && l.K == "lit" && m.K == "exp" {
				r = []*Word{m, l}
				continue
			}
		}
		r = append(r, m)
	}
	w.Ms = r
}

func (p *Printer) word(w *Word) {
	w.p = p.pos()
	if w.K == "str" || w.K == "cmp" {
		fix(w)
	}
	switch w.K {
	case "lit":
		switch w.Q {
		case 1:
			p.put(`"""` + w.V + `"""`)
		default:
			p.put(w.V)
		}
	case "bad", "cmt":
		p.put(w.V)
	case "str":
		p.put(`"`)
		for _, m := range w.Ms {
			p.stem(m, true)
		}
		p.put(`"`)
	case "cmp":
		for _, m := range w.Ms {
			p.stem(m, false)
		}
	case "tup":
		p.script(w.B, "(", ")", w.p)
	case "blk":
		p.script(w.B, "{", "}", w.p)
	case "exp":
		p.script(w.B, "[", "]", w.p)
	case "sub":
		p.sub(w)
	case "qual":
		p.word(w.Base)
		p.sels(w.Sels)
	default:
		panic("word kind " + w.K)
	}
}
func (p *Printer) stem(m *Word, quoted bool) {
	m.p = p.pos()
	if m.K == "lit" && quoted {
		for _, c := range m.V {
			switch c {
			case '"', '\\', '$', '[', ']', '{', '}', '(', ')':
				p.esc("\\"+string(c), string(c))
			case '\n':
				if p.n(2) == 0 {
					p.esc("\\n", "\n")
				} else {
					p.put("\n")
				}
			case '\t':
				p.esc("\\t", "\t")
			default:
				p.put(string(c))
			}
		}
		return
	}
	p.word(m)
}
func (p *Printer) sub(w *Word) {
	w.ps = nil
	for i := 0; i < w.N; i++ {
		w.ps = append(w.ps, p.pos())
		p.put("$")
		if i == 0 && w.X {
			p.put("*")
		}
	}
	p.word(w.Base)
	p.sels(w.Sels)
}
func (p *Printer) sels(sels []*Sel) {
	for _, s := range sels {
		s.p = p.pos()
		o, c := "[", "]"
		if s.K == "key" {
			o, c = "(", ")"
		} else if s.K == "rul" {
			o, c = "{", "}"
		}
		p.script(s.B, o, c, s.p)
	}
}

// JSON forms
type M = map[string]any

func (s *Script) Enc() M {
	ss := []any{}
	for _, st := range s.Ss {
		ws := []any{}
		for _, w := range st.Ws {
			ws = append(ws, w.Enc())
		}
		ss = append(ss, M{"p": st.p, "ws": ws})
	}
	return M{"src": s.src, "p": s.p, "ss": ss}
}
func encSels(sels []*Sel) []any {
	r := []any{}
	for _, s := range sels {
		r = append(r, M{"k": s.K, "b": s.B.id, "p": s.p})
	}
	return r
}
func (w *Word) Enc() M {
	switch w.K {
	case "lit":
		return M{"k": "lit", "v": w.V, "p": w.p}
	case "str", "cmp":
		ms := []any{}
		for _, m := range w.Ms {
			ms = append(ms, m.Enc())
		}
		return M{"k": w.K, "p": w.p, "ms": ms}
	case "tup", "blk", "exp":
		return M{"k": w.K, "b": w.B.id, "p": w.p}
	case "sub":
		return M{"k": "sub", "base": w.Base.Enc(), "ps": w.ps, "sels": encSels(w.Sels), "x": w.X, "p": w.p}
	case "qual":
		return M{"k": "qual", "base": w.Base.Enc(), "sels": encSels(w.Sels), "p": w.p}
	}
	return M{"k": w.K, "p": w.p}
}

// ItemWords are the words of a tuple.
func (w *Word) ItemWords() (r []*Word) {
	for _, s := range w.B.Ss {
		r = append(r, s.Ws...)
	}
	return
}
