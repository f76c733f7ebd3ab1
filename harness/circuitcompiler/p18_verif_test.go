package circuitcompiler

import (
	"fmt"
	"strings"
	"testing"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

var v18alphabet = []Token{
	{Type: SyntaxToken, Identifier: "("}, {Type: SyntaxToken, Identifier: ")"},
	{Type: SyntaxToken, Identifier: "["}, {Type: SyntaxToken, Identifier: "]"},
	{Type: SyntaxToken, Identifier: ","}, {Type: SyntaxToken, Identifier: "{"}, {Type: SyntaxToken, Identifier: "}"},
	{Type: SyntaxToken, Identifier: "\n"}, {Type: SyntaxToken, Identifier: ";"},
	{Type: IDENTIFIER_VARIABLE, Identifier: "a"}, {Type: NumberToken, Identifier: "7"},
	{Type: ArithmeticOperatorToken, Identifier: "*"}, {Type: ArithmeticOperatorToken, Identifier: "+"},
	{Type: AssignmentOperatorToken, Identifier: "="}, {Type: BooleanOperatorToken, Identifier: "&&"},
	{Type: BinaryComperatorToken, Identifier: "=="}, {Type: BitOperatorToken, Identifier: ">>"},
}

func v18show(in []Token) string {
	var s []string
	for _, t := range in {
		s = append(s, t.Identifier)
	}
	return fmt.Sprintf("%q", strings.Join(s, " "))
}
func v18eq(a, b []Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// nesting depth after the first n tokens
func v18dp(in []Token, n int, pairs ...string) (d int) {
	for _, t := range in[:n] {
		for _, p := range pairs {
			if t.Identifier == p[:1] {
				d++
			}
			if t.Identifier == p[1:] {
				d--
			}
		}
	}
	return
}

func v18closing(in []Token, o, c string) (at int) {
	d := 1
	if in[0].Identifier == o {
		d = 0
	}
	for i, t := range in {
		if t.Identifier == o {
			d++
		}
		if t.Identifier == c {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}
func v18surrounded(in []Token) bool {
	return len(in) > 0 && in[0].Identifier == "(" && v18closing(in, "(", ")") == len(in)-1
}

func v18cut(h *vh.H, what string, in []Token, want int, l, r []Token, keep bool) {
	// want: position of the cut, -1 for none; keep: the separator stays at the head of the right part
	if want < 0 {
		h.Check(v18eq(l, in) && len(r) == 0, what+" without separator", "%s: in=%s left=%s right=%s", what, v18show(in), v18show(l), v18show(r))
		return
	}
	n := want + 1
	if keep {
		n = want
	}
	h.Check(v18eq(l, in[:want]) && v18eq(r, in[n:]), what+" at the right place", "%s: in=%s expected a cut at token %d, left=%s right=%s", what, v18show(in), want, v18show(l), v18show(r))
}

func v18one(h *vh.H, in []Token) {
	snap := append([]Token{}, in...)
	for _, s := range []string{",", "(", ")", "*", "\n", "{"} {
		first, high := -1, -1
		for i, t := range in {
			if t.Identifier == s {
				if first < 0 {
					first = i
				}
				if high < 0 && v18dp(in, i+1, "()", "[]") == 0 {
					high = i
				}
			}
		}
		l, r := splitTokensAtFirstString(in, s)
		v18cut(h, "splitTokensAtFirstString", in, first, l, r, true)
		if s != "(" && s != ")" {
			l, r = splitAtFirstHighestStringType(in, s)
			v18cut(h, "splitAtFirstHighestStringType", in, high, l, r, false)
			h.Check((r == nil) == (high < 0 || high == len(in)-1), "nil rest", "splitAtFirstHighestStringType(%s,%q): rest nil=%v", v18show(in), s, r == nil)
		}
	}
	for _, ty := range []TokenType{Operator, ArithmeticOperatorToken, SyntaxToken, IDENTIFIER_VARIABLE, BooleanOperatorToken | BitOperatorToken} {
		first, high := -1, -1
		for i, t := range in {
			if first < 0 && t.Type == ty {
				first = i
			}
			if high < 0 && t.Type&ty != 0 && v18dp(in, i+1, "()") == 0 && v18dp(in, i+1, "[]") == 0 {
				high = i
			}
		}
		l, tok, r := splitAtFirstHighestTokenType(in, ty)
		if high < 0 {
			h.Check(len(l) == 0 && len(r) == 0 && tok.Type == 0, "no operator", "splitAtFirstHighestTokenType(%s): left=%s tok=%q right=%s", v18show(in), v18show(l), tok.Identifier, v18show(r))
		} else {
			v18cut(h, "splitAtFirstHighestTokenType", in, high, l, r, false)
			h.Check(tok == in[high], "operator", "splitAtFirstHighestTokenType(%s) returns operator %q", v18show(in), tok.Identifier)
		}
		l, tok, r = SplitAtFirstTokenType(in, ty)
		if first < 0 {
			h.Check(len(l) == 0 && len(r) == 0 && tok.Type == 0, "no token of the type", "SplitAtFirstTokenType(%s): left=%s tok=%q right=%s", v18show(in), v18show(l), tok.Identifier, v18show(r))
		} else {
			v18cut(h, "SplitAtFirstTokenType", in, first, l, r, false)
			h.Check(tok == in[first], "token", "SplitAtFirstTokenType(%s) returns token %q", v18show(in), tok.Identifier)
		}
	}
	if len(in) > 0 {
		for i, f := range []func([]Token) ([]Token, []Token, bool){splitAtClosingBrackets, splitAtClosingSquareBrackets, splitAtClosingSwingBrackets} {
			p := []string{"()", "[]", "{}"}[i]
			l, r, ok := f(in)
			at := v18closing(in, p[:1], p[1:])
			if at < 0 {
				h.Check(!ok && l == nil && r == nil, "unclosed "+p, "cut at closing %s of %s: left=%s right=%s success=%v", p[1:], v18show(in), v18show(l), v18show(r), ok)
				continue
			}
			s := 0
			if in[0].Identifier == p[:1] {
				s = 1
			}
			h.Check(ok && v18eq(l, in[s:at]) && v18eq(r, in[at+1:]), "closing "+p, "cut at closing %s of %s: left=%s right=%s success=%v", p[1:], v18show(in), v18show(l), v18show(r), ok)
		}
	}
	h.Check(isSurroundedByBrackets(in) == v18surrounded(in), "surrounded", "isSurroundedByBrackets(%s)=%v", v18show(in), isSurroundedByBrackets(in))
	x := in
	for v18surrounded(x) {
		x = x[1 : len(x)-1]
	}
	h.Check(v18eq(stripOfBrackets(in), x), "strip", "stripOfBrackets(%s)=%s", v18show(in), v18show(stripOfBrackets(in)))
	a, b := 0, len(in)
	for a < b && in[a].Identifier == "\n" {
		a++
	}
	for b > a && in[b-1].Identifier == "\n" {
		b--
	}
	h.Check(v18eq(removeLeadingBreaks(in), in[a:]), "leading breaks", "removeLeadingBreaks(%s)=%s", v18show(in), v18show(removeLeadingBreaks(in)))
	e := b
	if a == len(in) {
		e = 0
	}
	h.Check(v18eq(removeTrailingBreaks(in), in[:e]), "trailing breaks", "removeTrailingBreaks(%s)=%s", v18show(in), v18show(removeTrailingBreaks(in)))
	h.Check(v18eq(removeLeadingAndTrailingBreaks(in), in[a:b]), "both breaks", "removeLeadingAndTrailingBreaks(%s)=%s", v18show(in), v18show(removeLeadingAndTrailingBreaks(in)))
	h.Check(v18eq(in, snap), "input unchanged", "the input list %s was changed", v18show(snap))
}

func TestVerif_P18(t *testing.T) {
	vh.Run(t, "P18", func(h *vh.H) {
		h.Phase("all short token lists", 0.45)
		sub := []Token{v18alphabet[0], v18alphabet[1], v18alphabet[2], v18alphabet[3], v18alphabet[4], v18alphabet[7], v18alphabet[9], v18alphabet[11]}
		var words [][]int
		cur := [][]int{{}}
		for n := 0; n <= 5; n++ {
			words = append(words, cur...)
			var next [][]int
			for _, w := range cur {
				for c := range sub {
					next = append(next, append(append([]int{}, w...), c))
				}
			}
			cur = next
		}
		for k := 0; h.More(len(words)) && k < len(words); k++ {
			in := make([]Token, len(words[k]))
			for i, c := range words[k] {
				in[i] = sub[c]
			}
			h.Case(len(in) > 1, "%s", v18show(in))
			v18one(h, in)
		}
		h.Phase("random token lists", 0.3)
		for h.More(2000) {
			in := make([]Token, h.Intn(30))
			k := 2 + h.Intn(len(v18alphabet)-1)
			p := h.R.Perm(len(v18alphabet))[:k]
			for i := range in {
				in[i] = v18alphabet[p[h.Intn(k)]]
			}
			h.Case(true, "%s", v18show(in))
			v18one(h, in)
		}
		h.Phase("random balanced token lists", 0.25)
		for h.More(2000) {
			var in []Token
			var gen func(d int)
			gen = func(d int) {
				for n := h.Intn(4); n >= 0; n-- {
					switch c := h.Intn(8); {
					case c < 3 && d > 0:
						b := h.Intn(3)
						if b == 2 {
							b = 0
						}
						in = append(in, v18alphabet[2*b])
						if h.Intn(6) > 0 {
							gen(d - 1)
						}
						in = append(in, v18alphabet[2*b+1])
					case c < 4:
						in = append(in, v18alphabet[4])
					default:
						in = append(in, v18alphabet[7+h.Intn(len(v18alphabet)-7)])
					}
				}
			}
			gen(1 + h.Intn(7))
			h.Case(true, "%s", v18show(in))
			v18one(h, in)
		}
	})
}
