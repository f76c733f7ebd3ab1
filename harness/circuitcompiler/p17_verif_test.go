package circuitcompiler

import (
	"fmt"
	"strings"
	"testing"
	"time"

	vh "github.com/mottla/go-AlgebraicProgram-SNARK/vharness"
)

// v17lex is the lexical grammar, written down independently of the lexer:
// tokens in order, and whether the text ends in something that is no token.
func v17lex(src string) (toks []Token, bad bool) {
	two := map[string]TokenType{"-=": AssignmentOperatorToken, "+=": AssignmentOperatorToken, "*=": AssignmentOperatorToken, "/=": AssignmentOperatorToken,
		"||": BooleanOperatorToken, "&&": BooleanOperatorToken, ">>": BitOperatorToken, "<<": BitOperatorToken,
		"==": BinaryComperatorToken, "!=": BinaryComperatorToken, ">=": BinaryComperatorToken, "<=": BinaryComperatorToken}
	one := map[string]TokenType{"=": AssignmentOperatorToken, "-": ArithmeticOperatorToken, "+": ArithmeticOperatorToken, "*": ArithmeticOperatorToken, "/": ArithmeticOperatorToken,
		">": BinaryComperatorToken, "<": BinaryComperatorToken}
	words := map[string]TokenType{"return": RETURN, "var": VARIABLE_DECLARE, "if": IF, "else": ELSE, "for": FOR, "func": FUNCTION_DEFINE, "import": IMPORT, "public": PUBLIC}
	r := []rune(src)
	i := 0
	digit := func(k int) bool { return k < len(r) && r[k] >= '0' && r[k] <= '9' }
	word := func(k int) bool {
		return digit(k) || k < len(r) && (r[k] >= 'a' && r[k] <= 'z' || r[k] >= 'A' && r[k] <= 'Z' || r[k] == '_')
	}
	put := func(t TokenType, n int) {
		toks = append(toks, Token{Type: t, Identifier: string(r[i : i+n])})
		i += n
	}
	for i < len(r) {
		switch {
		case r[i] == ' ' || r[i] == '\t' || r[i] == '\r':
			i++
		case digit(i):
			n := 1
			for digit(i + n) {
				n++
			}
			put(NumberToken, n)
		case strings.ContainsRune("():,;\n{}[]", r[i]):
			if r[i] == '\n' && len(toks) > 0 && toks[len(toks)-1].Identifier == "\n" {
				i++
				continue
			}
			put(SyntaxToken, 1)
		case r[i] == '"':
			n := 0
			for i+1+n < len(r) && r[i+1+n] != '"' {
				n++
			}
			if i+1+n == len(r) {
				return toks, true
			}
			i++
			put(IDENTIFIER_VARIABLE, n)
			i++
		case r[i] == '#':
			n := 1
			for i+n < len(r) && r[i+n] != '\n' {
				n++
			}
			put(CommentToken, n)
		case i+1 < len(r) && two[string(r[i:i+2])] != 0:
			put(two[string(r[i:i+2])], 2)
		case one[string(r[i])] != 0:
			put(one[string(r[i])], 1)
		case word(i):
			n := 1
			for word(i + n) {
				n++
			}
			if t, ex := words[string(r[i:i+n])]; ex {
				put(t, n)
			} else if i+n < len(r) && r[i+n] == '(' {
				put(FUNCTION_CALL, n)
			} else {
				put(IDENTIFIER_VARIABLE, n)
			}
		default:
			return toks, true
		}
	}
	return toks, false
}

func v17source(h *vh.H) string {
	frag := []string{"a", "foo", "x1", "_", "a_b", "var", "func", "return", "if", "else", "for", "import", "public", "returns", "iff", "0", "7", "1234567890123456789012345678901234567890",
		"(", ")", "[", "]", "{", "}", ",", ";", ":", "\n", "\n\n", "\n \n", " ", "  ", "\t", "\r\n", "\r", "=", "==", "!=", ">=", "<=", "<", ">", ">>", "<<", "+", "-", "*", "/", "+=", "-=", "*=", "/=", "&&", "||",
		"#c", "# a b(c)\n", "#", "\"s\"", "\"\"", "\"a b/\n#c\"", "# \"x\" ä€\n"}
	odd := []string{"!", "&", "|", "$", "%", "\"", "ä", "€", "𝔸", ".", "'", "\\", "\x00", "\uFFFD", "\"ä€𝔸\"", "\v", "\u00a0", "@", "\"open", "\uFEFF"}
	var b strings.Builder
	o := h.Intn(3)
	for n := h.Intn(14); n >= 0; n-- {
		if o == 0 && h.Intn(8) == 0 {
			b.WriteString(odd[h.Intn(len(odd))])
			continue
		}
		b.WriteString(frag[h.Intn(len(frag))])
		if h.Intn(4) == 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

func v17show(t []Token) string {
	var s []string
	for _, x := range t {
		s = append(s, fmt.Sprintf("%d:%q", x.Type, x.Identifier))
	}
	return strings.Join(s, " ")
}

func v17case(h *vh.H, src string) {
	want, bad := v17lex(src)
	h.Case(len(want) > 0, "source %q", src)
	var got []Token
	reported := ""
	l := New(src, ProbablyWhitespaceState)
	l.ErrorHandler = func(e string) { reported = e }
	h.Timed(5*time.Second, "termination", func() {
		l.Start()
		for {
			tok, done := l.NextToken()
			if done {
				return
			}
			got = append(got, *tok)
			if len(got) > len(src)+5 {
				h.Fail("endless", "more tokens than characters: %s", v17show(got[:10]))
			}
		}
	})
	h.Check((reported != "") == bad, "error", "error %q, expected one: %v (tokens %s)", reported, bad, v17show(got))
	same := len(got) == len(want)
	for i := range want {
		same = same && got[i] == want[i]
	}
	h.Check(same, "tokens", "got %s, wanted %s", v17show(got), v17show(want))
}

func TestVerif_P17(t *testing.T) {
	vh.Run(t, "P17", func(h *vh.H) {
		h.Phase("all texts of up to three characters over the significant ones", 0.3)
		al := "a0_ \t\n()=!>&|+-/#\"$ä"
		rs := []rune(al)
		v17case(h, "")
		for l := 1; l <= 3; l++ {
			idx := make([]int, l)
			for done := false; !done; {
				s := make([]rune, l)
				for i, x := range idx {
					s[i] = rs[x]
				}
				v17case(h, string(s))
				done = true
				for i := 0; i < l; i++ {
					if idx[i]++; idx[i] < len(rs) {
						done = false
						break
					}
					idx[i] = 0
				}
			}
		}
		h.Phase("random texts", 0.6)
		for h.More(200) {
			v17case(h, v17source(h))
		}
	})
}
