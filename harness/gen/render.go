package gen

import (
	"strings"

	"verif/harness/lex"
	"verif/harness/pbt"
)

// Text of a statement with the byte span of every token.
type Src struct {
	S     string
	Toks  []Tok
	Spans [][2]int
}

// operandEnd says whether a sign after this token is a binary operator.
func operandEnd(t Tok) bool {
	switch t.K {
	case KW, Name, Num, Str, Verb:
		return true
	}
	return t.S == ")" || t.S == "]"
}

// gap tells what may stand between two neighbouring tokens.
type gap int

const (
	gapFree  gap = iota // anything, or nothing
	gapSpace            // at least one separator
	gapTight            // nothing
)

func gapBetween(prev *Tok, a, b Tok) gap {
	if (a.S == "-" || a.S == "+") && a.K == Op && b.K == Num {
		if prev != nil && operandEnd(*prev) {
			return gapFree // a binary operator either way
		}
		// a sign written against a number is part of the number there
		if prev != nil && (prev.S == "}" || prev.S == "?" || prev.S == "*") {
			return gapSpace
		}
		if a.ID%2 == 0 && b.S[0] != '.' {
			return gapTight
		}
		return gapSpace
	}
	if a.S == "." && a.K == Op && b.S != "" && b.S[0] >= '0' && b.S[0] <= '9' && (prev == nil || !operandEnd(*prev)) {
		return gapTight // in damaged text: one number
	}
	if lex.Glues(a.S, b.S) {
		return gapSpace
	}
	return gapFree
}

var trivia = []string{" ", "\n", "\t", "  ", "\r\n", " \n\t ", "/**/", "/* c */", " -- c\n", "-- c\r\n", "/* ' \" ` */", "-- ' \" `\n", "/* ; -- */", "-- /* ;\n", "/*/ */", "/* * / **/", "\n\n", "\u00a0", "\u3000", "\v", "\f", "/* a\nb */", "--\n", "/*select*/", "-- 日本\n", "/***/", "\u0085", "-- c\r"}

func render(toks []Tok, sep func(g gap, a, b *Tok) string) *Src {
	var sb strings.Builder
	src := &Src{Toks: toks}
	for i := range toks {
		if i > 0 {
			var prev *Tok
			if i > 1 {
				prev = &toks[i-2]
			}
			g := gapBetween(prev, toks[i-1], toks[i])
			s := ""
			if g != gapTight {
				s = sep(g, &toks[i-1], &toks[i])
				if strings.HasPrefix(s, "-") && strings.HasSuffix(toks[i-1].S, "-") {
					s = " " + s // --- would start the comment one character early
				}
			}
			sb.WriteString(s)
		}
		start := sb.Len()
		sb.WriteString(toks[i].S)
		src.Spans = append(src.Spans, [2]int{start, sb.Len()})
	}
	src.S = sb.String()
	return src
}

// Canonical writes tokens with conventional spacing.
func Canonical(toks []Tok) *Src {
	return render(toks, func(g gap, a, b *Tok) string {
		if g == gapSpace {
			return " "
		}
		switch b.S {
		case ",", ")", "]", ".", "::", ";":
			if b.K == Op {
				return ""
			}
		case "(", "[":
			if b.K == Op && a.K == Name {
				return ""
			}
		}
		if a.K == Op {
			switch a.S {
			case "(", "[", ".", "::", "@":
				return ""
			}
		}
		if b.K == Op && b.S == "@" {
			return ""
		}
		return " "
	})
}

// Dense writes as little white space as possible.
func Dense(toks []Tok) *Src {
	return render(toks, func(g gap, a, b *Tok) string {
		if g == gapSpace {
			return " "
		}
		return ""
	})
}

// Noisy writes random white space and comments between the tokens.
func Noisy(c *pbt.Case, toks []Tok) *Src {
	return render(toks, func(g gap, a, b *Tok) string { return Trivia(c, g == gapSpace) })
}

// Trivia draws white space and comments.
func Trivia(c *pbt.Case, need bool) string {
	s := ""
	if c.P(1, 60) {
		return comment(c)
	}
	if c.P(1, 1500) {
		return LongTrivia(c)
	}
	switch c.Weighted(6, 3, 2, 1) {
	case 0:
		s = " "
	case 1:
		if !need {
			return ""
		}
		s = "\n"
	case 2:
		s = pbt.Pick(c, trivia)
	case 3:
		n := c.Range(1, 3)
		for i := 0; i < n; i++ {
			s += pbt.Pick(c, trivia)
		}
	}
	return s
}

// comment draws a comment of random text.
func comment(c *pbt.Case) string {
	line := c.Bool()
	s := ""
	for i := c.Intn(8); i > 0; i-- {
		s += pbt.Pick(c, []string{"*", "/", "-", "--", "/*", "'", "\"", "`", "\\", "\\'", "x", " ", "SELECT", ";", "é", "日", "#", "1.5", "{", ")", "\t", "\x00", "\u2028", "\ufeff", "\xff"})
		if !line && c.P(1, 6) {
			s += pbt.Pick(c, []string{"\n", "\r\n", "\r"})
		}
	}
	if line {
		return "--" + s + pbt.Pick(c, []string{"\n", "\r\n", "\n\n", "\r"})
	}
	for strings.Contains(s, "*/") {
		s = strings.ReplaceAll(s, "*/", "")
	}
	return "/*" + s + "*/"
}

// LongTrivia draws white space or a comment of up to 70 KB.
func LongTrivia(c *pbt.Case) string {
	n := pbt.Pick(c, []int{20, 300, 5000, 70000})
	switch c.Intn(4) {
	case 0:
		return strings.Repeat(pbt.Pick(c, []string{" ", "\n", "\t", "\r\n"}), n)
	case 1:
		return "/*" + strings.Repeat(pbt.Pick(c, []string{"x", "*", "\n", "日", "- "}), n) + "*/"
	case 2:
		return "--" + strings.Repeat(pbt.Pick(c, []string{"x", "-", "/*", "日"}), n) + "\n"
	default:
		return strings.Repeat(pbt.Pick(c, []string{"/**/", "--\n", "-- x\n", "/* x */ "}), n/4)
	}
}

// Recase returns tokens with the letter case of keywords changed.
func Recase(c *pbt.Case, toks []Tok) []Tok {
	out := clone(toks)
	mode := c.Intn(4)
	for i := range out {
		if out[i].K != KW {
			continue
		}
		switch mode {
		case 0:
			out[i].S = strings.ToLower(out[i].S)
		case 1:
			out[i].S = Mixed(c, out[i].S)
		case 2:
			if c.Bool() {
				out[i].S = strings.ToLower(out[i].S)
			} else {
				out[i].S = strings.ToUpper(out[i].S)
			}
		case 3:
			if c.P(1, 6) {
				out[i].S = Mixed(c, out[i].S)
			} else {
				out[i].S = strings.ToUpper(out[i].S)
			}
		}
	}
	return out
}

// Mixed draws a random letter case.
func Mixed(c *pbt.Case, s string) string {
	b := []byte(strings.ToUpper(s))
	for i := range b {
		if c.Bool() {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}
