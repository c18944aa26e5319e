package checks

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

var indents = []string{"  ", "\t", "", " ", "    ", "\n", "\r\n", " \t", "\n  ", "\v", "          "}

func init() {
	register(&Check{
		ID: "C03", Quick: 90000, Thorough: 3000000,
		Rule: "one random statement formatted compactly and beautified with a random white-space indent; non-trivial: beautified text has a line break, at least 8 tokens; distinct by text",
		Run: func(c *pbt.Case) {
			if c.P(1, 4) {
				s, st := loose(c)
				indent := pbt.Pick(c, indents)
				for _, n := range st {
					if movedName(s, n) {
						continue
					}
					if msg := beautified(n, indent, levels(c)); msg != "" {
						c.Fail("indent %q: %s", indent, msg)
					}
				}
				c.NonTrivial = len(tokensOf(s)) >= 8
				return
			}
			b, _ := build(c)
			everyAccepted(c, b, 40, func(s string, st []p.Expr) string {
				for _, n := range st {
					if movedName(s, n) {
						continue
					}
					if msg := beautified(n, "  ", 1); msg != "" {
						return msg
					}
				}
				return ""
			})
			src := gen.Canonical(b.In)
			n := accepted(c, src.S)
			indent := pbt.Pick(c, indents)
			c.Label(fmt.Sprintf("indent %q", indent))
			if msg := beautified(n, indent, levels(c)); msg != "" {
				c.Fail("indent %q: %s", indent, msg)
			}
			c.NonTrivial = len(b.In) >= 8 && strings.Contains(beautify(n, indent), "\n")
		},
		Try: func(kind, in string) string {
			st, err := parse(in)
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			for _, n := range st {
				for _, indent := range indents {
					if msg := beautified(n, indent, 1); msg != "" {
						return msg
					}
				}
			}
			return ""
		},
	})
}

func beautified(n p.Expr, indent string, level int) string {
	compact := p.Format(n)
	f := p.NewFormatter()
	f.WriteExpr(n)
	if f.String() != compact {
		return fmt.Sprintf("Format gives %q, NewFormatter %q", compact, f.String())
	}
	f = p.NewFormatter().WithIndent(indent)
	f.WriteExpr(n)
	if f.String() != compact {
		return fmt.Sprintf("an indent without beautify changes the text: %q, compact %q", f.String(), compact)
	}
	pretty := beautify(n, indent)
	f = p.NewFormatter().WithIndent(indent).WithBeautify()
	f.WriteExpr(n)
	if f.String() != pretty {
		return fmt.Sprintf("the order of WithIndent and WithBeautify matters: %q, %q", f.String(), pretty)
	}
	if d := tokenDiff(compact, pretty); d != "" {
		return fmt.Sprintf("%s\ncompact: %q\nbeautified: %q", d, compact, pretty)
	}
	if !multiline(pretty) && !strings.ContainsAny(indent, "\n\r") {
		f = p.NewFormatter().WithBeautify().WithIndent(indent)
		f.WriteExpr(n)
		f.Break()
		for i := 0; i < level; i++ {
			f.Indent()
		}
		f.WriteExpr(n)
		f.Break()
		for i := 0; i < level; i++ {
			f.Dedent()
		}
		f.WriteExpr(n)
		lines := strings.Split(pretty, "\n")
		for i, l := range lines {
			if l != "" {
				lines[i] = strings.Repeat(indent, level) + l
			}
		}
		if want := pretty + "\n" + strings.Join(lines, "\n") + "\n" + pretty; f.String() != want {
			return fmt.Sprintf("indented %d levels more, and then not, the statement is %q instead of %q", level, f.String(), want)
		}
	}
	n2, err := one(pretty)
	if err != nil {
		return fmt.Sprintf("beautified text does not parse: %s\nbeautified: %q", oneLine(err), pretty)
	}
	if d := astx.Diff(dump(n), dump(n2)); d != "" {
		return fmt.Sprintf("beautified text parses to another tree %s\nbeautified: %q", d, pretty)
	}
	if again := beautify(n2, indent); again != pretty {
		return fmt.Sprintf("beautifying again differs: %q then %q", pretty, again)
	}
	return ""
}

func levels(c *pbt.Case) int { return pbt.Pick(c, []int{1, 1, 2, 3, 5, 9, 17, 33, 70}) }

// multiline tells whether a token of a text holds a line break.
func multiline(s string) bool {
	for _, t := range tokensOf(s) {
		if strings.Contains(t, "\n") {
			return true
		}
	}
	return false
}

// tokenDiff compares the tokens of two texts byte for byte.
func tokenDiff(a, b string) string {
	ta, oka := lex.Tokens(a)
	tb, okb := lex.Tokens(b)
	if !oka || !okb {
		return "the text holds something that is no token"
	}
	for i := 0; i < len(ta) || i < len(tb); i++ {
		switch {
		case i >= len(ta):
			return fmt.Sprintf("extra token %q", tb[i].S)
		case i >= len(tb):
			return fmt.Sprintf("token %q is missing", ta[i].S)
		case ta[i].S != tb[i].S:
			return fmt.Sprintf("token %d is %q, in the compact text %q", i, tb[i].S, ta[i].S)
		}
	}
	return ""
}
