package checks

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func parse(s string) ([]p.Expr, error) { return p.NewParser(s).ParseStmts() }

// one parses s, which must hold exactly one statement.
func one(s string) (p.Expr, error) {
	st, err := parse(s)
	if err != nil {
		return nil, err
	}
	if len(st) != 1 {
		return nil, fmt.Errorf("%d statements", len(st))
	}
	return st[0], nil
}

func oneLine(err error) string {
	return strings.SplitN(err.Error(), "\n", 2)[0]
}

func beautify(n p.Expr, indent string) string {
	f := p.NewFormatter().WithBeautify().WithIndent(indent)
	f.WriteExpr(n)
	return f.String()
}

// options draws generator options.
func options(c *pbt.Case) gen.Options {
	o := gen.Options{MaxDepth: c.Weighted(1, 4, 4, 2) + 1}
	switch c.Weighted(6, 1, 1, 1) {
	case 1:
		o.OpHeavy = true
	case 2:
		o.PlainName = true
	case 3:
		o.WeirdLit = true
	}
	return o
}

// build draws one statement.
func build(c *pbt.Case) (*gen.B, string) {
	b := gen.New(c, options(c))
	kind := b.Statement()
	for f := range b.Feat {
		c.Label(f)
	}
	return b, kind
}

// accepted parses generated text, which the grammar says is valid.
func accepted(c *pbt.Case, s string) p.Expr {
	c.Input(s)
	n, err := one(s)
	if err != nil {
		c.Fail("valid statement rejected: %s", oneLine(err))
	}
	return n
}

func isSpaceOnly(s string) bool { return strings.TrimSpace(s) == "" }

// sameTokens compares the tokens of a text with the expected ones. Keywords are
// compared without case.
func sameTokens(text string, want []gen.Tok) string {
	got, ok := lex.Tokens(text)
	if !ok {
		return fmt.Sprintf("output holds no token at %q", tail(text, got))
	}
	var exp []lex.Tok
	kw := []bool{}
	for _, t := range want {
		if t.K == gen.Num {
			ts, _ := lex.Tokens(t.S)
			for _, x := range ts {
				exp = append(exp, x)
				kw = append(kw, false)
			}
			continue
		}
		exp = append(exp, lex.Tok{S: t.S})
		kw = append(kw, t.K == gen.KW)
	}
	for i := 0; i < len(got) || i < len(exp); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("token %q is missing at the end", exp[i].S)
		case i >= len(exp):
			return fmt.Sprintf("extra token %q at the end", got[i].S)
		case got[i].S == exp[i].S, kw[i] && strings.EqualFold(got[i].S, exp[i].S):
		default:
			return fmt.Sprintf("token %d is %q, expected %q (after %s)", i, got[i].S, exp[i].S, around(exp, i))
		}
	}
	return ""
}

func around(ts []lex.Tok, i int) string {
	lo := i - 5
	if lo < 0 {
		lo = 0
	}
	var out []string
	for _, t := range ts[lo:i] {
		out = append(out, t.S)
	}
	return strings.Join(out, " ")
}

func tail(text string, got []lex.Tok) string {
	if len(got) == 0 {
		return text
	}
	s := got[len(got)-1].S
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// dump writes a tree without positions; the keyword CAST keeps as it was
// written counts without case.
func dump(n p.Expr) string { return astx.Dump(n, astx.Opt{Str: foldAs}) }

func foldAs(s string) string {
	if strings.EqualFold(s, "as") {
		return "AS"
	}
	return s
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func tokensOf(s string) []string {
	ts, _ := lex.Tokens(s)
	var out []string
	for _, t := range ts {
		out = append(out, t.S)
	}
	return out
}
