package checks

import (
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C07", Quick: 200000, Thorough: 3000000,
		Rule: "one random statement (one in four damaged at token level) and the same one with the letter case of its keywords changed at random; non-trivial: at least 3 keywords differ; distinct by both texts",
		Try:  sameOrRejected,
		Run: func(c *pbt.Case) {
			if c.P(1, 4) {
				anyCase(c)
				return
			}
			b, _ := build(c)
			toks := b.In
			bad := c.P(1, 4)
			if bad {
				toks = damage(c, toks)
				c.Label("damaged")
			}
			re := gen.Recase(c, toks)
			s1, s2 := gen.Canonical(toks).S, gen.Canonical(re).S
			c.Input(s1)
			c.Input(s2)
			t1, err1 := parse(s1)
			if err1 != nil && !bad {
				c.Fail("valid statement rejected: %s", oneLine(err1))
			}
			t2, err2 := parse(s2)
			if (err1 == nil) != (err2 == nil) {
				e := err1
				if e == nil {
					e = err2
				}
				c.Fail("letter case decides whether it is accepted: first %v, second %v (%s)", verdict(err1), verdict(err2), oneLine(e))
			}
			if err1 != nil {
				c.Label("rejected")
			}
			if len(t1) != len(t2) {
				c.Fail("%d and %d statements", len(t1), len(t2))
			}
			kws := map[string]bool{}
			for _, t := range toks {
				if t.K == gen.KW {
					kws[strings.ToLower(t.S)] = true
				}
			}
			fold := astx.Opt{At: func(at, s string) string {
				if !verbatim[at] {
					return s
				}
				for _, w := range strings.Fields(s) {
					if !kws[strings.ToLower(w)] {
						return s
					}
				}
				return strings.ToLower(s)
			}}
			for i := range t1 {
				if d := astx.Diff(astx.Dump(t1[i], fold), astx.Dump(t2[i], fold)); d != "" {
					c.Fail("letter case changes the tree %s", d)
				}
				if !bad {
					f := p.Format(t2[i])
					if d := sameTokens(f, b.Out); d != "" {
						c.Fail("letter case changes the output: %s\nformatted: %q", d, f)
					}
				}
			}
			diff := 0
			for i := range toks {
				if toks[i].S != re[i].S {
					diff++
				}
			}
			c.NonTrivial = diff >= 3
		},
	})
}

// anyCase changes the case of the keywords (and of names spelled like one) in
// any text, accepted or not.
func anyCase(c *pbt.Case) {
	s1 := anyText(c)
	ts, ok := lex.Tokens(s1)
	if !ok {
		c.Discard()
	}
	b := []byte(s1)
	n := 0
	mode := c.Intn(4)
	for _, t := range ts {
		if t.K != lex.Word || !isWord[strings.ToUpper(t.S)] || c.P(1, 4) {
			continue
		}
		w := t.S
		switch mode {
		case 0:
			w = strings.ToLower(w)
		case 1:
			w = strings.ToUpper(w)
		case 2:
			w = strings.ToUpper(w[:1]) + strings.ToLower(w[1:])
		default:
			x := []byte(w)
			for i := range x {
				if c.Bool() {
					x[i] ^= 0x20
				}
			}
			if strings.EqualFold(string(x), w) {
				w = string(x)
			}
		}
		if w != t.S {
			copy(b[t.Start:], w)
			n++
		}
	}
	s2 := string(b)
	c.Input(s1)
	c.Input(s2)
	c.Label("any text")
	t1, err1 := parse(s1)
	t2, err2 := parse(s2)
	if (err1 == nil) != (err2 == nil) {
		e := err1
		if e == nil {
			e = err2
		}
		c.Fail("letter case decides whether it is accepted: first %v, second %v (%s)", verdict(err1), verdict(err2), oneLine(e))
	}
	if len(t1) != len(t2) {
		c.Fail("%d and %d statements", len(t1), len(t2))
	}
	fold := astx.Opt{Pos: true, At: func(at, s string) string {
		if !verbatim[at] {
			return s
		}
		return strings.ToLower(s)
	}}
	for i := range t1 {
		if d := astx.Diff(astx.Dump(t1[i], fold), astx.Dump(t2[i], fold)); d != "" {
			c.Fail("letter case changes the tree %s", d)
		}
		if f1, f2 := p.Format(t1[i]), p.Format(t2[i]); !strings.EqualFold(f1, f2) {
			c.Fail("letter case changes the output: %q and %q", f1, f2)
		}
	}
	c.NonTrivial = n >= 3
}

// verbatim lists the fields that keep the spelling of a keyword, or of a name
// or literal that may be one.
var verbatim = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`JoinExpr.Modifiers Ident.Name CastExpr.Separator PrivilegeClause.Keywords
		GroupByClause.AggregateType WindowFrameClause.Type DropUserOrRole.Target HostClause.HostType
		GrantPrivilegeStmt.WithOptions RefreshExpr.Frequency ExplainStmt.Type WindowFrameUnbounded.Direction
		WindowFrameParam.Direction WindowFrameNumber.Direction WindowFrameExtendExpr.Direction
		CreateMaterializedView.SQLSecurity SystemDropExpr.Type BoolLiteral.Literal EngineExpr.Name
		StringLiteral.Literal AuthenticationClause.AuthType`) {
		m[w] = true
	}
	return m
}()
