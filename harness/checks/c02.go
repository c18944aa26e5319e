package checks

import (
	"fmt"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C02", Quick: 100000, Thorough: 3000000,
		Rule: "one random statement of any kind from the statement grammar (all clauses optional, random names, literals, expressions); non-trivial: accepted by the parser, at least 8 tokens; distinct by text",
		Run: func(c *pbt.Case) {
			if c.P(1, 4) {
				s, st := loose(c)
				for _, n := range st {
					if movedName(s, n) {
						continue
					}
					if msg := roundTrip(n); msg != "" {
						c.Fail("%s", msg)
					}
				}
				c.NonTrivial = len(tokensOf(s)) >= 8
				return
			}
			b, _ := build(c)
			everyAccepted(c, b, 40, func(s string, st []p.Expr) string {
				for _, n := range st {
					if movedName(s, n) {
						continue
					}
					if msg := roundTrip(n); msg != "" {
						return msg
					}
				}
				return ""
			})
			src := gen.Canonical(b.In)
			n := accepted(c, src.S)
			if msg := roundTrip(n); msg != "" {
				c.Fail("%s", msg)
			}
			c.NonTrivial = len(b.In) >= 8
		},
		Try: func(kind, in string) string {
			st, err := parse(in)
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			for _, n := range st {
				if msg := roundTrip(n); msg != "" {
					return msg
				}
			}
			return ""
		},
	})
}

func roundTrip(n p.Expr) string {
	f := p.Format(n)
	n2, err := one(f)
	if err != nil {
		return fmt.Sprintf("formatted text does not parse: %s\nformatted: %q", oneLine(err), f)
	}
	if d := astx.Diff(dump(n), dump(n2)); d != "" {
		return fmt.Sprintf("re-parsed tree differs %s\nformatted: %q", d, f)
	}
	if f2 := p.Format(n2); f2 != f {
		return fmt.Sprintf("formatting again differs: %q then %q", f, f2)
	}
	return ""
}
