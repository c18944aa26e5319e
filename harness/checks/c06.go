package checks

import (
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C06", Quick: 200000, Thorough: 3000000,
		Rule: "one random statement (one in four damaged at token level) written with conventional spacing and again with random white space and comments between, before and after its tokens, or with as little as possible; non-trivial: at least 8 tokens; distinct by both texts",
		Try:  sameOrRejected,
		Run: func(c *pbt.Case) {
			if c.P(1, 4) {
				anySpacing(c)
				return
			}
			b, _ := build(c)
			toks := b.In
			bad := c.P(1, 4)
			if bad {
				toks = damage(c, toks)
				c.Label("damaged")
			}
			s1 := gen.Canonical(toks).S
			var s2 string
			if c.P(1, 4) {
				s2 = gen.Dense(toks).S
				c.Label("dense")
			} else {
				s2 = gen.Trivia(c, false) + gen.Noisy(c, toks).S
				if strings.HasSuffix(s2, "-") {
					s2 += " " // --- would start a comment one character early
				}
				s2 += gen.Trivia(c, false)
				// a line comment may also end with the input
				if c.P(1, 8) {
					if strings.HasSuffix(s2, "-") {
						s2 += " "
					}
					s2 += pbt.Pick(c, []string{"-- end", "--", "/* end */", "-- /*"})
				}
			}
			c.Input(s1)
			c.Input(s2)
			t1, err1 := parse(s1)
			if err1 != nil && !bad {
				c.Fail("valid statement rejected: %s", oneLine(err1))
			}
			t2, err2 := parse(s2)
			if (err1 == nil) != (err2 == nil) {
				e := err1
				if e == nil {
					e = err2
				}
				c.Fail("white space decides whether it is accepted: first %v, second %v (%s)", verdict(err1), verdict(err2), oneLine(e))
			}
			if err1 != nil {
				c.Label("rejected")
			}
			sameTrees(c, t1, t2)
			c.NonTrivial = len(toks) >= 8
		},
	})
}

func verdict(err error) string {
	if err == nil {
		return "accepted"
	}
	return "rejected"
}

// anySpacing respaces any text, accepted or not.
func anySpacing(c *pbt.Case) {
	s1 := anyText(c)
	ts, ok := pieces(s1)
	if !ok {
		c.Discard()
	}
	s2 := respace(c, ts)
	c.Input(s1)
	c.Input(s2)
	c.Label("any text")
	t1, err1 := parse(s1)
	t2, err2 := parse(s2)
	if (err1 == nil) != (err2 == nil) {
		e := err1
		if e == nil {
			e = err2
		}
		c.Fail("white space decides whether it is accepted: first %v, second %v (%s)", verdict(err1), verdict(err2), oneLine(e))
	}
	sameTrees(c, t1, t2)
	c.NonTrivial = len(ts) >= 8
}

func sameTrees(c *pbt.Case, t1, t2 []p.Expr) {
	if len(t1) != len(t2) {
		c.Fail("%d and %d statements", len(t1), len(t2))
	}
	for i := range t1 {
		if d := astx.Diff(dump(t1[i]), dump(t2[i])); d != "" {
			c.Fail("white space changes the tree %s", d)
		}
		if f1, f2 := p.Format(t1[i]), p.Format(t2[i]); f1 != f2 {
			c.Fail("white space changes the formatted text: %q and %q", f1, f2)
		}
	}
}
