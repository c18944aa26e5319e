package checks

import (
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C18", Quick: 160000, Thorough: 3000000,
		Rule: "one random statement with one, some or all of its names respelled (plain, quoted, keywords that are valid there), or with one keyword put in quotes; non-trivial: at least one name differs; distinct by both texts",
		Try:  sameOrRejected,
		Run: func(c *pbt.Case) {
			b, _ := build(c)
			s1 := gen.Canonical(b.In).S
			t1 := accepted(c, s1)
			if c.P(1, 5) {
				quotedKeyword(c, b, t1)
				return
			}
			var ids []int
			at := map[int]gen.Tok{}
			for _, t := range b.In {
				if t.K == gen.Name && t.Alt {
					ids = append(ids, t.ID)
					at[t.ID] = t
				}
			}
			if len(ids) == 0 {
				c.Discard()
			}
			subst := map[int]string{}
			switch c.Intn(3) {
			case 0:
				subst[pbt.Pick(c, ids)] = ""
			case 1:
				for _, id := range ids {
					if c.P(1, 3) {
						subst[id] = ""
					}
				}
			case 2:
				for _, id := range ids {
					subst[id] = ""
				}
			}
			if len(subst) == 0 {
				c.Discard()
			}
			changed := map[string]bool{}
			for _, id := range ids {
				if _, ok := subst[id]; !ok {
					continue
				}
				t := at[id]
				s := ""
				if c.P(1, 4) && !strings.ContainsAny(t.S, "'`\"") {
					// the same name in quotes
					s = pbt.Pick(c, []string{"`", "\""})
					s = s + t.S + s
				} else {
					s = gen.Respell(c, 1000+id, t.Pos)
				}
				subst[id] = s
				changed[inner(t.S)], changed[inner(s)] = true, true
				changed[t.S], changed[s] = true, true
			}
			in, out := respell(b.In, subst), respell(b.Out, subst)
			s2 := gen.Canonical(in).S
			c.Input(s2)
			t2, err := one(s2)
			if err != nil {
				c.Fail("rejected with another name: %s", oneLine(err))
			}
			o := astx.Opt{NoKind: true, Str: func(s string) string {
				if changed[s] {
					return "NAME"
				}
				return s
			}}
			if d := astx.Diff(astx.Dump(t1, o), astx.Dump(t2, o)); d != "" {
				c.Fail("another name changes the tree %s", d)
			}
			f := p.Format(t2)
			if d := sameTokens(f, out); d != "" {
				c.Fail("%s\nformatted: %q", d, f)
			}
			c.NonTrivial = s1 != s2
		},
	})
}

// quotedKeyword puts one keyword in quotes: it is a name then.
func quotedKeyword(c *pbt.Case, b *gen.B, t1 p.Expr) {
	c.Label("quoted keyword")
	i := pickTok(c, b.In, func(t gen.Tok) bool { return t.K == gen.KW })
	if i < 0 {
		c.Discard()
	}
	toks := append([]gen.Tok{}, b.In...)
	q := pbt.Pick(c, []string{"`", "\""})
	toks[i].S = q + toks[i].S + q
	toks[i].K = gen.Name
	s := gen.Canonical(toks).S
	c.Input(s)
	c.NonTrivial = true
	t2, err := one(s)
	if err != nil {
		return
	}
	if dump(t1) == dump(t2) {
		c.Fail("the quoted word %s is read as a keyword", toks[i].S)
	}
	f := p.Format(t2)
	n1, n2 := 0, 0
	for _, t := range toks {
		if t.S == toks[i].S {
			n1++
		}
	}
	for _, t := range tokensOf(f) {
		if t == toks[i].S {
			n2++
		}
	}
	if n2 < n1 {
		c.Fail("the quoted word %s is accepted and not printed as a name; formatted %q", toks[i].S, f)
	}
}
