package checks

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C05", Quick: 80000, Thorough: 3000000,
		Rule: "one random statement of any kind, two thirds of them with expressions made mostly of operators; the grouping in the tree is compared with the grouping the generator built from the documented table, for every expression of the statement, and again with parentheses added around random operands of one expression; non-trivial: some expression has at least two operators; distinct by text",
		// two spellings of an expression, with ~ between them, that group alike
		Try: func(kind, in string) string {
			var g []string
			for _, x := range strings.Split(in, " ~ ") {
				st, err := one("SELECT " + x)
				if err != nil {
					return oneLine(err)
				}
				q, ok := st.(*p.SelectQuery)
				if !ok || len(q.SelectItems) != 1 {
					return "no query of one item"
				}
				g = append(g, astx.GroupBare(q.SelectItems[0].Expr))
			}
			for _, x := range g[1:] {
				if x != g[0] {
					return fmt.Sprintf("groups as %s, with parentheses as %s", g[0], x)
				}
			}
			return ""
		},
		Run: func(c *pbt.Case) {
			o := options(c)
			if c.P(2, 3) {
				o.OpHeavy = true
				o.MaxDepth = c.Range(3, 6)
			}
			b := gen.New(c, o)
			if c.P(1, 4) {
				b.Statement()
			} else {
				b.StatementOf("select")
			}
			for f := range b.Feat {
				c.Label(f)
			}
			src := gen.Canonical(b.In)
			n := accepted(c, src.S)
			got := groups(n, astx.Group)
			for _, s := range b.Exprs {
				k := s.E.Ops()
				c.Label(fmt.Sprintf("%d operators", min(k, 9)))
				if k >= 2 {
					c.NonTrivial = true
				}
				want := strings.ToLower(s.E.String())
				if !got[want] {
					c.Fail("in %s: %q groups as %s, expected %s", s.Where, gen.Text(s.Out), lookAlike(n, s, astx.Group), want)
				}
			}
			if len(b.Exprs) == 0 {
				return
			}
			// the same statement with redundant parentheses in one expression
			s := b.Exprs[c.Intn(len(b.Exprs))]
			if s.Hi == 0 {
				return
			}
			toks, added := b.WithParens(s.E, c.Range(1, 4))
			if added == 0 {
				return
			}
			in := append(append(append([]gen.Tok{}, b.In[:s.Lo]...), toks...), b.In[s.Hi:]...)
			src2 := gen.Canonical(in)
			c.Input(src2.S)
			n2, err := one(src2.S)
			if err != nil {
				c.Fail("with parentheses in %s: %s", s.Where, oneLine(err))
			}
			c.Label("parentheses in " + s.Where)
			got = groups(n2, astx.GroupBare)
			for _, x := range b.Exprs {
				if x.Hi == 0 || x != s && x.Lo <= s.Lo && s.Hi <= x.Hi {
					continue // holds the changed text
				}
				want := strings.ToLower(x.E.Bare())
				if x.Lo >= s.Lo && x.Hi <= s.Hi && x != s {
					continue
				}
				if !got[want] {
					c.Fail("parentheses in %s change the grouping of %q: %s, expected %s", s.Where, gen.Text(x.Out), lookAlike(n2, x, astx.GroupBare), want)
				}
			}
		},
	})
}

// groups collects the groupings of all nodes of a tree.
func groups(n p.Expr, f func(p.Expr) string) map[string]bool {
	out := map[string]bool{}
	for _, it := range astx.Nodes(n) {
		out[f(it.Node)] = true
	}
	return out
}

// lookAlike describes what the tree has where an expression was expected.
func lookAlike(n p.Expr, s *gen.Site, f func(p.Expr) string) string {
	want := strings.ToLower(astx.Join(gen.Text(s.Out)))
	out := ""
	for _, it := range astx.Nodes(n) {
		if strings.ToLower(astx.Join(p.Format(it.Node))) == want {
			out = f(it.Node)
		}
	}
	if out == "" {
		return "nothing of that text"
	}
	return out
}
