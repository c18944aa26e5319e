package checks

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C09", Quick: 70000, Thorough: 2000000,
		Rule: "one random statement with conventional or random white space behind white space or comments: start, end and span of every node against the text and its tokens; then the same with more padding in front: every position (reported by the methods and stored in the fields) moves by its length; non-trivial: at least 8 nodes; distinct by text",
		Run:  positions,
		Try: func(kind, in string) string {
			if kind == "script" {
				st, err := parse(in)
				if err != nil {
					return "rejected: " + oneLine(err)
				}
				for _, n := range st {
					if n.Pos() < 0 || n.End() > p.Pos(len(in)) || n.Pos() > n.End() {
						return fmt.Sprintf("statement at %d-%d in a text of %d", n.Pos(), n.End(), len(in))
					}
				}
				return ""
			}
			n, err := one(in)
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			ts, _ := lex.Tokens(in)
			return wrongPosition(in, n, ts, 0, true)
		},
	})
}

func positions(c *pbt.Case) {
	o := options(c)
	o.PartitionID = true
	b := gen.New(c, o)
	kind := b.Statement()
	for f := range b.Feat {
		c.Label(f)
	}
	c.Label(kind)
	everyAccepted(c, b, 40, func(s string, st []p.Expr) string {
		ts, ok := lex.Tokens(s)
		if !ok || len(st) != 1 || formatDropped(s, st) || strings.HasSuffix(s, ";") {
			return ""
		}
		return wrongPosition(s, st[0], ts, 0, false)
	})
	body := gen.Canonical(b.In).S
	if c.P(1, 3) {
		body = gen.Noisy(c, b.In).S
	}
	if c.P(1, 4) {
		var st []p.Expr
		if body, st = loose(c); len(st) != 1 {
			c.Discard()
		}
		body = strings.Trim(body, "; \n\t")
		if strings.Contains(body, "--") || formatDropped(body, st) {
			c.Discard()
		}
	}
	if c.P(1, 2) && !strings.HasSuffix(body, "-") {
		body += gen.Trivia(c, true)
	}
	pad := pbt.Pick(c, []string{" ", "\n", "\t \r\n", "/* x */", "-- y\n", "/* 日本 */\n"})
	s := pad + body
	n := accepted(c, s)
	ts, ok := lex.Tokens(s)
	if !ok {
		c.Discard()
	}
	if msg := wrongPosition(s, n, ts, len(pad), false); msg != "" {
		c.Fail("%s", msg)
	}
	items := astx.Nodes(n)
	c.NonTrivial = len(items) >= 8

	// more padding
	more := gen.Trivia(c, true) + gen.Trivia(c, false)
	if c.P(1, 6) {
		more += strings.Repeat(" \n/* */", c.Range(1, 40))
	}
	if c.P(1, 200) {
		more += gen.LongTrivia(c)
		if strings.HasSuffix(more, "-") {
			more += "\n"
		}
	}
	d := p.Pos(len(more))
	n2 := accepted(c, more+s)
	items2 := astx.Nodes(n2)
	if len(items) != len(items2) {
		c.Fail("%d nodes, %d behind padding", len(items), len(items2))
	}
	hasCase := map[p.Expr]bool{}
	parent := parents(items)
	for _, it := range items {
		if _, ok := it.Node.(*p.CaseExpr); ok {
			for q := it.Node; q != nil; q = parent[q] {
				hasCase[q] = true
			}
		}
	}
	for i, it := range items {
		a, z := it.Node.Pos(), it.Node.End()
		a2, z2 := items2[i].Node.Pos(), items2[i].Node.End()
		if a2 != a+d {
			c.Fail("behind %d bytes of padding %s starts at %d instead of %d: %q", d, astx.TypeName(it.Node), a2, a+d, short(p.Format(it.Node)))
		}
		if z2 != z+d && !hasCase[it.Node] {
			c.Fail("behind %d bytes of padding %s ends at %d instead of %d: %q", d, astx.TypeName(it.Node), z2, z+d, short(p.Format(it.Node)))
		}
	}
	d1 := astx.Dump(n, astx.Opt{Pos: true})
	d2 := astx.Dump(n2, astx.Opt{Pos: true, Shift: d})
	if x := astx.Diff(d1, d2); x != "" && !unsetPos(d1, d2, int(d), hasCase[n]) {
		c.Fail("behind %d bytes of padding the stored positions are not the same plus %d: %s", d, d, x)
	}
}

// wrongPosition compares the positions of the nodes of one statement with the
// text it was parsed from. ts are the tokens of the statement in s, start is
// where the text of the statement begins at the earliest. With strict the places listed in
// known_findings.json count as well.
func wrongPosition(s string, root p.Expr, ts []lex.Tok, start int, strict bool) string {
	starts := map[int]int{}
	for i, t := range ts {
		starts[t.Start] = i
		if t.K == lex.Quoted || t.K == lex.Str {
			starts[t.Start+1] = i
		}
	}
	items := astx.Nodes(root)
	parent := parents(items)
	hasCase, bareFill := map[p.Expr]bool{}, map[p.Expr]bool{}
	for _, it := range items {
		switch x := it.Node.(type) {
		case *p.CaseExpr:
			for q := it.Node; q != nil; q = parent[q] {
				hasCase[q] = !strict
			}
		case *p.Fill:
			if x.From == nil && x.To == nil && x.Step == nil && x.Staleness == nil {
				for q := it.Node; q != nil; q = parent[q] {
					bareFill[q] = !strict
				}
			}
		}
	}
	last := 0
	if len(ts) > 0 {
		last = ts[len(ts)-1].End
	}
	for _, it := range items {
		n := it.Node
		name := astx.TypeName(n)
		a, z := n.Pos(), n.End()
		where := fmt.Sprintf("%s at %d-%d: %q", name, a, z, short(p.Format(n)))
		end := p.Pos(last)
		if bareFill[n] {
			end = p.Pos(len(s)) + 4 // the end of WITH FILL without bounds is four behind the next token's start
		}
		if _, ok := n.(*p.ShowStmt); ok && !strict {
			end = p.Pos(len(s)) + 1 // takes the end of the token behind it
		}
		if a < p.Pos(start) {
			return "starts before the statement: " + where
		}
		_, fill := n.(*p.Fill)
		if _, ok := starts[int(a)]; !ok && !(fill && bareFill[n]) {
			return "does not start at a token: " + where
		}
		if z > end {
			return fmt.Sprintf("ends behind the statement, which ends at %d: %s", last, where)
		}
		if z < a && !(z == 0 && hasCase[n]) {
			return "ends before it starts: " + where
		}
		if q := it.Parent; q != nil && q.Pos() > a {
			return fmt.Sprintf("%s, at %d, starts behind its %s: %s", astx.TypeName(q), q.Pos(), it.Field, where)
		}
		lit, what, quote := "", "", byte(0)
		switch x := n.(type) {
		case *p.Ident:
			if x.Name == "*" && !strict && a == z && int(a) < len(s) && s[a] == '*' {
				continue // its end was never set
			}
			lit, what = x.Name, "name"
			switch x.QuoteType {
			case p.BackTicks:
				quote = '`'
			case p.DoubleQuote:
				quote = '"'
			}
		case *p.NumberLiteral:
			lit, what = x.Literal, "number"
		case *p.StringLiteral:
			lit, what, quote = x.Literal, "string", '\''
		default:
			continue
		}
		if s[a:z] != lit {
			if what != "name" && !strict && staleStart(s, lit, n, it, parent, ts, starts) {
				continue
			}
			return fmt.Sprintf("%s %q points at %q (%d-%d)", what, lit, short(s[a:z]), a, z)
		}
		if quote != 0 && !(a > 0 && s[a-1] == quote && int(z) < len(s) && s[z] == quote) {
			return fmt.Sprintf("quoted %s %q points at %q (%d-%d), without quotes around it", what, lit, short(s[a:z]), a, z)
		}
	}
	if len(ts) > 0 && int(root.Pos()) != ts[0].Start {
		return fmt.Sprintf("statement %s starts at %d, its first token at %d", astx.TypeName(root), root.Pos(), ts[0].Start)
	}
	return ""
}

// staleStart says whether a literal has the right end and the start of what it
// stands behind: the known wrong starts, which stored snapshots pin.
func staleStart(s, lit string, n p.Expr, it astx.Item, parent map[p.Expr]p.Expr, ts []lex.Tok, starts map[int]int) bool {
	a, z := n.Pos(), n.End()
	body := int(z) - len(lit)
	if body < 0 || s[body:z] != lit || int(a) > body {
		return false
	}
	i, ok := starts[body]
	if !ok || i == 0 {
		return false
	}
	before := strings.ToUpper(ts[i-1].S)
	// a sign belongs to the number
	switch before {
	case "BY", ",": // first literal of an item of ORDER BY
		for q := parent[n]; q != nil; q = parent[q] {
			if o, ok := q.(*p.OrderExpr); ok {
				return o.Pos() == a
			}
		}
	case "FROM", "TO", "STEP", "STALENESS":
		for q := parent[n]; q != nil; q = parent[q] {
			if o, ok := q.(*p.Fill); ok {
				return o.Pos() == a
			}
		}
	case "COMMENT":
		_, ok := it.Parent.(*p.ColumnDef)
		return ok && int(a) == ts[i-1].Start
	case "(":
		_, ok := it.Parent.(*p.CompressionCodec)
		return ok && int(a) == ts[i-1].Start
	}
	return false
}
