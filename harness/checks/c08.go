package checks

import (
	"errors"
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C08", Quick: 80000, Thorough: 1500000,
		Rule: "two to five random statements (one in five damaged) joined by semicolons, empty statements, white space and comments, compared with each statement parsed alone at the same offset; also without a separator; a few statements repeated up to 2000 times; non-trivial: at least two statements; distinct by text",
		Run:  scripts,
		Try: func(kind, in string) string {
			st, err := parse(in)
			if kind == "reject" {
				if err == nil {
					return fmt.Sprintf("accepted as %d statements", len(st))
				}
				return ""
			}
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			return ""
		},
	})
}

type part struct {
	toks  []gen.Tok
	text  string
	off   int
	err   error
	alone p.Expr
}

func sep(c *pbt.Case, must bool) string {
	s := ""
	if c.P(1, 2) {
		s += gen.Trivia(c, false)
	}
	if must {
		s += ";"
		for c.P(1, 5) {
			s += gen.Trivia(c, false) + ";"
		}
	}
	if c.P(1, 2) {
		s += gen.Trivia(c, false)
	}
	return s
}

// anyScript joins any two texts, accepted or not.
func anyScript(c *pbt.Case) {
	s1, s2 := anyText(c), anyText(c)
	if c.P(1, 6) {
		s2 = pbt.Pick(c, noToken)
		if c.Bool() {
			s2 += " " + anyText(c)
		}
		c.Label("no token")
	}
	if _, ok := lex.Tokens(s1); !ok {
		c.Discard() // an open quote or comment
	}
	c.Input(s1)
	c.Input(s2)
	c.Label("any text")
	t1, err1 := parse(s1)
	t2, err2 := parse(s2)
	pre := s1 + "\n;"
	all, err := parse(pre + s2)
	switch {
	case err1 != nil:
		if err == nil {
			c.Fail("the first text is rejected (%s), both are accepted as %d statements", oneLine(err1), len(all))
		}
	case err2 != nil:
		if err == nil {
			c.Fail("the second text is rejected (%s), both are accepted as %d statements", oneLine(err2), len(all))
		}
		var e2, e *p.ParseError
		if errors.As(err2, &e2) && errors.As(err, &e) && int(e.Pos) != int(e2.Pos)+len(pre) {
			c.Fail("the second text is rejected at %d, both at %d, which is %d behind its start", e2.Pos, e.Pos, int(e.Pos)-len(pre))
		}
	case err != nil:
		c.Fail("both texts are accepted alone, together not: %s", oneLine(err))
	default:
		if len(all) != len(t1)+len(t2) {
			c.Fail("%d and %d statements alone, %d together", len(t1), len(t2), len(all))
		}
		for i, n := range all {
			if i < len(t1) {
				if d := astx.Diff(dump(t1[i]), dump(n)); d != "" {
					c.Fail("statement %d differs in front of another text %s", i+1, d)
				}
			} else if d := astx.Diff(dump(t2[i-len(t1)]), dump(n)); d != "" {
				c.Fail("statement %d differs behind another text %s", i+1, d)
			}
		}
	}
	c.NonTrivial = len(t1) > 0 && len(t2) > 0
}

// noToken are starts of texts that cannot be read as a token.
var noToken = []string{"/* a", "/*", "'a", "'", "`a", "`", "\"a", "1e", "0x", "12ab", "1.2.3", "é", "\x80", "'a\\'", "'a''", "/*/"}

// manyStatements parses a script of up to 2000 statements, a few ones over and
// over.
func manyStatements(c *pbt.Case) {
	b := gen.New(c, gen.Options{MaxDepth: 2, Simple: true})
	texts := make([]string, c.Range(1, 3))
	alone := make([]p.Expr, len(texts))
	for i := range texts {
		b.Reset()
		b.Statement()
		texts[i] = gen.Canonical(b.In).S
		st, err := one(texts[i])
		if err != nil {
			c.Input(texts[i])
			c.Fail("valid statement rejected: %s", oneLine(err))
		}
		alone[i] = st
	}
	n := c.Range(2, 2000)
	sep := pbt.Pick(c, []string{";", ";\n", " ; ", ";\n-- c\n"})
	var sb strings.Builder
	offs := make([]int, n)
	for i := range offs {
		offs[i] = sb.Len()
		sb.WriteString(texts[i%len(texts)])
		sb.WriteString(sep)
	}
	broken := c.P(1, 4)
	if broken {
		sb.WriteString(pbt.Pick(c, []string{"SELECT", "a", ")", "SELECT 1 SELECT 2", "'"}))
	}
	for _, t := range texts {
		c.Input(t)
	}
	c.Input(fmt.Sprintf("%d statements, %q between them, broken: %v", n, sep, broken))
	c.Label("many statements")
	c.NonTrivial = true
	st, err := parse(sb.String())
	if broken {
		if err == nil {
			c.Fail("the last of %d statements is invalid, the script is accepted as %d statements", n+1, len(st))
		}
		return
	}
	if err != nil {
		c.Fail("every statement is valid alone, %d of them are rejected: %s", n, oneLine(err))
	}
	if len(st) != n {
		c.Fail("%d statements instead of %d", len(st), n)
	}
	start := make([]int, len(alone))
	for i := range alone {
		start[i] = int(alone[i].Pos())
	}
	for i := range st {
		k := i % len(texts)
		if int(st[i].Pos()) != start[k]+offs[i] {
			c.Fail("statement %d starts at %d instead of %d", i+1, st[i].Pos(), start[k]+offs[i])
		}
		if i%37 != 0 && i != n-1 {
			continue
		}
		if d := astx.Diff(dump(alone[k]), dump(st[i])); d != "" {
			c.Fail("statement %d differs from itself alone: %s", i+1, d)
		}
	}
}

func scripts(c *pbt.Case) {
	if c.P(1, 4) {
		anyScript(c)
		return
	}
	if c.P(1, 200) {
		manyStatements(c)
		return
	}
	o := options(c)
	if o.MaxDepth > 3 {
		o.MaxDepth = 3
	}
	n := c.Range(2, 5)
	if c.P(1, 8) {
		n = 1
	}
	parts := make([]part, n)
	valid := true
	b := gen.New(c, o)
	for i := range parts {
		b.Reset()
		if c.P(1, 3) {
			b.StatementOf(pbt.Pick(c, []string{"use", "select", "set", "show", "check", "describe", "optimize", "system", "drop"}))
		} else {
			b.Statement()
		}
		parts[i].toks = b.In
	}
	bad := -1
	if c.P(1, 5) {
		bad = c.Intn(n)
		parts[bad].toks = damage(c, parts[bad].toks)
		c.Label("damaged statement")
	}
	var sb strings.Builder
	if c.P(1, 3) {
		sb.WriteString(sep(c, c.Bool()))
	}
	for i := range parts {
		q := &parts[i]
		q.text = gen.Canonical(q.toks).S
		q.off = sb.Len()
		sb.WriteString(q.text)
		if i+1 < n {
			sb.WriteString(sep(c, true))
		}
		q.alone, q.err = one(q.text)
		if q.err != nil {
			valid = false
			if i != bad {
				c.Input(q.text)
				c.Fail("valid statement rejected: %s", oneLine(q.err))
			}
		}
	}
	trailing := c.Bool()
	if trailing {
		sb.WriteString(sep(c, true))
	}
	script := sb.String()
	c.Input(script)
	c.NonTrivial = n >= 2
	c.Label(fmt.Sprintf("%d statements", n))
	st, err := parse(script)
	if !valid {
		c.Label("invalid script")
		if err == nil {
			c.Fail("statement %d of the script is invalid alone (%s), the script is accepted as %d statements", bad+1, oneLine(parts[bad].err), len(st))
		}
		return
	}
	if err != nil {
		c.Fail("every statement is valid alone, the script is rejected: %s", oneLine(err))
	}
	if len(st) != n {
		c.Fail("%d statements instead of %d", len(st), n)
	}
	for i, q := range parts {
		if d := astx.Diff(dump(q.alone), dump(st[i])); d != "" {
			c.Fail("statement %d differs from itself alone: %s", i+1, d)
		}
		if f1, f2 := p.Format(q.alone), p.Format(st[i]); f1 != f2 {
			c.Fail("statement %d is formatted as %q, alone as %q", i+1, f2, f1)
		}
		// the same text at the start, followed by the same text
		rest := script[q.off+len(q.text):]
		if i+1 < n || trailing {
			rest = rest[:strings.IndexByte(rest, ';')+1]
		}
		if strings.Contains(rest, "/*") || strings.Contains(rest, "--") {
			rest = script[q.off+len(q.text):]
			if k := 0; i+1 < n {
				k = parts[i+1].off - (q.off + len(q.text))
				rest = rest[:k]
			}
		}
		here, err := parse(q.text + rest)
		if err != nil || len(here) != 1 {
			c.Fail("statement %d followed by %q alone: %d statements, %v", i+1, rest, len(here), err)
		}
		d1 := astx.Dump(here[0], astx.Opt{Pos: true})
		d2 := astx.Dump(st[i], astx.Opt{Pos: true, Shift: p.Pos(q.off)})
		if d := astx.Diff(d1, d2); d != "" && !unsetPos(d1, d2, q.off, strings.Contains(d2, "CaseExpr{")) {
			c.Fail("the positions of statement %d are not those of itself alone plus %d: %s", i+1, q.off, d)
		}
	}
	// without a separator
	if n >= 2 && c.P(1, 2) {
		k := c.Intn(n - 1)
		s := parts[k].text + pbt.Pick(c, []string{" ", "\n", " /* c */ ", "\n\n"}) + parts[k+1].text
		c.Input(s)
		st, err := parse(s)
		if err == nil && len(st) != 1 {
			c.Fail("%d statements without a separator", len(st))
		}
		if err == nil {
			c.Label("two texts are one statement")
			have := map[string]int{}
			for _, t := range tokensOf(p.Format(st[0])) {
				have[t]++
			}
			for _, q := range parts[k : k+2] {
				for _, t := range q.toks {
					if t.K == gen.Name || t.K == gen.Str {
						have[t.S]--
						if have[t.S] < 0 {
							c.Fail("without a separator the script is accepted and loses %s; formatted %q", t.S, p.Format(st[0]))
						}
					}
				}
			}
		}
	}
}

// unsetPos says whether two position dumps differ only in positions that are
// zero (never set) in both trees, or in ends computed from the end of a CASE
// expression, which is never set.
func unsetPos(a, b string, shift int, hasCase bool) bool {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	if len(la) != len(lb) {
		return false
	}
	zero := fmt.Sprintf(": @%d", -shift)
	for i := range la {
		if la[i] == lb[i] || strings.Replace(la[i], ": @0", zero, 1) == lb[i] {
			continue
		}
		if k := strings.Index(la[i], ": @"); hasCase && k >= 0 && strings.HasPrefix(lb[i], la[i][:k+3]) {
			name := strings.TrimSpace(la[i][:k])
			if strings.HasSuffix(name, "End") || name == "EndPos" || name == "RParenPos" {
				continue
			}
		}
		return false
	}
	return true
}
