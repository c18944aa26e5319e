package checks

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

var literalTemplates = []string{
	"SELECT %s", "SELECT %s AS a, b", "SELECT f(%s)", "SELECT f(a, %s)", "SELECT [%s]", "SELECT [a, %s]", "SELECT (%s, a)", "SELECT (a, %s)",
	"SELECT a FROM t WHERE b = %s", "SELECT a IN (%s)", "SELECT a + %s", "SELECT %s * a", "SELECT CASE WHEN a THEN %s END", "SELECT CASE a WHEN %s THEN b ELSE c END",
	"SELECT a BETWEEN %s AND c", "SELECT a BETWEEN b AND %s", "SELECT a ORDER BY %s", "SELECT a FROM t GROUP BY %s", "SELECT a FROM t HAVING %s",
	"SELECT x -> %s", "SELECT a ? %s : b", "SELECT a ? b : %s", "SELECT NOT %s", "SELECT %s IS NULL", "SELECT a || %s", "SELECT %s::String", "SELECT CAST(%s AS String)", "SELECT CAST(%s, 'String')",
	"SELECT a[%s]", "SELECT EXTRACT(DAY FROM %s)", "SELECT a FROM f(%s)", "SELECT {'k': %s}", "INSERT INTO t VALUES (%s)", "INSERT INTO t VALUES (a, %s), (%s, b)",
	"ALTER TABLE t DELETE WHERE a = %s", "ALTER TABLE t UPDATE a = %s WHERE b", "CREATE TABLE t (a Int8 DEFAULT %s) ENGINE = Memory", "CREATE TABLE t (a Int8) ENGINE = E(%s)",
	"SELECT a FROM t PREWHERE %s", "SELECT a LIMIT %s", "SELECT a LIMIT a OFFSET %s", "SELECT sum(a) OVER (ORDER BY %s)", "WITH %s AS a SELECT a", "SELECT /* c */%s/* c */", "SELECT\n%s\n, b",
}

var nameTemplates = []string{
	"SELECT %s", "SELECT %s AS a, b", "SELECT a AS %s", "SELECT a AS %s, b", "SELECT a %s FROM t", "SELECT a.%s", "SELECT %s.a", "SELECT %s(a)", "SELECT a FROM %s", "SELECT a FROM d.%s", "SELECT a FROM %s.t", "SELECT a FROM t AS %s",
	"WITH %s AS (SELECT 1) SELECT a", "SELECT a FROM t JOIN %s ON b", "SELECT a FROM t JOIN u USING (%s)", "SELECT a FROM t WINDOW %s AS (ORDER BY a)", "SELECT sum(a) OVER %s FROM t", "SELECT {%s:Int8}", "SELECT %s -> 1", "SELECT a SETTINGS %s = 1",
	"CREATE TABLE %s (a Int8) ENGINE = Memory", "CREATE TABLE t (%s Int8) ENGINE = Memory", "CREATE DATABASE %s", "CREATE VIEW %s AS SELECT 1", "CREATE FUNCTION %s AS (x) -> x", "CREATE ROLE %s", "CREATE USER %s", "DROP TABLE %s", "DROP TABLE d.%s", "USE %s", "TRUNCATE TABLE %s",
	"ALTER TABLE t DROP COLUMN %s", "ALTER TABLE t ADD COLUMN %s Int8", "ALTER TABLE %s DROP COLUMN a", "ALTER TABLE t RENAME COLUMN a TO %s", "INSERT INTO %s VALUES (1)", "INSERT INTO t (%s) VALUES (1)", "RENAME TABLE %s TO b", "RENAME TABLE a TO %s", "OPTIMIZE TABLE %s", "CREATE TABLE t ON CLUSTER %s (a Int8) ENGINE = Memory", "SELECT a FROM t ARRAY JOIN %s", "SELECT x.%s.y FROM x", "SELECT (a, b) -> %s", "CREATE TABLE t (a Nested(%s Int8)) ENGINE = Memory", "CREATE TABLE t (a Tuple(%s Int8)) ENGINE = Memory",
}

func fill(tmpl, lit string) string { return strings.ReplaceAll(tmpl, "%s", lit) }

func init() {
	register(&Check{
		ID: "C14", Quick: 400000, Thorough: 4000000,
		Rule: "random number, string and identifier spellings (and malformed ones) put into fixed positions of every kind and into random statements; non-trivial: a spelling of at least 2 bytes; distinct by text",
		Run: func(c *pbt.Case) {
			switch c.Weighted(3, 2, 2, 3, 2) {
			case 0: // a literal at a fixed position
				lit := ""
				switch c.Intn(3) {
				case 0:
					lit = number(c)
					if c.P(1, 6) {
						lit = "." + digits(c, 1, 12)
					}
					c.Label("number")
				default:
					lit = "'" + stringBody(c) + "'"
					c.Label("string")
				}
				tm := pbt.Pick(c, literalTemplates)
				s := fill(tm, lit)
				n := accepted(c, s)
				if msg := holdsLiteral(n, lit, strings.Count(tm, "%s")); msg != "" {
					c.Fail("%s", msg)
				}
				c.NonTrivial = len(lit) >= 2
			case 1: // a name at a fixed position
				lit := plainName(c)
				switch c.Intn(3) {
				case 1:
					lit = "`" + quotedBody(c, "`") + "`"
				case 2:
					lit = "\"" + quotedBody(c, "\"") + "\""
				}
				c.Label("name")
				tm := pbt.Pick(c, nameTemplates)
				n := accepted(c, fill(tm, lit))
				if msg := holdsLiteral(n, lit, 1); msg != "" {
					c.Fail("%s", msg)
				}
				c.NonTrivial = len(lit) >= 2
			case 2: // malformed number anywhere
				c.Label("malformed number")
				bad := badNumber(c)
				if c.Bool() {
					s := fill(pbt.Pick(c, literalTemplates), bad)
					c.Input(s)
					if _, err := parse(s); err == nil {
						c.Fail("malformed number %q is accepted", bad)
					}
				} else {
					b, _ := build(c)
					toks := append([]gen.Tok{}, b.In...)
					i := pickTok(c, toks, func(t gen.Tok) bool { return t.K == gen.Num })
					if i < 0 {
						c.Discard()
					}
					toks[i].S = bad
					s := gen.Canonical(toks).S
					c.Input(s)
					if _, err := parse(s); err == nil {
						c.Fail("malformed number %q is accepted", bad)
					}
				}
				c.NonTrivial = len(bad) >= 2
			case 3: // all literals of a random statement respelled
				c.Label("statement")
				b, _ := build(c)
				subst := map[int]string{}
				for _, t := range b.In {
					switch {
					case t.K == gen.Num && t.Role == "num":
						subst[t.ID] = number(c)
					case t.K == gen.Num && t.Role == "int":
						subst[t.ID] = digits(c, 1, 20)
					case t.K == gen.Str:
						subst[t.ID] = "'" + stringBody(c) + "'"
					}
				}
				if len(subst) == 0 {
					c.Discard()
				}
				in, out := respell(b.In, subst), respell(b.Out, subst)
				n := accepted(c, gen.Canonical(in).S)
				f := p.Format(n)
				if d := sameTokens(f, out); d != "" {
					c.Fail("%s\nformatted: %q", d, f)
				}
				texts := strings2(n)
				for _, t := range in {
					if t.K == gen.Num || t.K == gen.Str || t.K == gen.Name {
						w := inner(t.S)
						if w != "" && !texts[w] && !texts["-"+w] && !texts["+"+w] && !texts[t.S] {
							c.Fail("%s is nowhere in the tree", t.S)
						}
					}
				}
				c.NonTrivial = true
			case 4: // unclosed quote
				c.Label("unclosed quote")
				b, _ := build(c)
				i := pickTok(c, b.In, func(t gen.Tok) bool {
					return t.K == gen.Str || t.K == gen.Name && strings.ContainsAny(t.S[:1], "'\"`")
				})
				if i < 0 {
					c.Discard()
				}
				s := gen.Canonical(b.In[:i+1]).S
				s = s[:len(s)-1]
				if strings.HasSuffix(s, "\\") && c.Bool() {
					s += "\\"
				}
				c.Input(s)
				if _, err := parse(s); err == nil {
					c.Fail("text with an unclosed quote is accepted")
				}
				c.NonTrivial = len(s) >= 2
			}
		},
		Try: func(kind, in string) string {
			st, err := parse(in)
			if kind == "reject" {
				if err == nil {
					return "accepted"
				}
				return ""
			}
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			for _, n := range st {
				if d := tokenDiff(in, p.Format(n)); d != "" {
					return d
				}
			}
			return ""
		},
	})
}

func pickTok(c *pbt.Case, toks []gen.Tok, ok func(gen.Tok) bool) int {
	var at []int
	for i, t := range toks {
		if ok(t) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return -1
	}
	return pbt.Pick(c, at)
}

func respell(toks []gen.Tok, subst map[int]string) []gen.Tok {
	out := append([]gen.Tok{}, toks...)
	for i := range out {
		if s, ok := subst[out[i].ID]; ok {
			out[i].S = s
		}
	}
	return out
}

// inner is the text between the quotes.
func inner(s string) string {
	if len(s) >= 2 && strings.ContainsAny(s[:1], "'\"`") {
		return s[1 : len(s)-1]
	}
	return s
}

// strings2 is the set of all strings held by a tree.
func strings2(n p.Expr) map[string]bool {
	m := map[string]bool{}
	astx.Dump(n, astx.Opt{Str: func(s string) string { m[s] = true; return s }})
	return m
}

// holdsLiteral looks for count nodes that hold exactly this literal or name.
func holdsLiteral(n p.Expr, lit string, count int) string {
	found := 0
	for _, it := range astx.Nodes(n) {
		switch x := it.Node.(type) {
		case *p.NumberLiteral:
			base := 10
			if strings.HasPrefix(lit, "0x") {
				base = 16
			}
			if x.Literal == lit {
				found++
				if x.Base != base {
					return fmt.Sprintf("%s has base %d", lit, x.Base)
				}
			}
		case *p.StringLiteral:
			if lit[0] == '\'' && x.Literal == inner(lit) {
				found++
			}
		case *p.Ident:
			q := map[byte]int{'`': p.BackTicks, '"': p.DoubleQuote}[lit[0]]
			if q == 0 {
				q = p.Unquoted
			}
			if x.Name == inner(lit) && x.QuoteType == q && (q != p.Unquoted || lit[0] != '\'' && (lit[0] < '0' || lit[0] > '9')) {
				found++
			}
		}
	}
	if found != count {
		return fmt.Sprintf("%d nodes hold exactly %q, expected %d; formatted %q", found, lit, count, p.Format(n))
	}
	f := p.Format(n)
	k := 0
	for _, t := range tokensOf(f) {
		if t == lit {
			k++
		}
	}
	want := count
	if lit[0] == '.' {
		return "" // two tokens
	}
	if k != want {
		return fmt.Sprintf("%s is printed %d times, expected %d; formatted %q", lit, k, want, f)
	}
	return ""
}
