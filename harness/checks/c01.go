package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/corpus"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C01", Quick: 150000, Thorough: 8000000,
		Rule: "one input: a random statement or a file of the project's test suite with one to four damaged tokens or bytes, a random sequence of tokens, random bytes, or a statement in which a random window is repeated with growing depth (CPU time must not grow faster than a polynomial), some of them up to a quarter of a megabyte of nesting on a quarter of the default stack; what is accepted is also formatted, walked, visited, asked for positions and encoded; non-trivial: the input has at least three tokens; distinct by text",
		Prepare: func() error {
			debug.SetMaxStack(256 << 20)
			return nil
		},
		Try: func(kind, in string) string {
			if kind == "repeat" { // head|unit|times
				f := strings.Split(in, "|")
				n, err := strconv.Atoi(f[2])
				if err != nil {
					return err.Error()
				}
				in = f[0] + strings.Repeat(f[1], n)
			}
			if kind == "reject" {
				if _, err := parse(in); err == nil {
					return "accepted"
				}
			}
			return survives(in, true)
		},
		Run: func(c *pbt.Case) {
			var s string
			switch k := c.Weighted(40, 14, 14, 14, 5, 3, 10); k {
			case 0:
				c.Label("damaged statement")
				s = join(c, damageTokens(c, statementTokens(c)))
			case 1:
				c.Label("damaged bytes")
				s = damageBytes(c, join(c, statementTokens(c)))
			case 2:
				c.Label("token sequence")
				s = join(c, soup(c))
			case 3:
				c.Label("damaged file")
				e := pbt.Pick(c, corpus.Small)
				if c.Bool() {
					s = damageBytes(c, e.SQL)
				} else {
					s = join(c, damageTokens(c, tokensOf(e.SQL)))
				}
			case 4:
				c.Label("spliced")
				a, b := statementTokens(c), statementTokens(c)
				if c.Bool() {
					a = tokensOf(pbt.Pick(c, corpus.Small).SQL)
				}
				i, j := c.Intn(len(a)+1), c.Intn(len(b)+1)
				s = join(c, append(append([]string{}, a[:i]...), b[j:]...))
			case 5:
				c.Label("bytes")
				b := make([]byte, c.Intn(40))
				for i := range b {
					if c.Bool() {
						b[i] = byte(c.Intn(256))
					} else {
						b[i] = pbt.Pick(c, []byte("'\"`-+/*.,;(){}[]<>=!|:?@$_eExX019 \n\\%#&~^"))
					}
				}
				s = string(b)
			case 6:
				pump(c)
				return
			}
			c.Input(s)
			ts, _ := lex.Tokens(s)
			c.NonTrivial = len(ts) >= 3
			if msg := survives(s, c.P(1, 8)); msg != "" {
				c.Fail("%s", msg)
			}
		},
	})
}

func statementTokens(c *pbt.Case) []string {
	b, _ := build(c)
	return tokensIn(b)
}

func tokensIn(b *gen.B) (out []string) {
	for _, t := range b.In {
		out = append(out, t.S)
	}
	return out
}

// join writes tokens, mostly one space apart.
func join(c *pbt.Case, ts []string) string {
	sep := pbt.Pick(c, []string{" ", " ", " ", "\n", "/**/", ""})
	if sep != "" {
		return strings.Join(ts, sep)
	}
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && (lex.Glues(ts[i-1], t) || c.P(1, 4)) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t)
	}
	return sb.String()
}

// word draws a token.
func word(c *pbt.Case) string {
	switch c.Weighted(5, 4, 3) {
	case 0:
		return pbt.Pick(c, []string{"(", ")", ",", "[", "]", "{", "}", ".", "=", "*", "-", "+", ";", "->", "::", ":", "?", "@", "<", "!=", "||", "/", "%", "==", "<=>", "!", "$", "|", "<>"})
	case 1:
		return pbt.Pick(c, sqlWords)
	}
	return pbt.Pick(c, []string{"a", "b", "`q r`", "\"d\"", "'s'", "''", "1", "-2", "1.5", "0x1F", "1e3", ".5", "a.b", "t.*", "f(", "Int32", "Array(", "Nested(", "Tuple(", "Enum8(", "Decimal(", "x", "$p", "{p:Int32}", "@v", "1.", "--", "/*", "DAY", "'%Y'", "\\", "#", "-- c\n", "/* c */", "1a", "'open", "`open", "\"open", "\x00", "é", "\xff"})
}

func damageTokens(c *pbt.Case, ts []string) []string {
	out := append([]string{}, ts...)
	for k := c.Range(1, 3); k > 0 && len(out) > 0; k-- {
		i := c.Intn(len(out))
		switch c.Weighted(4, 3, 1, 1, 2, 2, 1) {
		case 0: // cut off
			out = out[:i]
		case 1: // delete
			out = append(out[:i:i], out[i+1:]...)
		case 2: // double
			out = append(out[:i+1:i+1], out[i:]...)
		case 3: // swap
			j := c.Intn(len(out))
			out[i], out[j] = out[j], out[i]
		case 4: // foreign token
			out = append(out[:i:i], append([]string{word(c)}, out[i:]...)...)
		case 5: // other token
			out[i] = word(c)
		case 6: // delete a stretch
			j := i + c.Intn(len(out)-i)
			out = append(out[:i:i], out[j:]...)
		}
	}
	return out
}

func damageBytes(c *pbt.Case, s string) string {
	b := []byte(s)
	for k := c.Range(1, 4); k > 0 && len(b) > 0; k-- {
		i := c.Intn(len(b))
		switch c.Weighted(3, 3, 2, 2, 2) {
		case 0: // cut off
			b = b[:i]
		case 1: // delete
			b = append(b[:i:i], b[i+1:]...)
		case 2: // any byte
			b[i] = byte(c.Intn(256))
		case 3: // special byte
			b[i] = pbt.Pick(c, []byte("'\"`-+/*.,;(){}[]<>=!|:?@$_eExX019 \n\\%#&~^"))
		case 4: // insert
			b = append(b[:i:i], append([]byte{pbt.Pick(c, []byte("'\"`-/*.,;(){}[]\n\\0"))}, b[i:]...)...)
		}
	}
	return string(b)
}

var starts = []string{"SELECT", "SELECT a FROM", "SELECT a FROM t WHERE", "WITH", "CREATE TABLE t", "CREATE TABLE t (a Int32) ENGINE =", "CREATE", "CREATE VIEW v", "CREATE MATERIALIZED VIEW v", "CREATE LIVE VIEW", "CREATE DICTIONARY d", "CREATE USER", "CREATE ROLE", "CREATE FUNCTION f AS", "CREATE DATABASE", "ALTER TABLE t", "ALTER TABLE t ADD", "ALTER TABLE t MODIFY COLUMN", "ALTER USER", "ALTER ROLE", "DROP", "DROP TABLE", "DETACH", "ATTACH TABLE", "INSERT INTO t", "INSERT INTO", "INSERT INTO t VALUES", "SYSTEM", "SYSTEM FLUSH", "SYSTEM RELOAD", "GRANT", "GRANT SELECT", "SHOW", "SHOW CREATE", "DESCRIBE", "EXPLAIN", "EXPLAIN SYNTAX", "SET", "USE", "OPTIMIZE TABLE t", "RENAME", "TRUNCATE", "CHECK TABLE", "DELETE FROM", "REPLACE", "SELECT a FROM t ORDER BY", "SELECT a FROM t LIMIT", "SELECT a FROM t JOIN", "SELECT f(", "SELECT CASE", "SELECT CAST(", "SELECT INTERVAL", "SELECT COLUMNS(", "SELECT * EXCEPT", "SELECT f() OVER ("}

func soup(c *pbt.Case) []string {
	var out []string
	if !c.P(1, 10) {
		out = strings.Fields(pbt.Pick(c, starts))
	}
	for n := c.Range(0, 12); n > 0; n-- {
		out = append(out, word(c))
	}
	return out
}

// survives feeds s to the parser and uses whatever comes back.
func survives(s string, all bool) (msg string) {
	stage := "parsing"
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%s panics: %v at %s", stage, r, panicSite())
		}
	}()
	st, err := parse(s)
	if err != nil {
		stage = "rendering the error"
		var pe *p.ParseError
		if !errors.As(err, &pe) {
			return fmt.Sprintf("the error is a %T", err)
		}
		if err.Error() == "" {
			return "the error says nothing"
		}
		return ""
	}
	for _, n := range st {
		if astx.IsNil(n) {
			return "a statement is nil"
		}
		stage = "formatting"
		p.Format(n)
		stage = "beautifying"
		beautify(n, "  ")
		stage = "walking"
		seen := 0
		p.Walk(n, func(x p.Expr) bool {
			seen++
			if astx.IsNil(x) || seen > 1000 && seen%(seen/1000) != 0 {
				return true // positions cost as much as the node is deep
			}
			stage = "asking a " + astx.TypeName(x) + " for its position"
			x.Pos()
			x.End()
			stage = "walking"
			return true
		})
		p.WalkWithBreak(n, func(p.Expr) bool { return true })
		p.FindAll(n, func(p.Expr) bool { return false })
		stage = "visiting"
		if err := n.Accept(&p.DefaultASTVisitor{}); err != nil {
			return "visiting returns " + err.Error()
		}
		if all {
			stage = "encoding"
			if _, err := json.Marshal(n); err != nil {
				return "encoding returns " + err.Error()
			}
			stage = "formatting a part"
			for _, it := range astx.Nodes(n) {
				stage = "formatting, visiting or asking a " + astx.TypeName(it.Node)
				p.Format(it.Node)
				it.Node.Pos()
				it.Node.End()
			}
		}
	}
	return ""
}

// panicSite names the innermost function of the parser on the stack.
func panicSite() string {
	pc := make([]uintptr, 64)
	fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "clickhouse-sql-parser") {
			return fmt.Sprintf("%s:%d", f.Function[strings.LastIndex(f.Function, "/")+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// cpu returns the CPU time used by this thread.
func cpu() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(1, &ru); err != nil { // RUSAGE_THREAD
		panic(err)
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// pump repeats two windows of a statement around a third, with growing depth.
func pump(c *pbt.Case) {
	var head, pre, mid, post, foot []string
	switch c.Weighted(3, 3, 2, 3) {
	case 0: // an expression inside an expression
		b := gen.New(c, gen.Options{MaxDepth: c.Range(2, 4)})
		b.Statement()
		var in []string
		for _, t := range b.In {
			in = append(in, t.S)
		}
		type pair struct{ o, i *gen.Site }
		var ps []pair
		for _, o := range b.Exprs {
			for _, i := range b.Exprs {
				if o != i && o.Hi > 0 && i.Hi > 0 && o.Lo <= i.Lo && i.Hi <= o.Hi && o.Hi-o.Lo > i.Hi-i.Lo {
					ps = append(ps, pair{o, i})
				}
			}
		}
		if len(ps) == 0 {
			c.Discard()
		}
		x := pbt.Pick(c, ps)
		c.Label("nested expressions")
		head, pre, mid, post, foot = in[:x.o.Lo], in[x.o.Lo:x.i.Lo], in[x.i.Lo:x.i.Hi], in[x.i.Hi:x.o.Hi], in[x.o.Hi:]
	case 1: // any windows
		in := statementTokens(c)
		n := len(in)
		i := c.Intn(n + 1)
		j := min(n, i+c.Intn(6))
		k := min(n, j+c.Intn(6))
		l := min(n, k+c.Intn(6))
		c.Label("repeated windows")
		head, pre, mid, post, foot = in[:i], in[i:j], in[j:k], in[k:l], in[l:]
	case 2: // any tokens
		c.Label("repeated tokens")
		head = strings.Fields(pbt.Pick(c, starts))
		for n := c.Range(1, 4); n > 0; n-- {
			pre = append(pre, word(c))
		}
		mid = []string{word(c)}
		if c.Bool() {
			for i := len(pre) - 1; i >= 0; i-- {
				switch {
				case strings.HasSuffix(pre[i], "("):
					post = append(post, ")")
				case pre[i] == "[":
					post = append(post, "]")
				case pre[i] == "{":
					post = append(post, "}")
				}
			}
		}
	case 3: // known kinds of nesting
		f := pbt.Pick(c, nestings)
		c.Label("known nesting")
		head, pre, mid, post = strings.Fields(f[0]), strings.Fields(f[1]), strings.Fields(f[2]), strings.Fields(f[3])
		if c.P(1, 3) { // two kinds mixed
			g := pbt.Pick(c, nestings)
			pre = append(append([]string{}, pre...), strings.Fields(g[1])...)
			post = append(strings.Fields(g[3]), post...)
		}
		if c.P(1, 3) && len(post) > 0 {
			post = nil
		}
	}
	if len(pre)+len(post) == 0 {
		c.Discard()
	}
	c.NonTrivial = true
	rep := func(ts []string) string { return strings.Join(ts, " ") + " " }
	text := func(n int) string {
		return rep(head) + strings.Repeat(rep(pre), n) + rep(mid) + strings.Repeat(rep(post), n) + rep(foot)
	}
	c.Input(text(3))
	size := 12000
	if c.Tier == "thorough" {
		size = 40000
	}
	deep := c.P(1, 60)
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	used := map[int]time.Duration{}
	for n := 2; ; n = n + 2 + n/4 {
		s := text(n)
		if len(s) > size && n > 4 {
			break
		}
		if c.Note != nil {
			c.Note(s)
		}
		t := cpu()
		if msg := survives(s, false); msg != "" {
			c.Fail("repeated %d times: %s", n, msg)
		}
		used[n] = cpu() - t
		if used[n] > 500*time.Millisecond {
			// by how much more than half as many?
			half := 0
			for m := range used {
				if m <= n/2 && m > half {
					half = m
				}
			}
			if used[n] < 100*used[half]+200*time.Millisecond {
				c.Label("slow")
				return
			}
			if used[n] > 2*time.Second {
				c.Fail("repeated %d times (%d bytes) it takes %v, repeated %d times %v", n, len(s), used[n], half, used[half])
			}
		}
	}
	if deep {
		c.Label("deep")
		n := 250000 / (len(dense(pre)) + len(dense(post)) + 1)
		s := dense(head) + " " + strings.Repeat(dense(pre), n) + " " + dense(mid) + " " + strings.Repeat(dense(post), n) + " " + dense(foot)
		if c.Note != nil {
			c.Note(text(3))
		}
		if msg := survives(s, false); msg != "" {
			c.Fail("%d bytes deep: %s", len(s), msg)
		}
	}
}

// dense writes tokens so that they can be repeated, with few spaces.
func dense(ts []string) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 && lex.Glues(ts[i-1], t) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t)
	}
	if n := len(ts); n > 0 && lex.Glues(ts[n-1], ts[0]) {
		sb.WriteByte(' ')
	}
	return sb.String()
}

// nestings are the constructs that hold one of their kind.
var nestings = [][4]string{
	{"SELECT", "(", "1", ")"},
	{"SELECT", "( 1 ,", "1", ")"},
	{"SELECT", "[", "1", "]"},
	{"SELECT", "[ 1 ,", "1", "]"},
	{"SELECT", "f (", "1", ")"},
	{"SELECT", "f ( 1 ,", "1", ")"},
	{"SELECT", "f ( DISTINCT", "1", ")"},
	{"SELECT", "NOT", "1", ""},
	{"SELECT", "- (", "1", ")"},
	{"SELECT", "a IN (", "1", ")"},
	{"SELECT", "a NOT IN (", "1", ")"},
	{"SELECT", "CASE WHEN 1 THEN", "1", "END"},
	{"SELECT", "CASE", "1", "WHEN 1 THEN 1 END"},
	{"SELECT", "CASE WHEN", "1", "THEN 1 END"},
	{"SELECT", "CASE WHEN 1 THEN 1 ELSE", "1", "END"},
	{"SELECT", "CAST (", "1", "AS Int32 )"},
	{"SELECT", "CAST (", "1", ", 'Int32' )"},
	{"SELECT", "EXTRACT ( DAY FROM", "1", ")"},
	{"SELECT", "a ->", "1", ""},
	{"SELECT", "( a , b ) ->", "1", ""},
	{"SELECT", "a ? b :", "1", ""},
	{"SELECT", "a ?", "1", ": b"},
	{"SELECT", "INTERVAL", "1", "DAY"},
	{"SELECT", "INTERVAL", "1", ""},
	{"SELECT", "INTERVAL (", "1", ") DAY"},
	{"SELECT", "( INTERVAL", "1", ") DAY"},
	{"SELECT", "INTERVAL +", "1", ""},
	{"SELECT", "1 +", "1", ""},
	{"SELECT", "a .", "a", ""},
	{"SELECT 1", "[ 1", "", "]"},
	{"SELECT", "a [", "1", "]"},
	{"SELECT", "{ 'a' :", "1", "}"},
	{"SELECT", "a BETWEEN 1 AND", "1", ""},
	{"SELECT", "a BETWEEN", "1", "AND 1"},
	{"SELECT", "a LIKE", "1", ""},
	{"SELECT", "", "a", "IS NULL"},
	{"SELECT", "", "a", ":: Int32"},
	{"SELECT", "", "a", "[ 1 ]"},
	{"SELECT", "", "a", "AND b"},
	{"SELECT", "", "a", "OR b"},
	{"SELECT", "", "a", "NOT IN ( 1 )"},
	{"SELECT", "", "a", "IN b"},
	{"SELECT", "f ( a ) OVER ( PARTITION BY", "1", ")"},
	{"SELECT", "f ( a ) OVER ( ORDER BY", "1", ")"},
	{"SELECT", "COLUMNS (", "'a'", ")"},
	{"SELECT", "a ,", "a", ""},
	{"", "SELECT * FROM (", "SELECT 1", ")"},
	{"", "SELECT * FROM ( SELECT * FROM t WHERE a IN (", "SELECT 1", ") )"},
	{"", "SELECT (", "SELECT 1", ")"},
	{"", "SELECT 1 IN (", "SELECT 1", ")"},
	{"", "WITH a AS (", "SELECT 1", ") SELECT 1"},
	{"", "SELECT 1 UNION ALL", "SELECT 1", ""},
	{"", "SELECT 1 EXCEPT", "SELECT 1", ""},
	{"", "SELECT 1 UNION DISTINCT ( ", "SELECT 1", ")"},
	{"SELECT 1 FROM t", "JOIN t ON", "1", ""},
	{"SELECT 1 FROM", "t ,", "t", ""},
	{"SELECT 1 FROM t", "ARRAY JOIN", "a", ""},
	{"SELECT 1 FROM", "f (", "1", ")"},
	{"SELECT 1 FROM", "f ( a =", "1", ")"},
	{"SELECT 1 FROM", "f ( 1 +", "1", ")"},
	{"CREATE TABLE t ( a", "Array (", "Int32", ") )"},
	{"CREATE TABLE t ( a", "Tuple ( a", "Int32", ")"},
	{"CREATE TABLE t ( a", "Tuple (", "Int32", ")"},
	{"CREATE TABLE t ( a", "Nested ( a", "Int32", ")"},
	{"CREATE TABLE t ( a", "Map ( a ,", "Int32", ")"},
	{"CREATE TABLE t ( a", "JSON ( a", "Int32", ")"},
	{"CREATE TABLE t ( a Int32 ) ENGINE = M", "( f", "( 1 )", ")"},
	{"CREATE TABLE t ( a Int32 DEFAULT", "(", "1", ")"},
	{"CREATE TABLE t ( a Int32 ) ORDER BY", "(", "1", ")"},
	{"CREATE TABLE t (", "a Int32 ,", "a Int32", ""},
	{"CREATE DICTIONARY d ( a Int32 ) PRIMARY KEY a SOURCE ( X (", "a (", "a 1", ")"},
	{"INSERT INTO t VALUES", "(", "1", ")"},
	{"INSERT INTO t VALUES", "( 1 ) ,", "( 1 )", ""},
	{"SET a =", "{ 'a' :", "1", "}"},
	{"EXPLAIN SYNTAX", "EXPLAIN SYNTAX", "SELECT 1", ""},
	{"", "SELECT 1 ;", "SELECT 1", ""},
	{"", ";", "", ""},
	{"", "/* */", "SELECT 1", ""},
	{"ALTER TABLE t", "ADD COLUMN a Int32 ,", "ADD COLUMN a Int32", ""},
	{"GRANT SELECT (", "a ,", "a", ") ON * . * TO a"},
	{"SELECT 1 ORDER BY", "a ,", "a", ""},
	{"SELECT 1 ORDER BY a WITH FILL FROM", "(", "1", ")"},
	{"SELECT 1 ORDER BY a INTERPOLATE ( a AS", "(", "1", ")"},
	{"SELECT 1 LIMIT", "(", "1", ")"},
	{"SELECT 1 WHERE", "a = 1 AND (", "1", ")"},
	{"SELECT 1 GROUP BY", "(", "1", ")"},
	{"SELECT", "* REPLACE (", "a", "AS b )"},
	{"SELECT", "* APPLY (", "a", ")"},
	{"", "SELECT a WHERE (", "SELECT 1", ")"},
	{"", "SELECT a PREWHERE (", "SELECT 1", ")"},
	{"", "SELECT a GROUP BY (", "SELECT 1", ")"},
	{"", "SELECT a GROUP BY CUBE ( (", "SELECT 1", ") )"},
	{"", "SELECT a HAVING (", "SELECT 1", ")"},
	{"", "SELECT a ORDER BY (", "SELECT 1", ")"},
	{"", "SELECT a ORDER BY b WITH FILL FROM (", "SELECT 1", ")"},
	{"", "SELECT a ORDER BY b WITH FILL STEP (", "SELECT 1", ")"},
	{"", "SELECT a ORDER BY b WITH FILL INTERPOLATE ( c AS (", "SELECT 1", ") )"},
	{"", "SELECT a LIMIT (", "SELECT 1", ")"},
	{"", "SELECT a LIMIT 1 OFFSET (", "SELECT 1", ")"},
	{"", "SELECT a LIMIT 1 , (", "SELECT 1", ")"},
	{"", "SELECT a LIMIT 1 BY (", "SELECT 1", ")"},
	{"", "SELECT a LIMIT 1 BY a LIMIT (", "SELECT 1", ")"},
	{"", "SELECT a FROM t OFFSET (", "SELECT 1", ")"},
	{"", "SELECT a SETTINGS b = { 'c' : (", "SELECT 1", ") }"},
	{"", "SELECT a WINDOW w AS ( ORDER BY (", "SELECT 1", ") )"},
	{"", "SELECT a WINDOW w AS ( ROWS INTERVAL (", "SELECT 1", ") DAY PRECEDING )"},
	{"", "SELECT f ( a ) OVER ( PARTITION BY (", "SELECT 1", ") )"},
	{"", "SELECT f ( a ) OVER ( RANGE BETWEEN INTERVAL (", "SELECT 1", ") DAY PRECEDING AND CURRENT ROW )"},
	{"", "SELECT f ( a ) FILTER ( WHERE (", "SELECT 1", ") )"},
	{"", "SELECT * REPLACE ( (", "SELECT 1", ") AS a )"},
	{"", "SELECT * APPLY ( a -> (", "SELECT 1", ") )"},
	{"", "SELECT a FROM f ( (", "SELECT 1", ") )"},
	{"", "SELECT a FROM f (", "SELECT 1", ")"},
	{"", "SELECT a FROM t JOIN (", "SELECT 1", ") USING a"},
	{"", "SELECT a FROM t JOIN u ON (", "SELECT 1", ")"},
	{"", "SELECT a FROM t ARRAY JOIN (", "SELECT 1", ")"},
	{"", "SELECT a FROM t , (", "SELECT 1", ")"},
	{"", "WITH (", "SELECT 1", ") AS a SELECT 1"},
	{"", "WITH a AS ( SELECT 1 ) , b AS (", "SELECT 1", ") SELECT 1"},
	{"", "SELECT 1 INTERSECT (", "SELECT 1", ")"},
	{"", "( SELECT 1 EXCEPT (", "SELECT 1", ") )"},
	{"", "SELECT trim ( BOTH (", "SELECT 1", ") FROM a )"},
	{"", "SELECT substring ( a FROM (", "SELECT 1", ") FOR 1 )"},
	{"SELECT 1 FROM t", "JOIN ( t", "", ")"},
	{"SELECT 1 FROM", "(", "t", ")"},
	{"CREATE TABLE t ( a", "Tuple ( a Int32 , b", "Int32", ") )"},
	{"CREATE TABLE t ( a", "Tuple ( Int32 ,", "Int32", ") )"},
	{"CREATE TABLE t ( a", "Nested ( a Int32 , b", "Int32", ") )"},
	{"CREATE TABLE t ( a", "Map ( String ,", "Int32", ") )"},
	{"CREATE TABLE t ( a", "JSON ( b Int8 , a", "Int32", ") )"},
	{"CREATE TABLE t ( a", "AggregateFunction ( f ,", "Int32", ") )"},
	{"CREATE TABLE t ( a Int32 ) ORDER BY a PARTITION BY", "( a ,", "1", ")"},
	{"CREATE TABLE t ( a Int32 ) PRIMARY KEY", "f (", "1", ")"},
	{"CREATE TABLE t ( a Int32 ) TTL", "f (", "1", ")"},
	{"CREATE TABLE t ( a Int32 ) ORDER BY a TTL a GROUP BY", "f (", "1", ")"},
	{"CREATE TABLE t ( a Int32 ) ORDER BY a TTL a GROUP BY a SET b =", "f (", "1", ")"},
	{"CREATE TABLE t ( a Int32 ) SAMPLE BY", "f (", "1", ")"},
	{"CREATE TABLE t ( a Int32 CODEC", "( f", "( 1 )", ")"},
	{"CREATE TABLE t ( a Int32 , CONSTRAINT c CHECK", "f (", "1", ")"},
	{"CREATE TABLE t ( a Int32 , INDEX i", "f (", "1", ")"},
	{"CREATE TABLE t ( a Int32 , PROJECTION p ( SELECT", "f (", "1", ")"},
	{"CREATE TABLE t AS", "f (", "1", ")"},
	{"CREATE FUNCTION f AS a ->", "f (", "1", ")"},
	{"CREATE DICTIONARY d ( a Int32 DEFAULT", "f (", "1", ")"},
	{"ALTER TABLE t UPDATE a =", "f (", "1", ")"},
	{"ALTER TABLE t DELETE WHERE", "f (", "1", ")"},
	{"ALTER TABLE t DROP PARTITION", "f (", "1", ")"},
	{"DELETE FROM t WHERE", "f (", "1", ")"},
	{"INSERT INTO FUNCTION", "f (", "1", ")"},
	{"INSERT INTO t VALUES (", "f ( 1 ,", "1", ")"},
	{"INSERT INTO t VALUES (", "[ 1 ,", "1", "]"},
	{"OPTIMIZE TABLE t DEDUPLICATE BY", "f (", "1", ")"},
}
