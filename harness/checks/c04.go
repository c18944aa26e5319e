package checks

import (
	"fmt"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C04", Quick: 90000, Thorough: 3000000,
		Rule: "one random statement whose expected output tokens the generator knows (input tokens plus the documented canonicalisations); non-trivial: at least 8 tokens; distinct by text",
		Run: func(c *pbt.Case) {
			if c.P(1, 4) {
				s, st := loose(c)
				if formatDropped(s, st) {
					c.Discard()
				}
				if msg := keeps(s, st); msg != "" {
					c.Fail("%s", msg)
				}
				c.NonTrivial = len(tokensOf(s)) >= 8
				return
			}
			b, _ := build(c)
			everyAccepted(c, b, 20, func(s string, st []p.Expr) string {
				if formatDropped(s, st) {
					return ""
				}
				return keeps(s, st)
			})
			src := gen.Canonical(b.In)
			n := accepted(c, src.S)
			f := p.Format(n)
			if d := sameTokens(f, b.Out); d != "" {
				c.Fail("%s\nformatted: %q", d, f)
			}
			c.NonTrivial = len(b.In) >= 8
		},
		Try: sameOrRejected,
	})
}

// sameOrRejected decides recorded texts: kind "reject" must be rejected, others
// (with kind "fold", regardless of letter case)
// must be formatted with the tokens they have.
func sameOrRejected(kind, in string) string {
	st, err := parse(in)
	if kind == "reject" {
		if err == nil {
			return "accepted"
		}
		return ""
	}
	if err != nil {
		return "rejected: " + oneLine(err)
	}
	for _, n := range st {
		out := p.Format(n)
		if kind == "fold" {
			in, out = strings.ToUpper(in), strings.ToUpper(out)
		}
		if d := tokenDiff(in, out); d != "" {
			return fmt.Sprintf("%s; formatted: %q", d, p.Format(n))
		}
	}
	return ""
}

// keeps compares the words, names, literals and operators of any accepted
// text with those of its formatted statements. AS is left out, parentheses
// and commas may only be lost.
func keeps(s string, st []p.Expr) string {
	var out []string
	for _, n := range st {
		out = append(out, p.Format(n))
	}
	a, b := content(s), content(strings.Join(out, ";"))
	if inOrder(s, strings.Join(out, ";"), st) {
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				return fmt.Sprintf("%q becomes %q; formatted: %q", a[i], b[i], out)
			}
		}
	}
	// trailing commas and needless parentheses may go, none may come
	// but those of USING
	for _, w := range []string{"(", ")", ","} {
		more := 0
		if w != "," {
			more = count(s, "USING")
		}
		if n, m := count(s, w), count(strings.Join(out, ";"), w); m > n+more {
			return fmt.Sprintf("%q is written %d times, formatted %d times: %q", w, n, m, out)
		}
	}
	sort.Strings(a)
	sort.Strings(b)
	for i := 0; i < len(a) || i < len(b); i++ {
		switch {
		case i >= len(a), i < len(b) && a[i] > b[i]:
			return fmt.Sprintf("%q is added; formatted: %q", b[i], out)
		case i >= len(b), a[i] < b[i]:
			return fmt.Sprintf("%q is dropped; formatted: %q", a[i], out)
		}
	}
	return ""
}

func count(s, tok string) (n int) {
	for _, w := range tokensOf(s) {
		if strings.EqualFold(w, tok) {
			n++
		}
	}
	return n
}

func content(s string) []string {
	ts, _ := lex.Tokens(s)
	var out []string
	for i, t := range ts {
		switch t.S {
		case "(", ")", ",", ";":
			continue
		case "=": // ENGINE [=] name
			if i > 0 && strings.EqualFold(ts[i-1].S, "ENGINE") {
				continue
			}
		}
		w := t.S
		if t.K == lex.Word {
			if u := strings.ToUpper(w); isWord[u] {
				w = u
			}
			if i == 0 || ts[i-1].S == ";" {
				switch w {
				case "DESC":
					w = "DESCRIBE"
				case "SETTINGS":
					w = "SET"
				case "ATTACH": // recorded
					w = "CREATE"
				}
			}
			switch w {
			case "AS", "ASC", "OFFSET":
				continue
			case "DESCENDING":
				w = "DESC"
			case "ASCENDING":
				continue
			}
		}
		out = append(out, w)
	}
	return out
}

var isWord = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range sqlWords {
		m[w] = true
	}
	return m
}()

// formatDropped tells whether a statement other than SELECT holds FORMAT, which
// a recorded finding is about.
func formatDropped(s string, st []p.Expr) bool {
	for _, n := range st {
		if _, ok := n.(*p.SelectQuery); !ok {
			for _, w := range tokensOf(s) {
				if strings.EqualFold(w, "FORMAT") {
					return true
				}
			}
		}
	}
	return false
}

// inOrder tells whether the statements are ones that are printed in the order
// they were written in: queries without LIMIT a, b and JSON types.
func inOrder(s, out string, st []p.Expr) bool {
	if len(offsets(s)) != len(offsets(out)) || strings.Contains(strings.ToUpper(s), "JSON") {
		return false
	}
	ts := tokensOf(s)
	for i := 1; i+1 < len(ts); i++ {
		// WITH TOTALS WITH CUBE: the tree records which, not in what order
		if strings.EqualFold(ts[i], "WITH") && (strings.EqualFold(ts[i-1], "TOTALS") || strings.EqualFold(ts[i-1], "ROLLUP")) {
			return false
		}
	}
	for _, n := range st {
		if _, ok := n.(*p.SelectQuery); !ok {
			return false
		}
	}
	return true
}

func offsets(s string) []string {
	var out []string
	for _, w := range tokensOf(s) {
		if strings.EqualFold(w, "OFFSET") {
			out = append(out, w)
		}
	}
	return out
}
