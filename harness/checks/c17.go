package checks

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C17", Quick: 100000, Thorough: 2000000,
		Rule: "the tree of one random statement, up to four identifier, number or string nodes reached by Walk changed one after the other; non-trivial: at least 8 tokens; distinct by text",
		Run: func(c *pbt.Case) {
			if c.P(1, 4) {
				_, st := loose(c)
				root := pbt.Pick(c, st)
				if msg := ownNodes(root); msg != "" {
					c.Fail("%s", msg)
				}
				editable := editableNodes(root)
				if len(editable) == 0 {
					c.Discard()
				}
				for i, k := 0, c.Range(1, 4); i < k; i++ {
					if msg := edit(c, root, pbt.Pick(c, editable), i, false); msg != "" {
						c.Fail("%s", msg)
					}
				}
				c.NonTrivial = len(editable) >= 4
				return
			}
			b, _ := build(c)
			root := accepted(c, gen.Canonical(b.In).S)
			if msg := ownNodes(root); msg != "" {
				c.Fail("%s", msg)
			}
			editable := editableNodes(root)
			if len(editable) == 0 {
				c.Discard()
			}
			names := map[string]bool{} // texts whose spelling is free
			for _, t := range b.Out {
				switch t.K {
				case gen.Name:
					if t.Alt {
						names[t.S] = true
					}
				case gen.Num, gen.Str:
					names[t.S] = true
				case gen.KW, gen.Verb:
					names[t.S] = false
				}
			}
			for _, t := range b.Out {
				if t.K == gen.KW || t.K == gen.Verb {
					delete(names, t.S)
				}
			}
			n := c.Range(1, 4)
			free := true // the text stays valid as long as only these change
			for i := 0; i < n; i++ {
				x := pbt.Pick(c, editable)
				free = free && names[spelled(x)]
				names[fmt.Sprintf("edited%d", i)] = free
				if msg := edit(c, root, x, i, free); msg != "" {
					c.Fail("%s", msg)
				}
			}
			c.NonTrivial = len(b.In) >= 8
		},
		Try: func(kind, in string) string {
			root, err := one(in)
			if err != nil {
				return "rejected: " + oneLine(err)
			}
			if msg := ownNodes(root); msg != "" {
				return msg
			}
			for i, x := range editableNodes(root) {
				if msg := edit(nil, root, x, i, false); msg != "" {
					return msg
				}
			}
			return ""
		},
	})
}

func editableNodes(root p.Expr) []p.Expr {
	var out []p.Expr
	p.Walk(root, func(n p.Expr) bool {
		switch n.(type) {
		case *p.Ident, *p.NumberLiteral, *p.StringLiteral:
			out = append(out, n)
		}
		return true
	})
	return out
}

// spelled is the text a node stands for.
func spelled(n p.Expr) string {
	switch x := n.(type) {
	case *p.Ident:
		switch x.QuoteType {
		case p.BackTicks:
			return "`" + x.Name + "`"
		case p.DoubleQuote:
			return "\"" + x.Name + "\""
		case p.SingleQuote:
			return "'" + x.Name + "'"
		}
		return x.Name
	case *p.NumberLiteral:
		return x.Literal
	case *p.StringLiteral:
		return "'" + x.Literal + "'"
	}
	return ""
}

// edit changes one node and checks what changes in the output.
func edit(c *pbt.Case, root, x p.Expr, i int, reparse bool) string {
	before := tokensOf(p.Format(root))
	beforeB := tokensOf(beautify(root, "  "))
	old := spelled(x)
	switch n := x.(type) {
	case *p.Ident:
		if n.QuoteType == 0 && n.Name == "*" {
			n.QuoteType = p.Unquoted // *
		}
		n.Name = fmt.Sprintf("edited%d", i)
		if c != nil && n.QuoteType > p.Unquoted && c.Bool() {
			n.Name = fmt.Sprintf("edited it %d", i)
		}
	case *p.NumberLiteral:
		sign := ""
		if s := n.Literal; s != "" && (s[0] == '-' || s[0] == '+') {
			sign = s[:1]
		}
		n.Literal = sign + fmt.Sprintf("98765%d", i)
		n.Base = 10
	case *p.StringLiteral:
		n.Literal = fmt.Sprintf("edited''%d", i)
	}
	text := spelled(x)
	f := p.Format(root)
	if id, ok := x.(*p.Ident); ok && c != nil && id.QuoteType == p.Unquoted && usingWord[strings.ToUpper(old)] {
		// USING (a, like) needs its parentheses only while the last name is a
		// reserved keyword: a recorded finding
		if a, b := noParens(before), noParens(tokensOf(f)); oneChange(a, b, old, text) == "" {
			return ""
		}
	}
	if d := oneChange(before, tokensOf(f), old, text); d != "" {
		return fmt.Sprintf("%s %s changed to %s: %s; formatted %q", astx.TypeName(x), old, text, d, f)
	}
	if d := oneChange(beforeB, tokensOf(beautify(root, "  ")), old, text); d != "" {
		return fmt.Sprintf("%s %s changed to %s: beautified: %s", astx.TypeName(x), old, text, d)
	}
	if reparse {
		n2, err := one(f)
		if err != nil {
			return fmt.Sprintf("%s %s changed to %s: the edited text does not parse: %s; formatted %q", astx.TypeName(x), old, text, oneLine(err), f)
		}
		if d := astx.Diff(dump(root), dump(n2)); d != "" {
			return fmt.Sprintf("%s %s changed to %s: the edited text parses to another tree %s; formatted %q", astx.TypeName(x), old, text, d, f)
		}
	}
	return ""
}

var usingWord = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range gen.HardKeywords() {
		m[strings.ToUpper(w)] = true
	}
	for w := range reservedWord {
		m[w] = true
	}
	return m
}()

func noParens(ts []string) []string {
	var out []string
	for _, t := range ts {
		if t != "(" && t != ")" {
			out = append(out, t)
		}
	}
	return out
}

// oneChange says why b is not a with one occurrence of the tokens of old
// replaced by those of text.
func oneChange(a, b []string, old, text string) string {
	to, tn := tokensOf(old), tokensOf(text)
	if strings.Join(a, "\x00") == strings.Join(b, "\x00") {
		return "the output does not change"
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	// the first difference may lie inside the replaced tokens (a common sign)
	for s := i; s >= 0 && s > i-3; s-- {
		if !prefix(a[s:], to) || !prefix(b[s:], tn) {
			continue
		}
		ra, rb := a[s+len(to):], b[s+len(tn):]
		if strings.Join(ra, "\x00") == strings.Join(rb, "\x00") {
			return ""
		}
		return "other tokens change too"
	}
	return fmt.Sprintf("token %d changes otherwise", i)
}

func prefix(a, b []string) bool {
	if len(a) < len(b) {
		return false
	}
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ownNodes reports a node that is stored in two places.
func ownNodes(root p.Expr) string {
	seen := map[p.Expr]astx.Item{}
	for _, it := range astx.Nodes(root) {
		if was, ok := seen[it.Node]; ok {
			return fmt.Sprintf("%s is shared by field %s of %s and field %s of %s", describe(it.Node), was.Field, astx.TypeName(was.Parent), it.Field, astx.TypeName(it.Parent))
		}
		seen[it.Node] = it
	}
	return ""
}
