package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/gen"
	"verif/harness/lex"
	"verif/harness/pbt"
)

func init() {
	register(&Check{
		ID: "C16", Quick: 160000, Thorough: 3000000,
		Rule: "one random statement; every field of every modelled node is compared with what the generator wrote there: flags and words, which clauses are present, the tokens and the number of the elements of each, level by level, and for the whole statement the names in each role and the literals; non-trivial: the statement has at least 4 nodes; distinct by text",
		Try:  sameOrRejected,
		Run: func(c *pbt.Case) {
			b, _ := build(c)
			n := accepted(c, gen.Canonical(b.In).S)
			m := roles{c: c}
			m.node(b.Root, n, "")
			c.NonTrivial = m.nodes >= 4
			inventory(c, b, n)
		},
	})
}

type roles struct {
	c     *pbt.Case
	nodes int
}

func (m *roles) node(want *gen.Node, n p.Expr, path string) {
	m.nodes++
	c := m.c
	typ := strings.TrimSuffix(want.Type, "+")
	path += "/" + typ
	if astx.IsNil(n) {
		c.Fail("%s is missing", path)
	}
	if got := astx.TypeName(n); got != typ {
		c.Fail("%s is a %s", path, got)
	}
	v := reflect.ValueOf(n).Elem()
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() || f.Type == reflect.TypeOf(p.Pos(0)) {
			continue
		}
		w := want.Fields[f.Name]
		if strings.HasSuffix(f.Name, "QuoteType") {
			continue
		}
		if w := want.Fields[f.Name+"!"]; w != nil {
			// printed in another form by the parent: only presence and contents count
			if k := f.Type.Kind(); k == reflect.Pointer || k == reflect.Interface {
				if nilValue(v.Field(i)) {
					c.Fail("%s.%s is missing", path, f.Name)
				}
				m.kids(w.Kids, v.Field(i).Interface().(p.Expr), path+"."+f.Name)
			}
			continue
		}
		if f.Name == "Right" && want.Type == "JoinExpr+" {
			continue // the joins behind, compared by fromClause
		}
		m.field(w, v.Field(i), path+"."+f.Name)
	}
	for _, name := range want.Order {
		if !strings.HasSuffix(name, "!") && !v.FieldByName(name).IsValid() {
			c.Fail("%s has no field %s", path, name)
		}
	}
}

func (m *roles) field(w *gen.Field, v reflect.Value, path string) {
	c := m.c
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() != (w != nil && w.Flag) {
			c.Fail("%s is %v", path, v.Bool())
		}
		return
	case reflect.String:
		val := ""
		if w != nil {
			val = w.Val
		}
		if !strings.EqualFold(v.String(), val) {
			c.Fail("%s is %q, expected %q", path, v.String(), val)
		}
		return
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.String {
			val := ""
			if w != nil {
				val = w.Val
			}
			var got []string
			for i := 0; i < v.Len(); i++ {
				got = append(got, v.Index(i).String())
			}
			if !strings.EqualFold(strings.Join(got, " "), val) {
				c.Fail("%s is %q, expected %q", path, got, val)
			}
			return
		}
		var list []*gen.Field
		if w != nil {
			list = w.List
		}
		if v.Len() != len(list) {
			c.Fail("%s has %d elements, expected %d", path, v.Len(), len(list))
		}
		for i, el := range list {
			m.value(el, v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
		return
	case reflect.Interface, reflect.Pointer:
		if nilValue(v) {
			if w != nil {
				c.Fail("%s is missing, expected %q", path, gen.Text(w.Toks))
			}
			return
		}
		if w == nil {
			c.Fail("%s is %q, expected nothing", path, show(v))
		}
		m.value(w, v, path)
	}
}

func nilValue(v reflect.Value) bool {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return true
		}
		v = v.Elem()
	}
	return false
}

func show(v reflect.Value) string {
	if n, ok := v.Interface().(p.Expr); ok {
		return p.Format(n)
	}
	return fmt.Sprint(v.Interface())
}

func (m *roles) value(w *gen.Field, v reflect.Value, path string) {
	n, ok := v.Interface().(p.Expr)
	if !ok {
		m.c.Fail("%s is no node", path)
	}
	if d := sameTokens(p.Format(n), w.Toks); d != "" {
		m.c.Fail("%s is %q, expected %q: %s", path, p.Format(n), gen.Text(w.Toks), d)
	}
	m.kids(w.Kids, n, path)
}

// kids matches the modelled nodes written in a field with those found there.
func (m *roles) kids(want []*gen.Node, n p.Expr, path string) {
	types := map[string]bool{"SelectQuery": true}
	for _, k := range want {
		types[strings.TrimSuffix(k.Type, "+")] = true
	}
	got := frontier(n, types)
	for i, k := range want {
		if i >= len(got) {
			m.c.Fail("%s: %s is missing", path, k.Type)
		}
		m.node(k, got[i], path)
	}
	if len(got) > len(want) {
		m.c.Fail("%s: extra %s %q", path, astx.TypeName(got[len(want)]), p.Format(got[len(want)]))
	}
}

// frontier lists the topmost nodes of the given types, in field order. The
// joins of a FROM are flattened.
func frontier(n p.Expr, types map[string]bool) []p.Expr {
	if astx.IsNil(n) {
		return nil
	}
	if j, ok := n.(*p.JoinExpr); ok && types["JoinTableExpr"] {
		if len(j.Modifiers) == 0 {
			return append(frontier(j.Left, types), frontier(j.Right, types)...)
		}
		return append([]p.Expr{j}, frontier(j.Right, types)...)
	}
	if types[astx.TypeName(n)] {
		return []p.Expr{n}
	}
	var out []p.Expr
	for _, k := range kidsOf(n) {
		out = append(out, frontier(k, types)...)
	}
	return out
}

// kidsOf lists the child nodes in field order.
func kidsOf(n p.Expr) []p.Expr {
	var out []p.Expr
	for _, it := range astx.Nodes(n) {
		if it.Depth == 1 {
			out = append(out, it.Node)
		}
	}
	return out
}

// inventory compares the literals and the names in each role of the whole
// statement.
func inventory(c *pbt.Case, b *gen.B, root p.Expr) {
	got := map[string][]string{}
	add := func(role, s string) { got[role] = append(got[role], s) }
	for _, it := range astx.Nodes(root) {
		switch x := it.Node.(type) {
		case *p.StringLiteral:
			add("string", "'"+x.Literal+"'")
		case *p.NumberLiteral:
			add("num", strings.TrimLeft(x.Literal, "+-"))
		case *p.FunctionExpr:
			add("function", p.Format(x.Name))
		case *p.TableFunctionExpr:
			add("function", p.Format(x.Name))
		case *p.QueryParam:
			add("param", p.Format(x.Name))
		case *p.TypedPlaceholder:
			add("param", p.Format(x.Name))
		case *p.NamedParameterExpr:
			add("named parameter", p.Format(x.Name))
		case *p.PlaceHolder:
			add("placeholder", x.Type)
		case *p.ColumnExpr:
			if x.Alias != nil {
				add("alias", p.Format(x.Alias))
			}
		case *p.SelectItem:
			if x.Alias != nil {
				add("alias", p.Format(x.Alias))
			}
		case *p.OrderExpr:
			if x.Alias != nil {
				add("alias", p.Format(x.Alias))
			}
		case *p.AliasExpr:
			if _, ok := it.Parent.(*p.TableExpr); ok {
				add("table alias", p.Format(x.Alias))
			} else {
				add("alias", p.Format(x.Alias))
			}
		}
	}
	want, roles := map[string][]string{}, map[string]string{}
	for i, t := range b.Out {
		role := t.Role
		if role == "table function" {
			role = "function"
		}
		switch t.K {
		case gen.Str:
			role = "string"
		case gen.Num:
			role = "num"
		case gen.Op:
			if t.S == "?" {
				role = "placeholder"
			}
		}
		_ = i
		s := t.S
		if role == "num" {
			ts, _ := lex.Tokens(s)
			s = ""
			for _, x := range ts {
				s += x.S
			}
			s = strings.TrimLeft(s, "+-")
		}
		want[role] = append(want[role], s)
		if r, ok := roles[s]; ok && r != role {
			role = "several"
		}
		roles[s] = role
	}
	for _, role := range []string{"string", "num", "function", "param", "named parameter", "alias", "table alias"} {
		g := got[role]
		if role == "function" {
			// keyword-like functions have no role, and other names may be the same
			var names []string
			for _, s := range want[role] {
				if roles[s] == role {
					names = append(names, s)
				}
			}
			g, want[role] = only(g, names), names
		}
		if d := sameBag(g, want[role]); d != "" {
			c.Fail("the tree's %s names differ: %s", role, d)
		}
	}
}

// only keeps the strings of g that occur in want.
func only(g, want []string) []string {
	in := map[string]bool{}
	for _, w := range want {
		in[w] = true
	}
	var out []string
	for _, s := range g {
		if in[s] {
			out = append(out, s)
		}
	}
	return out
}

// sameBag compares two collections without order.
func sameBag(got, want []string) string {
	g, w := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	for i := 0; i < len(g) || i < len(w); i++ {
		switch {
		case i >= len(g):
			return fmt.Sprintf("%q is missing", w[i])
		case i >= len(w):
			return fmt.Sprintf("%q was not written", g[i])
		case g[i] != w[i]:
			if g[i] < w[i] {
				return fmt.Sprintf("%q was not written", g[i])
			}
			return fmt.Sprintf("%q is missing", w[i])
		}
	}
	return ""
}
