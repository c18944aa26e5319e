package astx

import (
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/lex"
)

// Group renders the operator grouping of an expression tree in the notation of
// gen.E, lower-cased.
func Group(n p.Expr) string {
	return strings.ToLower(grouper{}.group(n))
}

// GroupBare is Group with parentheses around a single operand left out.
func GroupBare(n p.Expr) string {
	return strings.ToLower(grouper{true}.group(n))
}

type grouper struct{ bare bool }

func leafText(n p.Expr) string { return Join(p.Format(n)) }

// Join re-joins the tokens of s with single spaces.
func Join(s string) string {
	ts, ok := lex.Tokens(s)
	if !ok {
		return s
	}
	var out []string
	for _, t := range ts {
		out = append(out, t.S)
	}
	return strings.Join(out, " ")
}

func node(op string, kids ...string) string {
	return "(" + op + pre(kids) + ")"
}

func pre(k []string) string {
	if len(k) == 0 {
		return ""
	}
	return " " + strings.Join(k, " ")
}

func (g grouper) list(l *p.ColumnExprList) []string {
	var out []string
	if l == nil {
		return nil
	}
	if l.HasDistinct {
		out = append(out, "(distinct)")
	}
	for _, it := range l.Items {
		out = append(out, g.group(it))
	}
	return out
}

func (g grouper) group(n p.Expr) string {
	switch x := n.(type) {
	case nil:
		return "nil"
	case *p.ColumnExpr:
		if x.Alias != nil {
			return node("as", g.group(x.Expr), leafText(x.Alias))
		}
		return g.group(x.Expr)
	case *p.AliasExpr:
		return node("as", g.group(x.Expr), leafText(x.Alias))
	case *p.BinaryOperation:
		op := string(x.Operation)
		if x.HasNot {
			op = "NOT " + op
		}
		if x.HasGlobal {
			op = "GLOBAL " + op
		}
		if op == "::" {
			return node(op, g.group(x.LeftExpr), leafText(x.RightExpr))
		}
		return node(op, g.group(x.LeftExpr), g.group(x.RightExpr))
	case *p.UnaryExpr:
		return node("u:"+string(x.Kind), g.group(x.Expr))
	case *p.NegateExpr:
		return node("u:-", g.group(x.Expr))
	case *p.NotExpr:
		return node("u:NOT", g.group(x.Expr))
	case *p.NumberLiteral:
		if s := x.Literal; len(s) > 1 && (s[0] == '-' || s[0] == '+') {
			return node("u:"+s[:1], s[1:])
		}
		return Join(x.Literal)
	case *p.BetweenClause:
		op := "between"
		if x.Not {
			op = "notbetween"
		}
		return node(op, g.group(x.Expr), g.group(x.Between), g.group(x.And))
	case *p.TernaryOperation:
		return node("?:", g.group(x.Condition), g.group(x.TrueExpr), g.group(x.FalseExpr))
	case *p.IsNullExpr:
		return node("isnull", g.group(x.Expr))
	case *p.IsNotNullExpr:
		return node("isnotnull", g.group(x.Expr))
	case *p.IndexOperation:
		return node(".", g.group(x.Object), leafText(x.Index))
	case *p.ObjectParams:
		k := []string{g.group(x.Object)}
		if x.Params != nil {
			k = append(k, g.list(x.Params.Items)...)
		}
		return node("[]", k...)
	case *p.ArrayParamList:
		return node("array", g.list(x.Items)...)
	case *p.ParamExprList:
		k := g.list(x.Items)
		if g.bare && len(k) == 1 && x.ColumnArgList == nil && !strings.HasPrefix(k[0], "(as ") {
			return k[0]
		}
		return node("paren", k...)
	case *p.FunctionExpr:
		return g.call(x, "")
	case *p.WindowFunctionExpr:
		return g.call(x.Function, Join("OVER "+p.Format(x.OverExpr)))
	}
	return leafText(n)
}

func (g grouper) call(f *p.FunctionExpr, over string) string {
	k := []string{leafText(f.Name)}
	if f.Params != nil {
		k = append(k, g.list(f.Params.Items)...)
		if c := f.Params.ColumnArgList; c != nil {
			var items []string
			if c.Distinct {
				items = append(items, "(distinct)")
			}
			for _, it := range c.Items {
				items = append(items, g.group(it))
			}
			k = append(k, node("params", items...))
		}
	}
	if over != "" {
		k = append(k, over)
	}
	return node("call", k...)
}
