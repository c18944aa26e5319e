package gen

import "strings"

// Bare is the grouping with parentheses around a single operand left out.
func (e *E) Bare() string {
	return e.bare().String()
}

func (e *E) bare() *E {
	if e.Op == "" {
		return e
	}
	if e.Op == "paren" && len(e.Kids) == 1 && e.Kids[0].Op != "as" {
		return e.Kids[0].bare()
	}
	n := &E{Op: e.Op}
	for _, k := range e.Kids {
		n.Kids = append(n.Kids, k.bare())
	}
	return n
}

// Ops counts the operators of an expression.
func (e *E) Ops() int {
	n := 0
	switch e.Op {
	case "", "paren", "as", "array", "call", "distinct", "params":
	default:
		n = 1
	}
	for _, k := range e.Kids {
		n += k.Ops()
	}
	return n
}

type parens struct {
	b     *B
	Added int
	out   []Tok
	num   int
}

// WithParens writes the expression again with parentheses added around random
// operands, which must not change the grouping. It returns the tokens and the
// number of pairs added.
func (b *B) WithParens(e *E, num int) ([]Tok, int) {
	w := &parens{b: b, num: num}
	w.expr(e)
	return w.out, w.Added
}

func (w *parens) op(s string) {
	for _, x := range strings.Fields(s) {
		k := Op
		if c := x[0]; c >= 'A' && c <= 'Z' {
			k = KW
		}
		// an odd identity keeps a sign apart from the number behind it
		w.b.id++
		w.out = append(w.out, Tok{S: x, K: k, ID: w.b.id | 1})
	}
}

// operand writes a part that may stand in parentheses.
func (w *parens) operand(e *E) {
	if e.Op != "paren" && w.may(e) && w.b.C.P(w.num, 4) {
		w.Added++
		w.op("(")
		w.expr(e)
		w.op(")")
		return
	}
	w.expr(e)
}

// may says whether e means the same in parentheses.
func (w *parens) may(e *E) bool {
	switch e.Op {
	case "as", "distinct", "params", "FROM", "FOR", "PLACING", "u:BOTH", "u:LEADING", "u:TRAILING":
		return false
	case "":
		for _, t := range e.Leaf {
			if t.S == "*" {
				return false
			}
		}
		return len(e.Leaf) > 0
	}
	return true
}

func (w *parens) list(kids []*E) {
	first := true
	for _, k := range kids {
		if k.Op == "distinct" {
			w.op("DISTINCT")
			continue
		}
		if !first {
			w.op(",")
		}
		first = false
		w.item(k)
	}
}

// item writes an element of a list, which may have an alias.
func (w *parens) item(e *E) {
	if e.Op == "as" {
		w.operand(e.Kids[0])
		w.op("AS")
		w.out = append(w.out, e.Kids[1].Leaf...)
		return
	}
	w.operand(e)
}

func (w *parens) expr(e *E) {
	switch {
	case e.Op == "":
		w.out = append(w.out, e.Leaf...)
	case e.Op == "->":
		w.expr(e.Kids[0])
		w.op("->")
		w.operand(e.Kids[1])
	case e.Op == "?:":
		w.operand(e.Kids[0])
		w.op("?")
		w.operand(e.Kids[1])
		w.op(":")
		w.operand(e.Kids[2])
	case e.Op == "between", e.Op == "notbetween":
		w.operand(e.Kids[0])
		if e.Op[0] == 'n' {
			w.op("NOT")
		}
		w.op("BETWEEN")
		w.operand(e.Kids[1])
		w.op("AND")
		w.operand(e.Kids[2])
	case e.Op == "isnull":
		w.operand(e.Kids[0])
		w.op("IS NULL")
	case e.Op == "isnotnull":
		w.operand(e.Kids[0])
		w.op("IS NOT NULL")
	case e.Op == "u:NOT", e.Op == "u:-", e.Op == "u:+":
		w.op(e.Op[2:])
		w.operand(e.Kids[0])
	case strings.HasPrefix(e.Op, "u:"):
		w.op(e.Op[2:])
		w.expr(e.Kids[0])
	case e.Op == "FROM", e.Op == "FOR", e.Op == "PLACING":
		w.expr(e.Kids[0])
		w.op(e.Op)
		w.expr(e.Kids[1])
	case e.Op == "::", e.Op == ".":
		if len(e.Kids[0].Leaf) == 0 || e.Op == "::" {
			w.operand(e.Kids[0])
		} else {
			w.expr(e.Kids[0]) // a.b is one path, (a).b is not
		}
		w.op(e.Op)
		w.out = append(w.out, e.Kids[1].Leaf...)
	case e.Op == "[]":
		w.operand(e.Kids[0])
		w.op("[")
		w.list(e.Kids[1:])
		w.op("]")
	case e.Op == "array":
		w.op("[")
		w.list(e.Kids)
		w.op("]")
	case e.Op == "paren":
		w.op("(")
		w.list(e.Kids)
		w.op(")")
	case e.Op == "call":
		w.expr(e.Kids[0])
		w.op("(")
		kids := e.Kids[1:]
		var over *E
		if n := len(kids); n > 0 && len(kids[n-1].Leaf) > 1 && kids[n-1].Leaf[0].K == KW && kids[n-1].Leaf[0].S == "OVER" {
			over, kids = kids[n-1], kids[:n-1]
		}
		var params *E
		if n := len(kids); n > 0 && kids[n-1].Op == "params" {
			params, kids = kids[n-1], kids[:n-1]
		}
		w.list(kids)
		w.op(")")
		if params != nil {
			w.op("(")
			w.list(params.Kids)
			w.op(")")
		}
		if over != nil {
			w.out = append(w.out, over.Leaf...)
		}
	default:
		w.operand(e.Kids[0])
		w.op(e.Op)
		w.operand(e.Kids[1])
	}
}
