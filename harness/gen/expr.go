package gen

import (
	"strings"

	"verif/harness/lex"
	"verif/harness/pbt"
)

// E is the expected grouping of an expression.
type E struct {
	Op   string
	Kids []*E
	Leaf []Tok
}

func leaf(ts []Tok) *E { return &E{Leaf: clone(ts)} }

// String renders the grouping canonically (words lower-cased, signs split).
func (e *E) String() string {
	if e.Op == "" {
		var sb strings.Builder
		for i, t := range e.Leaf {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(canonLeaf(t))
		}
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("(" + e.Op)
	for _, k := range e.Kids {
		sb.WriteByte(' ')
		sb.WriteString(k.String())
	}
	sb.WriteByte(')')
	return sb.String()
}

func canonLeaf(t Tok) string {
	if t.K == Num || t.K == Verb {
		// signs and leading dots are tokens of their own
		ts, _ := lex.Tokens(t.S)
		var parts []string
		for _, x := range ts {
			parts = append(parts, x.S)
		}
		return strings.Join(parts, " ")
	}
	return t.S
}

// Binding levels, loosest first. They restate the documented table.
const (
	lAny = iota
	lArrow
	lTernary
	lOr
	lAnd
	lNot
	lIs
	lCmp
	lBetween
	lIn
	lConcat
	lAdd
	lMul
	lPostfix // subscript and member access
	lCast    // ::
	lPrimary
)

// mark starts a leaf capture on the output side.
func (b *B) capture(f func()) []Tok {
	start := len(b.Out)
	f()
	return clone(b.Out[start:])
}

// Expr writes an expression and records it as a site.
func (b *B) Expr(where string) *E {
	start, lo := len(b.Out), len(b.In)
	e := b.expr(lAny)
	b.Exprs = append(b.Exprs, &Site{Where: where, E: e, Out: clone(b.Out[start:]), Lo: lo, Hi: len(b.In)})
	return e
}

// ExprNoStart writes an expression that does not begin with an operator or a
// keyword, for places where the word before it could be read as a name.
func (b *B) exprSafeStart(where string) *E {
	start, lo := len(b.Out), len(b.In)
	b.noOpStart = true
	e := b.expr(lOr)
	b.noOpStart = false
	b.Exprs = append(b.Exprs, &Site{Where: where, E: e, Out: clone(b.Out[start:]), Lo: lo, Hi: len(b.In)})
	return e
}

func (b *B) deep() bool { return b.depth >= b.Opt.MaxDepth }

// expr writes an expression whose top operator binds at least as tight as min.
func (b *B) expr(min int) *E {
	b.depth++
	defer func() { b.depth-- }()
	if b.tower > 0 {
		return b.rise(min)
	}
	if !b.Opt.Simple && b.C.P(1, 2500) {
		b.tower = b.n2(4, 70)
		b.feat("deep expression")
		defer func() { b.tower = 0 }()
		return b.rise(min)
	}
	if b.depth > b.Opt.MaxDepth {
		return b.primary()
	}
	w := 3
	if b.Opt.OpHeavy {
		w = 10
	}
	// 0: primary, otherwise an operator level
	if b.C.Weighted(5, w) == 0 {
		return b.primary()
	}
	return b.operation(min)
}

// rise writes one level of a deep expression: one operand is deep, the others
// are small.
func (b *B) rise(min int) *E {
	b.tower--
	save := b.depth
	b.depth = b.Opt.MaxDepth
	defer func() { b.depth = save }()
	switch b.C.Weighted(4, 2, 2, 1, 1, 1, 1, 1) {
	case 0:
		return b.operation(min)
	case 1:
		return b.paren()
	case 2:
		return b.call()
	case 3:
		return b.array()
	case 4:
		b.feat("case")
		return b.done(b.leafOf(b.caseExpr))
	case 5:
		b.noOpStart = false
		return b.leafOf(func() { b.subquery() })
	case 6:
		return b.castCall()
	}
	return b.primary()
}

// operation writes an expression made by an operator.
func (b *B) operation(min int) *E {
	levels := []int{}
	for l := min; l < lPrimary; l++ {
		switch l {
		case lAny:
			continue
		case lArrow, lNot:
			if b.noOpStart && l == lNot {
				continue
			}
		}
		levels = append(levels, l)
	}
	if len(levels) == 0 {
		return b.primary()
	}
	l := pbt.Pick(b.C, levels)
	switch l {
	case lArrow:
		b.feat("lambda")
		var lhs *E
		if b.C.P(1, 3) {
			b.noOpStart = false
			st := len(b.Out)
			var kids []*E
			b.op("(")
			b.list(1, 3, func(int) {
				s := len(b.Out)
				b.name("lambda-param", PosPlain)
				kids = append(kids, leaf(b.Out[s:]))
			})
			b.op(")")
			_ = st
			lhs = &E{Op: "paren", Kids: kids}
		} else {
			s := len(b.Out)
			b.name("lambda-param", PosPlain)
			lhs = leaf(b.Out[s:])
		}
		b.noOpStart = false
		b.op("->")
		return &E{Op: "->", Kids: []*E{lhs, b.expr(lAny)}}
	case lTernary:
		b.feat("ternary")
		c := b.expr(lOr)
		b.noOpStart = false
		b.op("?")
		x := b.expr(lAny)
		b.op(":")
		y := b.expr(lAny)
		return &E{Op: "?:", Kids: []*E{c, x, y}}
	case lOr:
		return b.binKw(lOr, "OR")
	case lAnd:
		return b.binKw(lAnd, "AND")
	case lNot:
		b.feat("not")
		b.kw("NOT")
		return &E{Op: "u:NOT", Kids: []*E{b.expr(lNot)}}
	case lIs:
		b.feat("is null")
		x := b.expr(lIs)
		b.noOpStart = false
		if b.C.Bool() {
			b.kw("IS NOT NULL")
			return &E{Op: "isnotnull", Kids: []*E{x}}
		}
		b.kw("IS NULL")
		return &E{Op: "isnull", Kids: []*E{x}}
	case lCmp:
		x := b.expr(lCmp)
		b.noOpStart = false
		o := pbt.Pick(b.C, []string{"=", "<", ">", "<=", ">=", "!=", "<>", "=="})
		b.op(o)
		return &E{Op: o, Kids: []*E{x, b.expr(lCmp + 1)}}
	case lBetween:
		x := b.expr(lBetween)
		b.noOpStart = false
		switch b.C.Weighted(2, 1, 1, 1, 1, 1, 1) {
		case 0, 1:
			op := "between"
			if b.C.Bool() {
				b.kw("NOT")
				op = "notbetween"
			}
			b.feat(op)
			b.kw("BETWEEN")
			y := b.expr(lBetween + 1)
			b.kw("AND")
			z := b.expr(lBetween + 1)
			return &E{Op: op, Kids: []*E{x, y, z}}
		case 2:
			return b.binTail(x, lBetween, "LIKE")
		case 3:
			return b.binTail(x, lBetween, "NOT LIKE")
		case 4:
			return b.binTail(x, lBetween, "ILIKE")
		case 5:
			return b.binTail(x, lBetween, "NOT ILIKE")
		default:
			return b.binTail(x, lBetween, "REGEXP")
		}
	case lIn:
		x := b.expr(lIn)
		b.noOpStart = false
		return b.binTail(x, lIn, pbt.Pick(b.C, []string{"IN", "NOT IN", "GLOBAL IN", "GLOBAL NOT IN"}))
	case lConcat:
		x := b.expr(lConcat)
		b.noOpStart = false
		b.op("||")
		return &E{Op: "||", Kids: []*E{x, b.expr(lConcat + 1)}}
	case lAdd:
		x := b.expr(lAdd)
		b.noOpStart = false
		o := pbt.Pick(b.C, []string{"+", "-"})
		b.op(o)
		return &E{Op: o, Kids: []*E{x, b.expr(lAdd + 1)}}
	case lMul:
		x := b.expr(lMul)
		b.noOpStart = false
		o := pbt.Pick(b.C, []string{"*", "/", "%"})
		b.op(o)
		return &E{Op: o, Kids: []*E{x, b.expr(lMul + 1)}}
	case lPostfix:
		return b.postfix()
	case lCast:
		b.feat("::")
		x := b.castOperand()
		b.noOpStart = false
		n := b.count(1, 2)
		for i := 0; i < n; i++ {
			b.op("::")
			s := len(b.Out)
			b.castType()
			x = &E{Op: "::", Kids: []*E{x, leaf(b.Out[s:])}}
		}
		return x
	}
	return b.primary()
}

func (b *B) binKw(l int, k string) *E {
	x := b.expr(l)
	b.noOpStart = false
	return b.binTail(x, l, k)
}

func (b *B) binTail(x *E, l int, k string) *E {
	b.feat(strings.ToLower(k))
	b.kw(k)
	if (l == lOr || l == lAnd) && !b.deep() && b.C.P(1, 5) {
		return &E{Op: k, Kids: []*E{x, b.chain()}}
	}
	return &E{Op: k, Kids: []*E{x, b.expr(l + 1)}}
}

// chain writes a chain of one logical operator in parentheses.
func (b *B) chain() *E {
	b.feat("logical chain in parentheses")
	b.noOpStart = false
	k := pbt.Pick(b.C, []string{"AND", "OR"})
	b.op("(")
	x := b.expr(lNot)
	for i := b.n2(1, 4); i > 0; i-- {
		b.kw(k)
		if b.C.P(1, 5) && !b.deep() {
			b.depth++
			x = &E{Op: k, Kids: []*E{x, b.chain()}}
			b.depth--
			continue
		}
		x = &E{Op: k, Kids: []*E{x, b.expr(lNot)}}
	}
	b.op(")")
	return &E{Op: "paren", Kids: []*E{x}}
}

// postfix writes object[...] / object.member chains.
func (b *B) postfix() *E {
	b.feat("postfix")
	var x *E
	path := false
	switch b.C.Weighted(6, 6, 4, 2, 1, 1) {
	case 5:
		b.feat("member of ::")
		x = b.castOperand()
		b.noOpStart = false
		b.op("::")
		s := len(b.Out)
		b.castType()
		x = &E{Op: "::", Kids: []*E{x, leaf(b.Out[s:])}}
	case 4:
		s := len(b.Out)
		b.num()
		x = leaf(b.Out[s:])
	case 0:
		s := len(b.Out)
		b.name("column", PosPlain)
		x = leaf(b.Out[s:])
		path = true
		// a name directly followed by .name is one path leaf
		k := b.n2(0, 2)
		for i := 0; i < k; i++ {
			b.op(".")
			b.name("member", PosAfterDot)
			x = leaf(b.Out[s:])
		}
		if k == 0 && b.C.P(1, 4) {
			b.noOpStart = false
			b.op(".")
			s2 := len(b.Out)
			b.dec()
			return &E{Op: ".", Kids: []*E{x, leaf(b.Out[s2:])}}
		}
	case 1:
		x = b.call()
	case 2:
		x = b.paren()
	default:
		x = b.array()
	}
	b.noOpStart = false
	n := b.count(1, 3)
	for i := 0; i < n; i++ {
		if path || b.C.Bool() {
			path = false
			b.feat("subscript")
			b.op("[")
			kids := []*E{x}
			b.list(1, 2, func(int) { kids = append(kids, b.expr(lAny)) })
			b.op("]")
			x = &E{Op: "[]", Kids: kids}
			continue
		}
		b.op(".")
		s := len(b.Out)
		if b.C.P(1, 4) {
			b.dec()
		} else {
			b.name("member", PosAfterDot)
		}
		x = &E{Op: ".", Kids: []*E{x, leaf(b.Out[s:])}}
	}
	return x
}

func (b *B) castOperand() *E {
	switch b.C.Weighted(3, 3, 1, 1, 1) {
	case 0:
		s := len(b.Out)
		b.name("column", PosPlain)
		return leaf(b.Out[s:])
	case 1:
		s := len(b.Out)
		b.numLit()
		return leaf(b.Out[s:])
	case 2:
		s := len(b.Out)
		b.str()
		return leaf(b.Out[s:])
	case 3:
		return b.paren()
	}
	return b.array()
}

// castType writes the right side of :: (read as an expression by the parser).
func (b *B) castType() {
	switch b.C.Weighted(8, 4, 2, 2, 1) {
	case 4:
		b.feat(":: number")
		b.num()
	case 0:
		b.fixed(pbt.Pick(b.C, []string{"Int32", "String", "Float64", "Date", "UInt8", "JSON"}))
	case 1:
		b.fixed(pbt.Pick(b.C, []string{"Nullable", "Array", "LowCardinality"}))
		b.op("(")
		b.fixed("Int8")
		b.op(")")
	case 2:
		b.fixed("Decimal")
		b.op("(")
		b.dec()
		b.op(",")
		b.dec()
		b.op(")")
	case 3:
		b.fixed("Tuple")
		b.op("(")
		b.list(1, 2, func(int) {
			b.name("field", PosPlain)
			b.typ(2)
		})
		b.op(")")
	}
}

func (b *B) numLit() { b.num() }

func (b *B) paren() *E {
	b.noOpStart = false
	b.op("(")
	var kids []*E
	b.list(1, 3, func(int) { kids = append(kids, b.aliased()) })
	if b.C.P(1, 30) || len(kids) == 1 && b.C.P(1, 12) {
		b.op(",") // a tuple of one
	}
	b.op(")")
	return &E{Op: "paren", Kids: kids}
}

// aliased writes expr [AS alias].
func (b *B) aliased() *E {
	e := b.expr(lAny)
	if b.C.P(1, 10) {
		b.kw("AS")
		s := len(b.Out)
		b.name("alias", PosAny)
		b.feat("inner alias")
		return &E{Op: "as", Kids: []*E{e, leaf(b.Out[s:])}}
	}
	return e
}

func (b *B) array() *E {
	b.noOpStart = false
	b.op("[")
	var kids []*E
	if b.C.P(1, 30) {
		b.feat("distinct array")
		b.kw("DISTINCT")
		kids = append(kids, &E{Op: "distinct"})
		b.list(1, 2, func(int) { kids = append(kids, b.aliased()) })
	} else {
		b.listT(0, 3, true, func(int) { kids = append(kids, b.aliased()) })
	}
	b.op("]")
	return &E{Op: "array", Kids: kids}
}

var opFuncs = []string{"and", "or", "in", "like", "IF", "left", "right", "ANY", "min", "array", "values"}

func (b *B) call() *E {
	b.feat("call")
	s := len(b.Out)
	if !b.noOpStart && !b.Opt.PlainName && b.C.P(1, 10) {
		b.both(Tok{S: pbt.Pick(b.C, opFuncs), K: Name, Role: "function"})
		b.feat("keyword function")
	} else {
		b.name("function", PosPlain)
	}
	b.noOpStart = false
	e := &E{Op: "call", Kids: []*E{leaf(b.Out[s:])}}
	b.args(e, true)
	return e
}

func (b *B) args(e *E, over bool) {
	b.op("(")
	if b.C.P(1, 12) {
		b.kw("DISTINCT")
		e.Kids = append(e.Kids, &E{Op: "distinct"})
		b.feat("distinct arg")
		b.list(1, 2, func(int) { e.Kids = append(e.Kids, b.aliased()) })
	} else if b.C.P(1, 12) {
		b.op("*")
		e.Kids = append(e.Kids, leaf([]Tok{{S: "*"}}))
	} else {
		b.listT(0, 3, true, func(int) { e.Kids = append(e.Kids, b.aliased()) })
	}
	b.op(")")
	b.moreArgs(e, over)
}

// moreArgs writes the second argument list and the window of a call.
func (b *B) moreArgs(e *E, over bool) {
	if b.C.P(1, 10) {
		b.feat("parametric")
		p := &E{Op: "params"}
		b.op("(")
		if b.C.P(1, 3) {
			b.kw("DISTINCT")
			p.Kids = append(p.Kids, &E{Op: "distinct"})
			b.feat("parametric distinct")
			b.list(1, 2, func(int) { p.Kids = append(p.Kids, b.expr(lAny)) })
		} else {
			b.listT(0, 2, false, func(int) { p.Kids = append(p.Kids, b.expr(lAny)) })
		}
		b.op(")")
		e.Kids = append(e.Kids, p)
	}
	if over && b.C.P(1, 12) && !b.deep() {
		b.feat("over")
		s := len(b.Out)
		b.kw("OVER")
		if b.C.Bool() {
			b.windowSpec()
		} else {
			b.name("window", PosAny)
		}
		e.Kids = append(e.Kids, leaf(b.Out[s:]))
	}
}

func (b *B) leafOf(f func()) *E {
	s := len(b.Out)
	f()
	return leaf(b.Out[s:])
}

var units = []string{"SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "QUARTER", "YEAR", "MILLISECOND", "day", "Month"}

func (b *B) interval() { b.intervalNode(true) }

func (b *B) intervalBody() { b.intervalNode(false) }

func (b *B) intervalNode(kw bool) {
	b.node("IntervalExpr", func() {
		if kw {
			b.kw("INTERVAL")
		}
		b.field("Expr", func() {
			switch b.C.Weighted(4, 1, 1, 1) {
			case 0:
				b.dec()
			case 1:
				b.str()
			case 2:
				b.name("column", PosPlain)
			case 3:
				b.op("(")
				b.expr(lOr)
				b.op(")")
			}
		})
		b.field("Unit", func() { b.fixed(pbt.Pick(b.C, units)) })
	})
}

func (b *B) primary() *E {
	if b.deep() {
		switch b.C.Weighted(6, 4, 3) {
		case 0:
			e := b.leafOf(func() { b.name("column", PosIdent) })
			b.noOpStart = false
			return e
		case 1:
			e := b.leafOf(b.num2)
			b.noOpStart = false
			return e
		default:
			e := b.leafOf(func() { b.str() })
			b.noOpStart = false
			return e
		}
	}
	if b.Opt.OpHeavy {
		// keep operands small so the operators dominate
		switch b.C.Weighted(8, 4, 3, 5, 2) {
		case 0:
			return b.done(b.leafOf(func() { b.name("column", PosPlain) }))
		case 1:
			return b.done(b.leafOf(b.num2))
		case 2:
			return b.done(b.leafOf(func() { b.str() }))
		case 3:
			return b.paren()
		case 4:
			return b.call()
		}
	}
	switch b.C.Weighted(10, 6, 4, 4, 5, 3, 2, 2, 2, 1, 1, 1, 2, 2, 1, 1, 1, 1, 2) {
	case 0:
		return b.done(b.leafOf(func() { b.name("column", PosIdent) }))
	case 1:
		return b.done(b.leafOf(b.num2))
	case 2:
		return b.done(b.leafOf(func() { b.str() }))
	case 3: // path
		return b.done(b.leafOf(func() {
			b.name("column", PosIdent)
			k := b.n2(1, 2)
			for i := 0; i < k; i++ {
				b.op(".")
				b.name("member", PosAfterDot)
			}
		}))
	case 4:
		return b.call()
	case 5:
		return b.paren()
	case 6:
		return b.array()
	case 7: // case
		b.feat("case")
		return b.done(b.leafOf(b.caseExpr))
	case 8: // cast
		return b.castCall()
	case 9: // extract
		b.feat("extract")
		b.noOpStart = false
		return b.leafOf(func() {
			b.kw("EXTRACT")
			b.op("(")
			if b.C.P(2, 3) {
				b.fixed(pbt.Pick(b.C, units))
				b.kw("FROM")
				b.Expr("extract operand")
			} else {
				b.list(1, 2, func(int) { b.Expr("extract operand") })
			}
			b.op(")")
		})
	case 10: // interval
		if b.noOpStart {
			return b.done(b.leafOf(func() { b.str() }))
		}
		b.feat("interval")
		return b.leafOf(b.interval)
	case 11: // map literal
		b.feat("map")
		b.noOpStart = false
		return b.leafOf(func() {
			b.op("{")
			b.listT(0, 2, false, func(int) {
				b.str()
				b.op(":")
				b.Expr("map value")
			})
			b.op("}")
		})
	case 12: // query parameter
		b.feat("query param")
		return b.done(b.leafOf(b.queryParam))
	case 13: // subquery
		if b.subq >= 2 {
			return b.done(b.leafOf(func() { b.str() }))
		}
		b.feat("subquery")
		b.noOpStart = false
		return b.leafOf(func() { b.subquery() })
	case 14: // keyword-separated argument forms
		b.noOpStart = false
		return b.kwArgCall()
	case 15:
		b.feat("placeholder")
		return b.done(b.leafOf(func() { b.op("?") }))
	case 16: // name.*
		b.feat("qualified star")
		return b.done(b.leafOf(func() {
			b.name("column", PosPlain)
			b.op(".")
			b.op("*")
		}))
	case 17:
		return b.done(b.leafOf(func() {
			b.verb(pbt.Pick(b.C, []string{"NULL", "null", "true", "FALSE", "inf", "nan"}))
		}))
	default: // signed operand
		if b.noOpStart {
			return b.done(b.leafOf(func() { b.name("column", PosPlain) }))
		}
		b.feat("unary sign")
		s := pbt.Pick(b.C, []string{"-", "+"})
		b.op(s)
		x := b.signOperand()
		return &E{Op: "u:" + s, Kids: []*E{x}}
	}
}

// castCall writes CAST(expr AS type).
func (b *B) castCall() *E {
	b.feat("cast")
	b.noOpStart = false
	return b.leafOf(func() {
		b.node("CastExpr", func() {
			b.kw("CAST")
			b.op("(")
			b.field("Expr", func() { b.Expr("cast operand") })
			if b.C.Bool() {
				b.op(",")
				b.val("Separator", ",")
			} else {
				b.need("AS")
				b.val("Separator", "AS")
			}
			b.field("AsType", func() {
				if b.C.P(1, 5) {
					b.str()
				} else {
					b.typ(0)
				}
			})
			b.op(")")
		})
	})
}

func (b *B) done(e *E) *E { b.noOpStart = false; return e }

func (b *B) num2() {
	if !b.noDot && b.C.P(1, 12) {
		b.both(Tok{S: "." + b.decText(), K: Num, Role: "num"})
		return
	}
	b.num()
}

func (b *B) signOperand() *E {
	switch b.C.Weighted(2, 2, 1, 1) {
	case 0:
		return b.leafOf(func() { b.num() })
	case 1:
		return b.leafOf(func() { b.name("column", PosPlain) })
	case 2:
		return b.paren()
	}
	return b.call()
}

func (b *B) caseExpr() {
	b.node("CaseExpr", func() {
		b.kw("CASE")
		if b.C.P(1, 3) {
			b.field("Expr", func() { b.exprSafeStart("case operand") })
		}
		n := b.count(1, 2)
		for i := 0; i < n; i++ {
			b.elem("Whens", func() {
				b.node("WhenClause", func() {
					b.kw("WHEN")
					b.field("When", func() { b.Expr("when") })
					b.kw("THEN")
					b.field("Then", func() { b.Expr("then") })
				})
			})
		}
		if b.C.Bool() {
			b.kw("ELSE")
			b.field("Else", func() { b.Expr("else") })
		}
		b.kw("END")
	})
}

func (b *B) queryParam() { b.param("QueryParam") }

func (b *B) param(typ string) {
	b.node(typ, func() {
		b.op("{")
		b.field("Name", func() { b.name("param", PosAny) })
		b.op(":")
		b.field("Type", func() { b.typ(1) })
		b.op("}")
	})
}

func (b *B) kwArgCall() *E {
	b.feat("keyword args")
	e := &E{Op: "call"}
	fn := func(s string) { e.Kids = append(e.Kids, b.leafOf(func() { b.fixed(s) })) }
	bin := func(x *E, k string) *E {
		b.kw(k)
		return &E{Op: k, Kids: []*E{x, b.expr(lAny + 2)}}
	}
	add := func(x *E) {
		if b.C.P(1, 8) {
			b.feat("keyword args alias")
			b.kw("AS")
			x = &E{Op: "as", Kids: []*E{x, b.leafOf(func() { b.name("alias", PosAny) })}}
		}
		e.Kids = append(e.Kids, x)
	}
	distinct := func() {
		if b.C.P(1, 12) {
			b.kw("DISTINCT")
			e.Kids = append(e.Kids, &E{Op: "distinct"})
		}
	}
	comma := b.C.P(1, 4) // arguments after commas as well
	if comma {
		b.feat("keyword args and commas")
	}
	switch b.C.Intn(3) {
	case 0:
		fn(pbt.Pick(b.C, []string{"trim", "TRIM"}))
		b.op("(")
		distinct()
		if !comma || b.C.Bool() {
			k := pbt.Pick(b.C, []string{"BOTH", "LEADING", "TRAILING"})
			b.kw(k)
			x := &E{Op: "u:" + k, Kids: []*E{b.expr(lOr)}}
			add(bin(x, "FROM"))
		} else {
			add(b.expr(lOr))
		}
		for n := b.n2(0, 2); comma && n > 0; n-- {
			b.op(",")
			add(b.expr(lOr))
		}
		b.op(")")
	case 1:
		fn(pbt.Pick(b.C, []string{"substring", "SUBSTRING"}))
		b.op("(")
		distinct()
		switch k := b.C.Intn(4); {
		case !comma:
			x := bin(b.expr(lOr), "FROM")
			if b.C.Bool() {
				x = bin(x, "FOR")
			}
			add(x)
		case k == 0: // a FROM b, c
			add(bin(b.expr(lOr), "FROM"))
			b.op(",")
			add(b.expr(lOr))
		case k == 1: // a, b FOR c
			add(b.expr(lOr))
			b.op(",")
			add(bin(b.expr(lOr), "FOR"))
		default:
			add(b.expr(lOr))
			for n := b.n2(0, 2); n > 0; n-- {
				b.op(",")
				add(b.expr(lOr))
			}
		}
		b.op(")")
	default:
		fn(pbt.Pick(b.C, []string{"overlay", "overlayUTF8"}))
		b.op("(")
		distinct()
		if comma {
			add(b.expr(lOr))
			for n := b.n2(0, 3); n > 0; n-- {
				b.op(",")
				add(b.expr(lOr))
			}
		} else {
			x := bin(bin(b.expr(lOr), "PLACING"), "FROM")
			if b.C.Bool() {
				x = bin(x, "FOR")
			}
			add(x)
		}
		b.op(")")
	}
	b.moreArgs(e, true)
	return e
}

// typ writes a column type.
func (b *B) typ(d int) {
	k := 0
	switch {
	case b.typeTower > 0:
		b.typeTower--
		d, k = 3, pbt.Pick(b.C, []int{1, 2, 3, 4, 8})
	case d == 0 && !b.Opt.Simple && b.C.P(1, 300):
		b.feat("deep type")
		b.typeTower = b.n2(3, 40)
		defer func() { b.typeTower = 0 }()
		d, k = 3, pbt.Pick(b.C, []int{1, 2, 3, 4, 8})
	case d < 3:
		k = b.C.Weighted(8, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1)
	}
	switch k {
	case 0:
		b.fixed(pbt.Pick(b.C, []string{"Int32", "String", "UInt64", "Date", "Float64", "UUID", "JSON", "`My Type`", "DateTime"}))
	case 1:
		b.fixed(pbt.Pick(b.C, []string{"Nullable", "Array", "LowCardinality"}))
		b.op("(")
		b.typ(d + 1)
		b.op(")")
	case 2:
		b.fixed("Map")
		b.op("(")
		b.typ(d + 1)
		b.op(",")
		b.typ(d + 1)
		b.op(")")
	case 3:
		b.fixed(pbt.Pick(b.C, []string{"Tuple", "Nested", "tuple", "nested", "NESTED"}))
		b.op("(")
		b.listT(1, 3, false, func(int) {
			b.name("field", PosIdent)
			b.typ(d + 1)
		})
		b.op(")")
		b.feat("nested type")
	case 4:
		b.fixed("Tuple")
		b.op("(")
		b.listT(1, 3, false, func(int) { b.typ(d + 1) })
		b.op(")")
	case 5:
		b.fixed(pbt.Pick(b.C, []string{"FixedString", "Decimal", "DateTime64", "Decimal128"}))
		b.op("(")
		b.dec()
		if b.C.Bool() {
			b.op(",")
			if b.C.Bool() {
				b.dec()
			} else {
				b.str()
			}
		}
		b.op(")")
	case 6:
		b.fixed("DateTime")
		b.op("(")
		b.str()
		b.op(")")
	case 7:
		b.fixed(pbt.Pick(b.C, []string{"Enum8", "Enum", "enum16"}))
		b.op("(")
		b.listT(1, 3, false, func(int) {
			b.str()
			b.op("=")
			b.enumNum()
		})
		b.op(")")
		b.feat("enum")
	case 8:
		b.fixed(pbt.Pick(b.C, []string{"AggregateFunction", "SimpleAggregateFunction"}))
		b.op("(")
		b.fixed("sum")
		b.op(",")
		b.typ(d + 1)
		b.op(")")
	case 9:
		b.fixed(pbt.Pick(b.C, []string{"JSON", "JSON", "json"}))
		b.op("(")
		// the formatter documents a stable order: numeric options, type hints, skips
		var groups [3][][]Tok
		n := b.count(1, 4)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.inOp(",")
			}
			g := 0
			seg := b.cut(func() { g = b.jsonOption() })
			groups[g] = append(groups[g], seg)
		}
		first := true
		for _, g := range groups {
			for _, seg := range g {
				if !first {
					b.outOp(",")
				}
				first = false
				b.put(seg)
			}
		}
		b.op(")")
		b.feat("json type")
	case 10:
		b.fixed(pbt.Pick(b.C, []string{"QBit", "QBIT", "qbit"}))
		b.op("(")
		b.fixed("Float32")
		b.op(",")
		b.dec()
		b.op(")")
	case 11:
		b.fixed(pbt.Pick(b.C, []string{"Tuple", "String", "Object"}))
		b.op("(")
		b.op(")")
	}
}

func (b *B) enumNum() {
	t := b.decText()
	if b.C.P(1, 3) {
		t = "-" + t
	}
	b.both(Tok{S: t, K: Num, Role: "number"})
}

func (b *B) jsonOption() int {
	switch b.C.Weighted(2, 1, 1, 2, 1) {
	case 0:
		b.jsonPath()
		b.typ(2)
		return 1
	case 1:
		b.fixed("max_dynamic_paths")
		b.op("=")
		b.dec()
		return 0
	case 2:
		b.fixed("max_dynamic_types")
		b.op("=")
		b.dec()
		return 0
	case 3:
		b.kw("SKIP")
		b.jsonPath()
		return 2
	}
	b.kw("SKIP REGEXP")
	b.str()
	return 2
}

func (b *B) jsonPath() {
	b.name("json", PosPlain)
	k := b.n2(0, 2)
	for i := 0; i < k; i++ {
		b.op(".")
		b.name("json", PosAfterDot)
	}
}
