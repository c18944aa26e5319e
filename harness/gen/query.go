package gen

import (
	"strings"

	"verif/harness/pbt"
)

// subquery writes ( select ).
func (b *B) subquery() {
	b.subq++
	save := b.depth
	if b.depth < b.Opt.MaxDepth-2 {
		b.depth = b.Opt.MaxDepth - 2
	}
	b.op("(")
	b.selectQuery(false)
	b.op(")")
	b.depth = save
	b.subq--
}

// windowSpec writes ( [name] [PARTITION BY] [ORDER BY] [frame] ).
func (b *B) windowSpec() {
	b.feat("window spec")
	b.node("WindowExpr", func() {
		b.op("(")
		b.maybe(4, func() { b.field("WindowName", func() { b.name("window", PosIdent) }) })
		if b.C.Bool() {
			b.field("PartitionBy", func() {
				b.kw("PARTITION BY")
				b.list(1, 2, func(int) { b.aliasedSite("window partition by") })
			})
		}
		if b.C.Bool() {
			b.field("OrderBy", func() { b.orderBy() })
		}
		if b.C.P(1, 3) {
			b.field("Frame", func() {
				b.feat("frame")
				b.node("WindowFrameClause", func() {
					b.val("Type", b.pickKw("ROWS", "RANGE"))
					b.field("Extend", func() {
						if b.C.Bool() {
							b.node("BetweenClause", func() {
								b.kw("BETWEEN")
								b.field("Between", b.extent)
								b.kw("AND")
								b.field("And", b.extent)
							})
						} else {
							b.extent()
						}
					})
				})
			})
		}
		b.op(")")
	})
}

func (b *B) extent() {
	dir := func() { b.val("Direction", b.pickKw("PRECEDING", "FOLLOWING")) }
	switch b.C.Intn(5) {
	case 0:
		b.node("WindowFrameCurrentRow", func() { b.kw("CURRENT ROW") })
	case 1:
		b.node("WindowFrameUnbounded", func() {
			b.kw("UNBOUNDED")
			dir()
		})
	case 2:
		b.node("WindowFrameNumber", func() {
			b.field("Number", func() { b.dec() })
			dir()
		})
	case 3:
		b.node("WindowFrameParam", func() {
			b.field("Param", b.queryParam)
			dir()
		})
	case 4:
		b.node("WindowFrameExtendExpr", func() {
			b.field("Expr", b.interval)
			dir()
		})
	}
}

func (b *B) aliasedSite(where string) {
	b.Expr(where)
	if b.C.P(1, 8) {
		b.kw("AS")
		b.name("alias", PosAny)
	}
}

// orderBy writes ORDER BY items, including WITH FILL and INTERPOLATE.
func (b *B) orderBy() {
	b.node("OrderByClause", func() {
		b.kw("ORDER BY")
		fill := false
		n := b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("Items", func() { fill = b.orderItem(true) || fill })
		}
		if fill && b.C.Bool() {
			b.field("Interpolate", func() {
				b.feat("interpolate")
				b.kw("INTERPOLATE")
				if b.C.P(2, 3) {
					b.op("(")
					b.list(1, 2, func(int) {
						b.node("InterpolateItem", func() {
							b.field("Column", func() { b.name("column", PosIdent) })
							if b.C.Bool() {
								b.kw("AS")
								b.field("Expr", func() { b.Expr("interpolate") })
							}
						})
					})
					b.op(")")
				}
			})
		}
	})
}

func (b *B) orderItem(fillOK bool) bool {
	fill := false
	b.node("OrderExpr", func() {
		b.field("Expr", func() { b.Expr("order by") })
		b.maybe(10, func() {
			b.kw("AS")
			b.field("Alias", func() { b.name("alias", PosAny) })
		})
		switch b.C.Weighted(4, 1, 1, 1, 1) {
		case 1:
			b.kw("ASC")
			b.val("Direction", "ASC")
		case 2:
			b.kw("DESC")
			b.val("Direction", "DESC")
		case 3:
			b.inKw("ASCENDING")
			b.outKw("ASC")
			b.val("Direction", "ASC")
		case 4:
			b.inKw("DESCENDING")
			b.outKw("DESC")
			b.val("Direction", "DESC")
		}
		if fillOK && b.C.P(1, 5) {
			fill = true
			b.feat("with fill")
			b.field("Fill", func() {
				b.node("Fill", func() {
					b.kw("WITH FILL")
					part := func(f, k string) {
						if b.C.Bool() {
							b.kw(k)
							b.field(f, func() {
								if f == "Step" && b.C.P(1, 3) {
									b.interval()
								} else {
									b.Expr("fill")
								}
							})
						}
					}
					part("From", "FROM")
					part("To", "TO")
					part("Step", "STEP")
					part("Staleness", "STALENESS")
				})
			})
		}
	})
	return fill
}

// settingsList writes k = v [, ...].
func (b *B) settingsList(field string) {
	n := b.count(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.op(",")
		}
		if field != "" {
			b.elem(field, b.setting)
		} else {
			b.setting()
		}
	}
}

func (b *B) setting() {
	b.node("SettingExpr", func() {
		b.field("Name", func() { b.name("setting", PosIdent) })
		b.op("=")
		b.field("Expr", func() {
			switch b.C.Weighted(4, 2, 1, 1, 1) {
			case 0:
				b.int()
			case 1:
				b.str()
			case 2:
				b.verb(pbt.Pick(b.C, []string{"true", "FALSE", "True"}))
			case 3:
				b.op("{")
				b.list(0, 2, func(int) { b.str(); b.op(":"); b.Expr("map value") })
				b.op("}")
			case 4:
				b.enumNum()
			}
		})
	})
}

func (b *B) settingsClause() {
	b.node("SettingsClause", func() {
		b.kw("SETTINGS")
		b.settingsList("Items")
	})
}

func (b *B) tableIdent(role string) {
	if b.C.P(1, 4) {
		b.name("database", PosString)
		b.op(".")
		b.name(role, PosAnyString)
		return
	}
	b.name(role, PosString)
}

// TableIdent as a marked node.
func (b *B) tableIdentNode(role string) {
	b.node("TableIdentifier", func() {
		if b.C.P(1, 4) {
			b.field("Database", func() { b.name("database", PosString) })
			b.op(".")
			b.field("Table", func() { b.name(role, PosAnyString) })
			return
		}
		b.field("Table", func() { b.name(role, PosString) })
	})
}

func (b *B) tableFunc(d int) {
	b.feat("table function")
	b.name("table function", PosPlain)
	b.tableArgs(d)
}

func (b *B) tableArgs(d int) {
	b.op("(")
	b.listT(0, 3, false, func(int) {
		if b.C.P(1, 6) {
			b.feat("named parameter")
			b.name("named parameter", PosAny)
			b.op("=")
		}
		b.tableArg(d)
	})
	b.op(")")
}

func (b *B) tableArg(d int) {
	k := b.C.Weighted(3, 3, 3, 1, 1, 1, 1, 1)
	if d > 1 && k > 3 {
		k = 0
	}
	switch k {
	case 0:
		if b.C.P(1, 12) {
			b.kw("NULL")
		} else {
			b.num2()
		}
	case 1:
		b.str()
	case 2:
		b.name("column", PosPlain)
	case 3:
		b.name("database", PosPlain)
		b.op(".")
		b.name("table", PosAfterDot)
	case 4:
		b.tableFunc(d + 1)
	case 5:
		b.node("CastExpr", func() {
			b.kw("CAST")
			b.op("(")
			b.field("Expr", func() { b.Expr("cast operand") })
			b.kw("AS")
			b.val("Separator", "AS")
			b.field("AsType", func() { b.typ(1) })
			b.op(")")
		})
	case 6:
		if b.subq >= 2 {
			b.num()
			return
		}
		b.subquery()
	case 7:
		b.paren()
	}
	if b.C.P(1, 6) {
		b.op(pbt.Pick(b.C, []string{"+", "-", "*"}))
		b.expr(lPostfix)
	}
}

func (b *B) tableExpr(final bool) {
	b.node("TableExpr", func() {
		fin := final
		b.field("Expr", func() {
			k := b.C.Weighted(7, 2, 3)
			if k == 2 && b.subq >= 2 {
				k = 0
			}
			switch {
			case b.fromTower > 0:
				b.fromTower--
				k = 2
			case !b.Opt.Simple && b.C.P(1, 600):
				b.feat("deep subquery")
				b.fromTower = b.n2(2, 25)
				defer func() { b.fromTower = 0 }()
				k = 2
			}
			switch k {
			case 0:
				b.tableIdentNode("table")
			case 1:
				b.tableFunc(0)
				fin = false
			case 2:
				b.feat("from subquery")
				fin = false
				extra := b.C.P(1, 8)
				if extra {
					b.inOp("(")
				}
				b.subquery()
				if extra {
					b.inOp(")")
				}
			}
			switch b.C.Weighted(3, 2, 2) {
			case 1:
				b.kw("AS")
				b.name("table alias", PosAny)
			case 2:
				b.outKw("AS")
				b.name("table alias", PosPlain)
			}
		})
		if fin && b.C.P(1, 5) {
			b.kw("FINAL")
			b.flag("HasFinal")
		}
	})
}

func (b *B) ratio() {
	b.node("RatioExpr", func() {
		b.field("Numerator", func() { b.num() })
		if b.C.P(1, 3) {
			b.op("/")
			b.field("Denominator", func() { b.num() })
		}
	})
}

func (b *B) joinTable() {
	b.node("JoinTableExpr", func() {
		b.field("Table", func() { b.tableExpr(true) })
		if b.C.P(1, 8) {
			b.feat("sample")
			b.field("SampleRatio", func() {
				b.node("SampleClause", func() {
					b.kw("SAMPLE")
					b.field("Ratio", b.ratio)
					if b.C.P(1, 3) {
						b.kw("OFFSET")
						b.field("Offset", b.ratio)
					} else {
						// an OFFSET right behind belongs to SAMPLE
						b.sampled = len(b.In)
					}
				})
			})
		}
	})
}

var joinKinds []string

func init() {
	add := func(s string) { joinKinds = append(joinKinds, s) }
	add("")
	add("INNER")
	add("LEFT")
	add("CROSS")
	for _, a := range []string{"ANY", "ALL"} {
		for _, f := range []string{"", " FULL"} {
			for _, t := range []string{"", " LEFT", " RIGHT", " INNER", " OUTER"} {
				add(a + f + t)
			}
		}
	}
	for _, a := range []string{"SEMI", "ASOF"} {
		for _, f := range []string{"", " LEFT", " RIGHT"} {
			for _, t := range []string{"", " OUTER"} {
				add(a + f + t)
			}
		}
	}
	for _, t := range []string{" ALL", " ANY", " ASOF"} {
		add("INNER" + t)
	}
	for _, o := range []string{"", " OUTER"} {
		for _, t := range []string{"", " SEMI", " ANTI", " ANY", " ALL", " ASOF"} {
			add("LEFT" + o + t)
			add("RIGHT" + o + t)
		}
		for _, t := range []string{"", " ALL", " ANY"} {
			add("FULL" + o + t)
		}
	}
}

var arrayJoins = []string{"ARRAY", "LEFT ARRAY", "INNER ARRAY", "LEFT OUTER ARRAY"}

func (b *B) fromClause() {
	b.node("FromClause", func() {
		b.field("Expr", func() {
			b.joinTable()
			n := b.n2(0, 3)
			if b.depth > 2 && n > 1 {
				n = 1
			}
			js := joinState{commaOK: true}
			for i := 0; i < n; i++ {
				js.last = i == n-1
				b.join(&js)
			}
		})
	})
}

type joinState struct {
	commaOK bool // a comma would not continue a list of the join before
	force   bool // a comma join has to follow
	last    bool
}

func (b *B) join(js *joinState) {
	commaOK := &js.commaOK
	k := b.C.Weighted(6, 2, 2)
	if k == 1 && !*commaOK {
		k = 0
	}
	if js.force {
		k = 1
		js.force = false
	}
	switch k {
	case 1:
		b.feat("comma join")
		b.op(",")
		b.joinTable()
		return
	case 2:
		b.feat("array join")
		b.node("JoinExpr+", func() {
			m := pbt.Pick(b.C, arrayJoins) + " JOIN"
			b.val("Modifiers", m)
			b.kw(m)
			b.field("Left", func() {
				b.list(1, 2, func(int) { b.aliasedSite("array join") })
			})
		})
		// a following comma would continue the column list
		*commaOK = false
		return
	}
	b.feat("join")
	b.node("JoinExpr+", func() {
		m := pbt.Pick(b.C, joinKinds)
		switch b.C.Weighted(6, 1, 1) {
		case 1:
			m = strings.TrimSpace("GLOBAL " + m)
		case 2:
			m = strings.TrimSpace("LOCAL " + m)
		}
		m = strings.TrimSpace(m + " JOIN")
		b.val("Modifiers", m)
		b.kw(m)
		b.field("Left", func() { b.joinTable() })
		*commaOK = true
		switch b.C.Weighted(4, 2, 2, 1) {
		case 0:
			b.field("Constraints", func() {
				b.kw("ON")
				b.list(1, 2, func(int) { b.Expr("on") })
			})
			*commaOK = false
		case 1:
			b.feat("using parens")
			at := 0
			reserved := b.C.P(1, 8)
			b.field("Constraints", func() {
				b.kw("USING")
				at = len(b.Out)
				b.inOp("(")
				b.list(1, 3, func(int) { b.name("column", PosPlain) })
				if reserved {
					b.op(",")
					w := pbt.Pick(b.C, hardKeywords)
					if w == "not" || w == "distinct" || w == "interval" || w == "case" {
						w = "like"
					}
					b.both(Tok{S: w, K: Name, Role: "column", Pos: PosAny})
				}
				b.inOp(")")
				if reserved {
					// behind it the closing parenthesis is needed
					b.feat("using reserved")
					names := clone(b.Out[at:])
					b.Out = b.Out[:at]
					b.outOp("(")
					b.put(names)
					b.outOp(")")
				}
			})
			// the parentheses are only printed where a comma join follows
			*commaOK = false
			if !js.last && !reserved && b.C.Bool() {
				b.feat("using then comma")
				js.force = true
				names := clone(b.Out[at:])
				b.Out = b.Out[:at]
				b.outOp("(")
				b.put(names)
				b.outOp(")")
			}
		case 2:
			b.field("Constraints", func() {
				b.kw("USING")
				b.name("column", PosPlain)
			})
			*commaOK = false
		case 3:
		}
	})
}

func (b *B) withClause() {
	b.feat("with")
	b.node("WithClause", func() {
		b.kw("WITH")
		n := b.count(1, 2)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("CTEs", func() {
				b.node("CTEStmt", func() {
					if b.C.Bool() && b.subq < 2 {
						b.field("Expr", func() { b.name("cte", PosPlain) })
						b.need("AS")
						b.op("(")
						b.subq++
						b.field("Alias", func() { b.selectQuery(false) })
						b.subq--
						b.op(")")
					} else {
						b.field("Expr", func() { b.Expr("cte") })
						b.need("AS")
						b.field("Alias", func() { b.name("cte alias", PosAny) })
					}
				})
			})
		}
	})
}

func (b *B) selectItem(i, n int) {
	b.node("SelectItem", func() {
		if b.C.P(1, 10) {
			b.feat("star")
			b.field("Expr", func() { b.op("*") })
		} else {
			b.field("Expr", func() { b.Expr("select item") })
		}
		if b.C.P(1, 12) {
			b.feat("modifier")
			k := b.n2(1, 2)
			for j := 0; j < k; j++ {
				b.elem("Modifiers", func() {
					switch b.C.Intn(3) {
					case 0:
						b.kw("EXCEPT")
						b.op("(")
						b.list(1, 2, func(int) { b.name("column", PosPlain) })
						b.op(")")
					case 1:
						b.kw("REPLACE")
						b.op("(")
						b.list(1, 2, func(int) {
							b.Expr("replace")
							b.need("AS")
							b.name("alias", PosAny)
						})
						b.op(")")
					case 2:
						b.kw("APPLY")
						b.op("(")
						b.expr(lAny)
						b.op(")")
					}
				})
			}
		}
		switch b.C.Weighted(4, 2, 2) {
		case 1:
			b.kw("AS")
			b.field("Alias", func() { b.name("alias", PosAny) })
		case 2:
			b.outKw("AS")
			b.feat("bare alias")
			b.field("Alias", func() { b.name("alias", PosPlain) })
		}
	})
}

func (b *B) limit(offsetOnly bool) {
	b.node("LimitClause", func() {
		k := b.C.Weighted(3, 2, 2, 1)
		if !offsetOnly && k == 3 {
			k = 0
		}
		switch k {
		case 0:
			b.kw("LIMIT")
			b.field("Limit", func() { b.Expr("limit") })
		case 1:
			b.kw("LIMIT")
			b.field("Limit", func() { b.Expr("limit") })
			b.kw("OFFSET")
			b.field("Offset", func() { b.Expr("offset") })
		case 2:
			b.feat("limit a,b")
			b.kw("LIMIT")
			var off []Tok
			b.cut(func() { b.field("Offset", func() { b.Expr("offset") }) })
			off = b.cur[len(b.cur)-1].Fields["Offset"].Toks
			b.inOp(",")
			// LIMIT a, -1 is a recorded finding: the number becomes a sign and a number
			b.field("Limit", func() { b.exprSafeStart("limit") })
			b.outKw("OFFSET")
			b.put(off)
		case 3:
			b.feat("offset only")
			b.kw("OFFSET")
			b.field("Offset", func() { b.Expr("offset") })
		}
	})
}

// selectQuery writes a query; top says it is a whole statement.
func (b *B) selectQuery(top bool) {
	b.depth++
	defer func() { b.depth-- }()
	b.node("SelectQuery", func() {
		par, tail, start := b.operand, false, len(b.Out)
		b.operand = false
		if par {
			b.inOp("(")
		}
		if b.C.P(1, 5) && b.subqWithOK() {
			b.field("With", b.withClause)
		}
		b.kw("SELECT")
		if b.C.P(1, 6) {
			b.kw("DISTINCT")
			b.flag("HasDistinct")
			if b.C.P(1, 3) {
				b.feat("distinct on")
				b.field("DistinctOn", func() {
					b.kw("ON")
					b.op("(")
					b.list(1, 2, func(int) {
						b.name("column", PosIdent)
						if b.C.P(1, 3) {
							b.op(".")
							b.name("member", PosAfterDot)
						}
					})
					b.op(")")
				})
			}
		}
		if b.C.P(1, 12) {
			b.feat("top")
			b.field("Top", func() {
				b.node("TopClause", func() {
					b.kw("TOP")
					b.field("Number", func() { b.dec() })
					if b.C.P(1, 3) {
						b.kw("WITH TIES")
						b.flag("WithTies")
					}
				})
			})
		}
		n := b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("SelectItems", func() { b.selectItem(i, n) })
		}
		closed := false // something other than a bare select item precedes the tail
		if b.C.P(3, 4) {
			if b.C.P(1, 24) {
				b.feat("trailing comma")
				b.inOp(",")
			}
			b.field("From", func() { b.kw("FROM"); b.fromClause() })
			closed = true
		}
		clause := func(den int, field, kw, where string) {
			if b.C.P(1, den) {
				b.field(field, func() {
					b.kw(kw)
					b.Expr(where)
				})
				closed = true
			}
		}
		clause(8, "Prewhere", "PREWHERE", "prewhere")
		clause(3, "Where", "WHERE", "where")
		grouped := false
		if b.C.P(1, 4) {
			closed, grouped = true, true
			b.field("GroupBy", b.groupBy)
		}
		if !grouped && b.C.P(1, 20) {
			b.feat("totals without group by")
			b.kw("WITH TOTALS")
			b.flag("WithTotal")
			closed = true
		}
		if b.C.P(1, 6) {
			closed = true
			b.field("Having", func() {
				b.kw("HAVING")
				b.aliasedSite("having")
			})
		}
		if b.C.P(1, 12) {
			closed = true
			b.field("Window", func() {
				b.feat("window clause")
				b.kw("WINDOW")
				b.list(1, 2, func(int) {
					b.name("window", PosAny)
					b.need("AS")
					b.windowSpec()
				})
			})
		}
		if b.C.P(1, 4) {
			closed = true
			b.field("OrderBy", b.orderBy)
		}
		switch b.C.Weighted(5, 2, 1, 1) {
		case 1:
			b.field("Limit", func() { b.limit(len(b.In) != b.sampled) })
			closed = true
		case 2, 3:
			b.feat("limit by")
			closed = true
			b.field("LimitBy", func() {
				b.node("LimitByClause", func() {
					b.field("Limit", func() { b.limit(false) })
					b.kw("BY")
					b.field("ByExpr", func() {
						b.list(1, 2, func(int) { b.aliasedSite("limit by") })
					})
				})
			})
			if b.C.Bool() {
				b.field("Limit", func() { b.limit(false) })
			}
		}
		if b.C.P(1, 8) {
			closed = true
			b.field("Settings", b.settingsClause)
		}
		if b.C.P(1, 12) {
			closed = true
			b.field("Format", func() { b.kw("FORMAT"); b.name("format", PosIdent) })
		}
		if (b.C.P(1, 8) || par && b.C.P(1, 2)) && b.depth <= b.Opt.MaxDepth+1 && b.setops < 3 {
			b.setops++
			b.setTail()
			b.setops--
			closed = b.closed
			tail = true
		}
		if par {
			b.inOp(")")
			// around a single query the parentheses are not printed
			if tail {
				b.feat("set operation in parentheses")
				b.flag("HasParen")
				b.Out = insertTok(b.Out, start, Tok{S: "(", K: Op, ID: b.nextID()})
				b.outOp(")")
				closed = true
			}
		}
		b.closed = closed
	})
}

func (b *B) subqWithOK() bool {
	// (WITH ... is not a subquery in every expression position
	return b.subq == 0
}

func (b *B) setTail() {
	k := b.C.Intn(4)
	b.feat("set operation")
	kw := []string{"UNION ALL", "UNION DISTINCT", "EXCEPT", "INTERSECT"}[k]
	f := []string{"UnionAll", "UnionDistinct", "Except", "Intersect"}[k]
	b.kw(kw)
	b.field(f, func() {
		b.operand = b.C.P(1, 4)
		b.selectQuery(false)
	})
}

func insertTok(ts []Tok, i int, t Tok) []Tok {
	out := append([]Tok{}, ts[:i]...)
	out = append(out, t)
	return append(out, ts[i:]...)
}

func (b *B) groupBy() { b.groupByOf(true) }

// groupByOf writes GROUP BY; in a TTL its items take no alias.
func (b *B) groupByOf(alias bool) {
	b.node("GroupByClause", func() {
		b.kw("GROUP BY")
		switch b.C.Weighted(6, 1, 1, 1, 1) {
		case 0:
			b.field("Expr", func() {
				b.list(1, 3, func(int) {
					if alias {
						b.aliasedSite("group by")
					} else {
						b.Expr("ttl group by")
					}
				})
			})
		case 1:
			b.kw("CUBE")
			b.val("AggregateType", "CUBE")
			b.field("Expr", b.groupParen)
		case 2:
			b.kw("ROLLUP")
			b.val("AggregateType", "ROLLUP")
			b.field("Expr", b.groupParen)
		case 3:
			b.feat("grouping sets")
			b.kw("GROUPING SETS")
			b.val("AggregateType", "GROUPING SETS")
			b.field("Expr", func() {
				b.op("(")
				b.list(1, 3, func(int) { b.groupParen() })
				b.op(")")
			})
		case 4:
			b.kw("ALL")
			b.val("AggregateType", "ALL")
		}
		if b.C.P(1, 8) {
			b.kw("WITH CUBE")
			b.flag("WithCube")
		} else if b.C.P(1, 8) {
			b.kw("WITH ROLLUP")
			b.flag("WithRollup")
		}
		if b.C.P(1, 8) {
			b.kw("WITH TOTALS")
			b.flag("WithTotals")
		}
	})
}

func (b *B) groupParen() {
	b.op("(")
	b.list(0, 3, func(int) { b.aliased() })
	b.op(")")
}

func (b *B) explain() {
	b.node("ExplainStmt", func() {
		b.kw("EXPLAIN")
		t := pbt.Pick(b.C, []string{"SYNTAX", "PIPELINE", "ESTIMATE", "AST"})
		b.kw(t)
		b.val("Type", t)
		b.field("Statement", func() { b.selectQuery(true) })
	})
}
