package gen

import (
	"strings"

	"verif/harness/pbt"
)

// ---- small shared parts

func (b *B) ifNotExists() {
	if b.C.P(1, 4) {
		b.kw("IF NOT EXISTS")
		b.flag("IfNotExists")
	}
}

func (b *B) ifExists() {
	if b.C.P(1, 4) {
		b.kw("IF EXISTS")
		b.flag("IfExists")
	}
}

func (b *B) onCluster() {
	if b.C.P(1, 5) {
		b.field("OnCluster", func() {
			b.node("ClusterClause", func() {
				b.kw("ON CLUSTER")
				b.field("Expr", func() {
					if b.C.P(1, 3) {
						b.str()
					} else {
						b.name("cluster", PosIdent)
					}
				})
			})
		})
	}
}

func (b *B) uuid() {
	if b.C.P(1, 8) {
		b.field("UUID", func() {
			b.kw("UUID")
			b.str()
		})
	}
}

func (b *B) comment(den int) {
	if b.C.P(1, den) {
		b.kw("COMMENT")
		b.field("Comment", func() { b.str() })
	}
}

// nested writes name[.name].
func (b *B) nested(role string, pos NamePos) {
	b.node("NestedIdentifier", func() {
		b.field("Ident", func() { b.name(role, pos) })
		if b.C.P(1, 5) {
			b.op(".")
			b.field("DotIdent", func() { b.name(role, PosAfterDot) })
		}
	})
}

// sub writes a query after AS, with or without parentheses.
func (b *B) asQuery(paren bool) {
	if paren {
		b.kw("AS") // or else the query may be an argument of what stands in front
	} else {
		b.need("AS")
	}
	b.field("SubQuery", func() {
		b.node("SubQuery", func() {
			if paren {
				b.flag("HasParen")
				b.op("(")
			}
			b.field("Select", func() { b.selectQuery(false) })
			if paren {
				b.op(")")
			}
		})
	})
}

// ---- columns

func (b *B) codec() {
	b.feat("codec")
	lvl := func() {
		if b.C.Bool() {
			b.op("(")
			b.dec()
			b.op(")")
		}
	}
	b.kw("CODEC")
	b.op("(")
	switch b.C.Intn(3) {
	case 0:
		b.fixed(pbt.Pick(b.C, []string{"LZ4", "NONE", "Default", "FPC"}))
	case 1:
		b.fixed(pbt.Pick(b.C, []string{"ZSTD", "LZ4HC", "zstd"}))
		lvl()
	case 2:
		b.fixed(pbt.Pick(b.C, []string{"Delta", "DoubleDelta", "T64", "Gorilla", "GCD"}))
		lvl()
		if b.C.Bool() {
			b.op(",")
			switch b.C.Intn(2) {
			case 0:
				b.fixed("LZ4")
			case 1:
				b.fixed(pbt.Pick(b.C, []string{"ZSTD", "zstd", "LZ4HC"}))
				lvl()
			}
		}
	}
	b.op(")")
}

// columnDef writes a column definition.
func (b *B) columnDef() {
	b.node("ColumnDef", func() {
		b.field("Name", func() { b.nested("column", PosColDef) })
		b.field("Type", func() { b.typ(0) })
		switch b.C.Weighted(6, 1, 1) {
		case 1:
			b.field("Nullable", func() { b.kw("NULL") })
		case 2:
			b.field("NotNull", func() { b.kw("NOT NULL") })
		}
		switch b.C.Weighted(4, 1, 1, 1) {
		case 1:
			b.kw("DEFAULT")
			b.field("DefaultExpr", func() { b.Expr("default") })
		case 2:
			b.kw("MATERIALIZED")
			b.field("MaterializedExpr", func() { b.Expr("materialized") })
		case 3:
			b.kw("ALIAS")
			b.field("AliasExpr", func() { b.Expr("alias column") })
		}
		b.comment(6)
		if b.C.P(1, 6) {
			b.field("Codec", func() { b.codec() })
		}
		if b.C.P(1, 8) {
			b.field("TTL", func() { b.ttl(false) })
		}
	})
}

func (b *B) ttl(table bool) {
	b.feat("ttl")
	b.node("TTLClause", func() {
		b.kw("TTL")
		n := 1
		if table {
			n = b.count(1, 3)
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("Items", func() {
				b.node("TTLExpr", func() {
					b.field("Expr", func() { b.Expr("ttl") })
					if b.C.P(1, 2) {
						b.field("Policy", func() { b.ttlPolicy(table && i == n-1) })
					}
				})
			})
		}
	})
}

func (b *B) ttlPolicy(last bool) {
	b.node("TTLPolicy", func() {
		b.field("Item", func() {
			b.node("TTLPolicyRule", func() {
				switch b.C.Intn(4) {
				case 0:
					b.field("Action", func() { b.kw("DELETE") })
				case 1:
					b.kw("TO DISK")
					b.field("ToDisk", func() { b.str() })
				case 2:
					b.kw("TO VOLUME")
					b.field("ToVolume", func() { b.str() })
				case 3:
					b.field("Action", func() {
						b.kw("RECOMPRESS")
						b.codec()
					})
				}
			})
		})
		if b.C.P(1, 3) {
			b.field("Where", func() {
				b.kw("WHERE")
				b.Expr("ttl where")
			})
		}
		if last && b.C.P(1, 4) {
			b.field("GroupBy", func() { b.groupByOf(false) })
		}
	})
}

func (b *B) indexDef(withKw bool) {
	b.feat("index")
	b.node("TableIndex", func() {
		if withKw {
			b.kw("INDEX")
		} else {
			b.outKw("INDEX")
		}
		b.field("Name", func() { b.nested("index", PosPlain) })
		b.field("ColumnExpr", func() {
			b.noDot = true // name.5 would be one nested name
			b.Expr("index")
			b.noDot = false
		})
		b.kw("TYPE")
		b.field("ColumnType", func() {
			switch b.C.Intn(4) {
			case 0:
				b.fixed("minmax")
			case 1:
				b.fixed("set")
				b.op("(")
				b.dec()
				b.op(")")
			case 2:
				b.fixed("bloom_filter")
				b.op("(")
				b.num()
				b.op(")")
			case 3:
				b.fixed("ngrambf_v1")
				b.op("(")
				b.dec()
				b.op(",")
				b.dec()
				b.op(")")
			}
		})
		b.kw("GRANULARITY")
		b.field("Granularity", func() { b.dec() })
	})
}

func (b *B) projection(withKw bool) {
	b.feat("projection")
	b.node("TableProjection", func() {
		if withKw {
			b.flag("IncludeProjectionKeyword")
			b.kw("PROJECTION")
		}
		b.field("Identifier", func() { b.nested("projection", PosIdent) })
		b.field("Select", func() {
			b.node("ProjectionSelectStmt", func() {
				b.op("(")
				if b.C.P(1, 6) {
					b.field("With", b.withClause)
				}
				b.kw("SELECT")
				b.field("SelectColumns", func() {
					b.list(1, 3, func(int) { b.aliasedSite("projection column") })
				})
				if b.C.P(1, 3) {
					b.field("GroupBy", func() { b.groupByOf(true) })
				}
				if b.C.P(1, 3) {
					b.field("OrderBy", func() {
						b.kw("ORDER BY")
						b.list(1, 2, func(int) { b.aliasedSite("projection order by") })
					})
				}
				b.op(")")
			})
		})
	})
}

// tableSchema writes ( columns, indexes, projections, constraints ).
func (b *B) tableSchema(columnsOnly bool) {
	b.node("TableSchemaClause", func() {
		b.op("(")
		n := b.count(1, 4)
		if b.C.P(1, 30) {
			n = 0
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("Columns", func() {
				k := b.C.Weighted(8, 1, 1, 1)
				if columnsOnly {
					k = 0
				}
				switch k {
				case 0:
					b.columnDef()
				case 1:
					b.indexDef(true)
				case 2:
					b.projection(true)
				case 3:
					b.feat("constraint")
					b.node("ConstraintClause", func() {
						b.kw("CONSTRAINT")
						b.field("Constraint", func() { b.name("constraint", PosIdent) })
						b.kw("CHECK")
						b.field("Expr", func() { b.Expr("check") })
					})
				}
			})
		}
		if n > 0 && b.C.P(1, 12) {
			b.feat("trailing comma")
			b.inOp(",")
		}
		b.op(")")
	})
}

// engine writes ENGINE [=] name[(args)] and its clauses in any order; it
// reports whether the last clause written could take an alias.
func (b *B) engine() {
	b.node("EngineExpr", func() {
		b.kw("ENGINE")
		if b.C.P(1, 6) {
			b.outOp("=")
		} else {
			b.op("=")
		}
		b.field("Name!", func() { b.name("engine", PosIdent) })
		if b.C.P(2, 3) {
			b.field("Params", func() {
				b.op("(")
				b.list(0, 3, func(int) { b.aliasedSite("engine argument") })
				b.op(")")
			})
		}
		// the formatter has one order for the clauses
		order := []string{"OrderBy", "PartitionBy", "PrimaryKey", "SampleBy", "TTL", "Settings"}
		segs := map[string][]Tok{}
		var chosen []string
		for i, f := range order {
			if b.C.P(1, []int{2, 3, 4, 6, 5, 4}[i]) {
				chosen = append(chosen, f)
			}
		}
		// write in a random order
		for i := len(chosen) - 1; i > 0; i-- {
			j := i - b.C.Intn(i+1)
			chosen[i], chosen[j] = chosen[j], chosen[i]
		}
		for _, f := range chosen {
			f := f
			segs[f] = b.cut(func() {
				b.field(f, func() {
					switch f {
					case "OrderBy":
						b.node("OrderByClause", func() {
							b.kw("ORDER BY")
							b.elem("Items", func() { b.orderItemTable() })
						})
					case "PartitionBy":
						b.kw("PARTITION BY")
						b.list(1, 2, func(int) { b.Expr("partition by") })
					case "PrimaryKey":
						b.kw("PRIMARY KEY")
						b.Expr("primary key")
					case "SampleBy":
						b.kw("SAMPLE BY")
						b.Expr("sample by")
					case "TTL":
						b.ttl(true)
					case "Settings":
						b.settingsClause()
					}
				})
			})
		}
		for _, f := range order {
			b.put(segs[f])
		}
	})
}

func (b *B) orderItemTable() {
	b.node("OrderExpr", func() {
		b.field("Expr", func() { b.Expr("sorting key") })
		switch b.C.Weighted(6, 1, 1) {
		case 1:
			b.kw("ASC")
			b.val("Direction", "ASC")
		case 2:
			b.kw("DESC")
			b.val("Direction", "DESC")
		}
	})
}

func (b *B) orReplace() {
	if b.C.P(1, 6) {
		b.kw("OR REPLACE")
		b.flag("OrReplace")
	}
}

func (b *B) createTable() {
	b.node("CreateTable", func() {
		b.kw("CREATE")
		b.orReplace()
		if b.C.P(1, 6) {
			b.kw("TEMPORARY")
			b.flag("HasTemporary")
		}
		b.kw("TABLE")
		b.ifNotExists()
		b.field("Name", func() { b.tableIdentNode("table") })
		b.uuid()
		b.onCluster()
		asDone := false
		switch b.C.Weighted(7, 1, 1, 1) {
		case 0:
			b.field("TableSchema", func() { b.tableSchema(false) })
		case 1:
			asDone = true
			b.feat("as table")
			b.field("TableSchema", func() {
				b.node("TableSchemaClause", func() {
					b.kw("AS")
					b.field("AliasTable", func() {
						b.name("table", PosPlain)
						if b.C.Bool() {
							b.op(".")
							b.name("table", PosAfterDot)
						}
					})
				})
			})
		case 2:
			asDone = true
			b.feat("as table function")
			b.field("TableSchema", func() {
				b.node("TableSchemaClause", func() {
					b.kw("AS")
					b.field("TableFunction", func() { b.tableFunc(1) })
				})
			})
		case 3:
		}
		if b.C.P(3, 4) {
			b.field("Engine", b.engine)
		}
		paren := false
		if !asDone && b.C.P(1, 4) {
			b.feat("create as select")
			paren = b.C.P(1, 3)
			b.asQuery(paren)
			if !paren && !b.closed {
				return
			}
		} else if !asDone && b.has("Engine") && b.C.P(1, 8) {
			b.kw("AS")
			b.field("TableFunction", func() { b.tableFunc(1) })
		}
		b.comment(8)
	})
}

// has reports whether field f of the current node was written.
func (b *B) has(f string) bool { return b.cur[len(b.cur)-1].Fields[f] != nil }

func (b *B) createDatabase() {
	b.node("CreateDatabase", func() {
		b.kw("CREATE DATABASE")
		b.ifNotExists()
		b.field("Name", func() { b.name("database", PosIdent) })
		b.onCluster()
		if b.C.P(1, 3) {
			b.field("Engine", b.engine)
		}
		b.comment(4)
	})
}

func (b *B) createFunction() {
	b.node("CreateFunction", func() {
		b.kw("CREATE")
		b.orReplace()
		b.kw("FUNCTION")
		b.ifNotExists()
		b.field("FunctionName", func() { b.name("function definition", PosIdent) })
		b.onCluster()
		b.need("AS")
		b.field("Params", func() {
			b.op("(")
			b.list(0, 3, func(int) { b.name("lambda-param", PosPlain) })
			b.op(")")
		})
		b.op("->")
		b.field("Expr", func() { b.Expr("function body") })
	})
}

func (b *B) namedCollection() {
	b.node("CreateNamedCollection", func() {
		b.kw("CREATE NAMED COLLECTION")
		b.ifNotExists()
		b.field("Name", func() { b.name("collection", PosIdent) })
		b.onCluster()
		b.need("AS")
		n := b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("Params", func() {
				b.node("NamedCollectionParam", func() {
					b.field("Name", func() { b.name("parameter", PosIdent) })
					b.op("=")
					b.field("Value", func() {
						switch b.C.Intn(3) {
						case 0:
							b.str()
						case 1:
							b.num()
						case 2:
							b.name("value", PosPlain)
						}
					})
					switch b.C.Weighted(3, 1, 1) {
					case 1:
						b.kw("OVERRIDABLE")
						b.flag("Overridable")
					case 2:
						b.kw("NOT OVERRIDABLE")
						b.flag("NotOverridable")
					}
				})
			})
		}
	})
}

func (b *B) dictArgs(field string, d int) {
	n := b.n2(0, 3)
	if d > 1 {
		n = b.n2(0, 1)
	}
	for i := 0; i < n; i++ {
		arg := func() {
			b.node("DictionaryArgExpr", func() {
				b.field("Name", func() { b.name("argument", PosAny) })
				if d < 3 && b.C.P(1, 6) {
					b.feat("nested dictionary args")
					b.op("(")
					b.dictArgs("Args", d+1)
					b.op(")")
					return
				}
				b.field("Value", func() {
					switch b.C.Intn(4) {
					case 0:
						b.str()
					case 1:
						b.num()
					case 2:
						b.name("value", PosPlain)
					case 3:
						b.feat("dictionary call arg")
						b.name("value", PosPlain)
						b.op("(")
						b.op(")")
					}
				})
			})
		}
		b.elem(field, arg)
	}
}

func (b *B) createDictionary() {
	b.node("CreateDictionary", func() {
		b.kw("CREATE")
		b.orReplace()
		b.kw("DICTIONARY")
		b.ifNotExists()
		b.field("Name", func() { b.tableIdentNode("dictionary") })
		b.uuid()
		b.onCluster()
		b.field("Schema", func() {
			b.node("DictionarySchemaClause", func() {
				b.op("(")
				n := b.count(1, 3)
				for i := 0; i < n; i++ {
					if i > 0 {
						b.op(",")
					}
					b.elem("Attributes", b.dictAttr)
				}
				b.op(")")
			})
		})
		b.field("Engine", func() {
			b.node("DictionaryEngineClause", func() {
				if b.C.P(3, 4) {
					b.field("PrimaryKey", func() {
						b.kw("PRIMARY KEY")
						b.list(1, 2, func(int) { b.Expr("dictionary key") })
					})
				}
				order := []string{"Source", "Lifetime", "Layout", "Range", "Settings"}
				chosen := []string{"Source"}
				for i, f := range order[1:] {
					if b.C.P(1, []int{2, 2, 4, 4}[i]) {
						chosen = append(chosen, f)
					}
				}
				for i := len(chosen) - 1; i > 0; i-- {
					j := i - b.C.Intn(i+1)
					chosen[i], chosen[j] = chosen[j], chosen[i]
				}
				segs := map[string][]Tok{}
				for _, f := range chosen {
					f, name := f, f
					if f == "Settings" {
						name = "Settings!" // its parentheses belong to the engine
					}
					segs[f] = b.cut(func() { b.field(name, func() { b.dictClause(f) }) })
				}
				for _, f := range order {
					b.put(segs[f])
				}
			})
		})
		b.comment(4)
	})
}

func (b *B) dictClause(f string) {
	switch f {
	case "Source", "Layout":
		typ := "DictionarySourceClause"
		if f == "Layout" {
			typ = "DictionaryLayoutClause"
		}
		b.node(typ, func() {
			b.kw(strings.ToUpper(f))
			b.op("(")
			b.field(f, func() { b.name(f, PosIdent) })
			b.op("(")
			b.dictArgs("Args", 0)
			b.op(")")
			b.op(")")
		})
	case "Lifetime":
		b.node("DictionaryLifetimeClause", func() {
			b.kw("LIFETIME")
			b.op("(")
			switch b.C.Intn(3) {
			case 0:
				b.field("Value", func() { b.dec() })
			case 1:
				b.kw("MIN")
				b.field("Min", func() { b.dec() })
				b.kw("MAX")
				b.field("Max", func() { b.dec() })
			case 2:
				b.feat("max before min")
				b.minMaxSwapped(func() { b.dec() })
			}
			b.op(")")
		})
	case "Range":
		b.node("DictionaryRangeClause", func() {
			b.kw("RANGE")
			b.op("(")
			if b.C.Bool() {
				b.minMaxSwapped(func() { b.name("column", PosIdent) })
			} else {
				b.kw("MIN")
				b.field("Min", func() { b.name("column", PosIdent) })
				b.kw("MAX")
				b.field("Max", func() { b.name("column", PosIdent) })
			}
			b.op(")")
		})
	case "Settings":
		b.kw("SETTINGS")
		b.op("(")
		b.settingsList("")
		b.op(")")
	}
}

func (b *B) minMaxSwapped(f func()) {
	hi := b.cut(func() { b.kw("MAX"); b.field("Max", f) })
	lo := b.cut(func() { b.kw("MIN"); b.field("Min", f) })
	b.put(lo)
	b.put(hi)
}

func (b *B) dictAttr() {
	b.node("DictionaryAttribute", func() {
		b.field("Name", func() { b.name("attribute", PosIdent) })
		b.field("Type", func() { b.typ(0) })
		order := []string{"Default", "Expression", "Hierarchical", "Injective", "IsObjectId"}
		var chosen []string
		for _, f := range order {
			if b.C.P(1, 4) {
				chosen = append(chosen, f)
			}
		}
		for i := len(chosen) - 1; i > 0; i-- {
			j := i - b.C.Intn(i+1)
			chosen[i], chosen[j] = chosen[j], chosen[i]
		}
		segs := map[string][]Tok{}
		for _, f := range chosen {
			f := f
			segs[f] = b.cut(func() {
				switch f {
				case "Default":
					b.kw("DEFAULT")
					b.field("Default", func() {
						switch b.C.Weighted(3, 3, 1, 1) {
						case 0:
							b.num()
						case 1:
							b.str()
						case 2:
							b.name("default", PosPlain)
						case 3:
							b.feat("dictionary default null")
							b.verb("NULL")
						}
					})
				case "Expression":
					b.kw("EXPRESSION")
					b.field("Expression", func() { b.Expr("dictionary expression") })
				case "Hierarchical":
					b.kw("HIERARCHICAL")
					b.flag(f)
				case "Injective":
					b.kw("INJECTIVE")
					b.flag(f)
				case "IsObjectId":
					b.kw("IS_OBJECT_ID")
					b.flag(f)
				}
			})
		}
		for _, f := range order {
			b.put(segs[f])
		}
	})
}

// ---- simple statements

func (b *B) use() {
	b.node("UseStmt", func() {
		b.kw("USE")
		b.field("Database", func() { b.name("database", PosIdent) })
	})
}

func (b *B) setStmt() {
	b.node("SetStmt", func() {
		if b.C.P(1, 6) {
			b.inKw("SETTINGS")
			b.outKw("SET")
		} else {
			b.kw("SET")
		}
		b.field("Settings!", func() {
			n := b.count(1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					b.op(",")
				}
				b.setting()
			}
		})
	})
}

func (b *B) show() {
	b.node("ShowStmt", func() {
		b.kw("SHOW")
		switch b.C.Intn(3) {
		case 0:
			b.kw("TABLES")
			b.val("ShowType", "TABLES")
		case 1:
			b.kw("CREATE TABLE")
			b.val("ShowType", "CREATE TABLE")
			b.field("Target", func() { b.tableIdentNode("table") })
		case 2:
			b.kw("DATABASES")
			b.val("ShowType", "DATABASES")
			if b.C.Bool() {
				if b.C.Bool() {
					b.kw("NOT")
					b.flag("NotLike")
				}
				k := pbt.Pick(b.C, []string{"LIKE", "ILIKE"})
				b.kw(k)
				b.val("LikeType", k)
				b.field("LikePattern", func() {
					if b.C.P(2, 3) {
						b.str()
					} else {
						b.Expr("like pattern")
					}
				})
			}
			if b.C.P(1, 3) {
				b.kw("LIMIT")
				b.field("Limit", func() { b.Expr("show limit") })
			}
			if b.C.P(1, 3) {
				b.kw("INTO OUTFILE")
				b.field("OutFile", func() { b.str() })
			}
			if b.C.P(1, 3) {
				b.kw("FORMAT")
				b.field("Format", func() { b.str() })
			}
		}
	})
}

func (b *B) describe() {
	b.node("DescribeStmt", func() {
		if b.C.P(1, 3) {
			b.inKw("DESC")
			b.outKw("DESCRIBE")
		} else {
			b.kw("DESCRIBE")
		}
		if b.C.Bool() {
			b.kw("TABLE")
			b.val("DescribeType", "TABLE")
		}
		b.field("Target", func() { b.tableIdentPos("table", PosNotTable) })
	})
}

func (b *B) tableIdentPos(role string, pos NamePos) {
	b.node("TableIdentifier", func() {
		if b.C.P(1, 4) {
			b.field("Database", func() { b.name("database", pos) })
			b.op(".")
			b.field("Table", func() { b.name(role, PosAnyString) })
			return
		}
		b.field("Table", func() { b.name(role, pos) })
	})
}

func (b *B) truncate() {
	b.node("TruncateTable", func() {
		b.kw("TRUNCATE")
		if b.C.P(1, 4) {
			b.kw("TEMPORARY")
			b.flag("IsTemporary")
		}
		b.kw("TABLE")
		b.ifExists()
		b.field("Name", func() { b.tableIdentNode("table") })
		b.onCluster()
	})
}

func (b *B) deleteFrom() {
	b.node("DeleteClause", func() {
		b.kw("DELETE FROM")
		b.field("Table", func() { b.tableIdentNode("table") })
		b.onCluster()
		b.kw("WHERE")
		b.field("WhereExpr", func() { b.Expr("delete where") })
	})
}

func (b *B) columnNames() {
	b.op("(")
	b.list(1, 4, func(int) { b.nested("column", PosIdent) })
	b.op(")")
}

func (b *B) values(d int) {
	b.node("AssignmentValues", func() {
		b.op("(")
		n := b.count(1, 4)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("Values", func() {
				switch b.C.Weighted(4, 3, 2, 1, 1, 2) {
				case 0:
					b.num()
				case 1:
					b.str()
				case 2:
					// a value starting with ( is read as a nested row
					st := len(b.Out)
					if b.C.P(1, 2) {
						b.name("function", PosPlain)
						b.op("(")
						b.list(0, 2, func(int) { b.Expr("insert argument") })
						b.op(")")
					} else {
						b.name("column", PosIdent)
						b.op(pbt.Pick(b.C, []string{"+", "="}))
						b.expr(lPostfix)
					}
					_ = st
				case 3:
					b.feat("typed placeholder")
					b.param("TypedPlaceholder")
				case 4:
					if d < 2 {
						b.feat("nested row")
						b.values(d + 1)
					} else {
						b.num()
					}
				case 5:
					b.array()
				}
			})
		}
		b.op(")")
	})
}

func (b *B) insert() {
	b.node("InsertStmt", func() {
		b.kw("INSERT INTO")
		if b.C.P(1, 4) {
			b.kw("TABLE")
			b.flag("HasTableKeyword")
		}
		if b.C.P(1, 6) {
			b.feat("insert into function")
			b.kw("FUNCTION")
			b.field("Table", func() {
				b.name("table function", PosAny)
				b.op("(")
				b.list(0, 2, func(int) { b.Expr("function argument") })
				b.op(")")
			})
			if b.C.P(1, 3) {
				b.feat("function columns")
				b.field("ColumnNames", b.columnNames)
			}
		} else {
			b.field("Table", func() { b.tableIdentPos("table", PosNotTable) })
			if b.C.Bool() {
				b.field("ColumnNames", b.columnNames)
			}
		}
		switch b.C.Weighted(4, 3, 2, 1) {
		case 0:
			b.kw("VALUES")
			n := b.count(1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					b.op(",")
				}
				b.elem("Values", func() { b.values(0) })
			}
		case 1:
			save := b.subq
			b.subq++ // no WITH directly after the table
			b.field("SelectExpr", func() { b.selectQuery(false) })
			b.subq = save
		case 2:
			b.field("Format", func() {
				b.kw("FORMAT")
				b.name("format", PosIdent)
			})
		case 3:
		}
	})
}

func (b *B) columnNamesBare() { b.list(1, 2, func(int) { b.name("column", PosPlain) }) }

func (b *B) rename() {
	b.node("RenameStmt", func() {
		b.kw("RENAME")
		t := pbt.Pick(b.C, []string{"TABLE", "DICTIONARY", "DATABASE"})
		b.kw(t)
		b.val("RenameTarget", t)
		n := b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("TargetPairList", func() {
				b.node("TargetPair", func() {
					b.field("Old", func() { b.tableIdentNode("table") })
					b.kw("TO")
					b.field("New", func() { b.tableIdentNode("table") })
				})
			})
		}
		b.onCluster()
	})
}

// ---- views and drops

func (b *B) createView() {
	b.node("CreateView", func() {
		b.kw("CREATE")
		b.orReplace()
		b.kw("VIEW")
		b.ifNotExists()
		b.field("Name", func() { b.tableIdentNode("view") })
		b.uuid()
		b.onCluster()
		if b.C.P(1, 3) {
			b.field("TableSchema", func() { b.tableSchema(true) })
		}
		b.comment(6)
		if b.C.P(9, 10) {
			b.asQuery(b.C.P(1, 4))
		}
	})
}

func (b *B) createLiveView() {
	b.node("CreateLiveView", func() {
		b.kw("CREATE LIVE VIEW")
		b.ifNotExists()
		b.field("Name", func() { b.tableIdentNode("view") })
		b.uuid()
		b.onCluster()
		if b.C.P(1, 3) {
			b.feat("with timeout")
			b.field("WithTimeout", func() {
				b.node("WithTimeoutClause", func() {
					b.kw("WITH TIMEOUT")
					if b.C.P(2, 3) {
						b.field("Number", func() { b.dec() })
					}
				})
			})
		}
		if b.C.P(1, 3) {
			b.field("Destination", func() {
				b.kw("TO")
				b.tableIdentNode("table")
			})
		}
		if b.C.P(1, 3) {
			b.field("TableSchema", func() { b.tableSchema(true) })
		}
		if b.C.P(9, 10) {
			b.asQuery(b.C.P(1, 4))
		}
	})
}

func (b *B) createMaterializedView() {
	b.node("CreateMaterializedView", func() {
		b.kw("CREATE MATERIALIZED VIEW")
		b.ifNotExists()
		b.field("Name", func() { b.tableIdentNode("view") })
		b.onCluster()
		if b.C.P(1, 3) {
			b.feat("refresh")
			b.field("Refresh", func() {
				b.node("RefreshExpr", func() {
					b.kw("REFRESH")
					k := pbt.Pick(b.C, []string{"EVERY", "AFTER"})
					b.kw(k)
					b.val("Frequency", k)
					b.field("Interval", b.intervalBody)
					if b.C.P(1, 3) {
						b.kw("OFFSET")
						b.field("Offset", b.intervalBody)
					}
				})
			})
		}
		if b.C.P(1, 6) {
			b.feat("randomize")
			b.kw("RANDOMIZE FOR")
			b.field("RandomizeFor", b.intervalBody)
		}
		if b.C.P(1, 6) {
			b.feat("depends on")
			b.kw("DEPENDS ON")
			n := b.count(1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					b.op(",")
				}
				b.elem("DependsOn", func() { b.tableIdentNode("table") })
			}
		}
		if b.C.P(1, 6) {
			b.field("Settings", b.settingsClause)
		}
		if b.C.P(1, 6) {
			b.kw("APPEND")
			b.flag("HasAppend")
		}
		dest := false
		switch b.C.Intn(3) {
		case 0:
			dest = true
			b.field("Destination!", func() {
				b.node("DestinationClause", func() {
					b.kw("TO")
					b.field("TableIdentifier", func() { b.tableIdentNode("table") })
					if b.C.P(1, 3) {
						b.field("TableSchema!", func() { b.tableSchema(true) })
					}
				})
			})
		case 1:
			b.field("Engine", b.engine)
		case 2:
			b.field("TableSchema", func() { b.tableSchema(false) })
			b.field("Engine", b.engine)
		}
		if b.C.P(1, 6) {
			b.kw("EMPTY")
			b.flag("HasEmpty")
		}
		if b.C.P(1, 6) {
			b.feat("definer")
			b.kw("DEFINER")
			b.op("=")
			b.field("Definer", func() { b.name("user", PosIdent) })
		}
		if b.C.P(1, 6) {
			b.kw("SQL SECURITY")
			k := pbt.Pick(b.C, []string{"DEFINER", "NONE"})
			b.kw(k)
			b.val("SQLSecurity", k)
		}
		if !dest && b.C.P(1, 4) {
			b.kw("POPULATE")
			b.flag("Populate")
		}
		// COMMENT may stand before or after the query
		if b.C.P(1, 8) {
			b.feat("view comment first")
			var c []Tok
			c = b.cut(func() {
				b.kw("COMMENT")
				b.field("Comment", func() { b.str() })
			})
			b.asQuery(true)
			b.put(c)
			return
		}
		if b.C.P(1, 12) { // without a query
			b.comment(6)
			return
		}
		paren := b.C.P(1, 4)
		b.asQuery(paren)
		if paren || b.closed {
			b.comment(6)
		}
	})
}

func (b *B) modifier() {
	switch b.C.Weighted(4, 1, 1) {
	case 1:
		b.kw("SYNC")
		b.val("Modifier", "SYNC")
	case 2:
		b.kw("NO DELAY")
		b.val("Modifier", "NO DELAY")
	}
}

func (b *B) dropOrDetach() {
	if b.C.P(1, 4) {
		b.kw("DETACH")
		b.flag("IsDetach")
		return
	}
	b.kw("DROP")
}

func (b *B) dropDatabase() {
	b.node("DropDatabase", func() {
		b.dropOrDetach()
		b.kw("DATABASE")
		b.ifExists()
		b.field("Name", func() { b.name("database", PosIdent) })
		b.onCluster()
		b.modifier()
	})
}

func (b *B) drop() {
	b.node("DropStmt", func() {
		b.dropOrDetach()
		t := "TABLE"
		switch b.C.Weighted(3, 1, 1, 1) {
		case 1:
			b.kw("TEMPORARY")
			b.flag("IsTemporary")
		case 2:
			t = "VIEW"
		case 3:
			t = "DICTIONARY"
		}
		b.kw(t)
		b.val("DropTarget", t)
		b.ifExists()
		b.field("Name", func() { b.tableIdentNode("table") })
		b.onCluster()
		b.modifier()
	})
}
