package gen

// partition writes PARTITION expr | ID 'x' | ALL.
func (b *B) partition(allowID bool) {
	b.node("PartitionClause", func() {
		b.kw("PARTITION")
		w := 1
		if !allowID {
			w = 0
		}
		id := w
		if !b.Opt.PartitionID {
			id = 0 // known finding: ID is not printed
		}
		switch b.C.Weighted(6, id, w) {
		case 0:
			b.field("Expr", b.partitionExpr)
		case 1:
			b.kw("ID")
			b.field("ID", func() { b.str() })
			b.feat("partition id")
		case 2:
			b.kw("ALL")
			b.flag("All")
			b.feat("partition all")
		}
	})
}

// partitionExpr never starts with a name, which could be ID or ALL.
func (b *B) partitionExpr() {
	start := len(b.Out)
	var e *E
	switch b.C.Intn(4) {
	case 0:
		b.str()
		e = leaf(b.Out[start:])
	case 1:
		b.int()
		e = leaf(b.Out[start:])
	case 2:
		e = b.paren()
	case 3:
		e = b.array()
	}
	b.Exprs = append(b.Exprs, &Site{Where: "partition", E: e, Out: clone(b.Out[start:])})
}

func (b *B) after(pos NamePos) {
	if b.C.P(1, 4) {
		b.feat("after")
		b.kw("AFTER")
		b.field("After", func() { b.nested("column", pos) })
	}
}

func (b *B) alterTable() {
	b.node("AlterTable", func() {
		b.kw("ALTER TABLE")
		b.field("TableIdentifier", func() { b.tableIdentNode("table") })
		b.onCluster()
		n := b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("AlterExprs", func() { b.alterClause(i == n-1) })
		}
	})
}

func (b *B) inPartition(field string) bool {
	if b.C.P(1, 3) {
		b.kw("IN")
		b.field(field, func() { b.partition(true) })
		return true
	}
	return false
}

func (b *B) alterClause(last bool) {
	hi := 15
	if last {
		hi = 23
	}
	k := b.C.Intn(hi)
	kinds := []struct{ kw, f string }{{"COLUMN", "Column"}, {"INDEX", "Index"}, {"PROJECTION", "Projection"}}
	switch k {
	case 0:
		b.node("AlterTableAddColumn", func() {
			b.kw("ADD COLUMN")
			b.ifNotExists()
			b.field("Column", b.columnDef)
			b.after(PosIdent)
			if last && b.C.P(1, 6) {
				b.field("Settings", b.settingsClause)
			}
		})
	case 1:
		b.node("AlterTableAddIndex", func() {
			b.inKw("ADD INDEX")
			b.outKw("ADD INDEX")
			b.ifNotExists()
			seg := b.cut(func() { b.field("Index", func() { b.indexDef(false) }) })
			b.put(seg[1:])
			b.after(PosIdent)
		})
	case 2:
		b.node("AlterTableAddProjection", func() {
			b.kw("ADD PROJECTION")
			b.ifNotExists()
			b.field("TableProjection", func() { b.projection(false) })
			b.after(PosIdent)
		})
	case 3, 4, 5:
		d := kinds[k-3]
		b.node("AlterTableDrop"+d.f, func() {
			b.kw("DROP " + d.kw)
			b.ifExists()
			b.field(d.f+"Name", func() { b.nested("column", PosIdent) })
		})
	case 6:
		b.node("AlterTableDropPartition", func() {
			b.kw("DROP")
			if b.C.P(1, 3) {
				b.kw("DETACHED")
				b.flag("HasDetached")
			}
			b.field("Partition", func() { b.partition(true) })
			if last && b.C.P(1, 3) {
				b.field("Settings", b.settingsClause)
			}
		})
	case 7:
		b.node("AlterTableAttachPartition", func() {
			b.kw("ATTACH")
			b.field("Partition", func() { b.partition(true) })
			if b.C.P(1, 2) {
				b.kw("FROM")
				b.field("From", func() { b.tableIdentNode("table") })
			}
		})
	case 8:
		b.node("AlterTableDetachPartition", func() {
			b.kw("DETACH")
			b.field("Partition", func() { b.partition(true) })
			if last && b.C.P(1, 3) {
				b.field("Settings", b.settingsClause)
			}
		})
	case 9:
		b.node("AlterTableFreezePartition", func() {
			b.kw("FREEZE")
			if b.C.P(2, 3) {
				b.field("Partition", func() { b.partition(true) })
			}
		})
	case 10:
		b.node("AlterTableRemoveTTL", func() { b.kw("REMOVE TTL") })
	case 11:
		b.node("AlterTableRenameColumn", func() {
			b.kw("RENAME COLUMN")
			b.ifExists()
			b.field("OldColumnName", func() { b.nested("column", PosIdent) })
			b.kw("TO")
			b.field("NewColumnName", func() { b.nested("column", PosIdent) })
		})
	case 12:
		b.node("AlterTableModifyColumn", func() {
			b.kw("MODIFY COLUMN")
			b.ifExists()
			b.field("Column", b.columnDef)
			if b.C.P(1, 5) {
				b.feat("remove property")
				b.field("RemovePropertyType", func() {
					b.kw("REMOVE")
					b.fixed([]string{"DEFAULT", "ALIAS", "MATERIALIZED", "CODEC", "COMMENT", "TTL"}[b.C.Intn(6)])
				})
			}
		})
	case 13:
		b.node("AlterTableReplacePartition", func() {
			b.kw("REPLACE")
			b.field("Partition", func() { b.partition(true) })
			b.kw("FROM")
			b.field("Table", func() { b.tableIdentNode("table") })
		})
	case 14:
		b.node("AlterTableDelete", func() {
			b.kw("DELETE WHERE")
			b.field("WhereClause", func() { b.Expr("alter delete where") })
		})
	case 15, 16, 17:
		d := kinds[k-15]
		b.node("AlterTableClear"+d.f, func() {
			b.kw("CLEAR " + d.kw)
			b.ifExists()
			b.field(d.f+"Name", func() { b.nested("column", PosIdent) })
			b.inPartition("PartitionExpr")
		})
	case 18:
		d := kinds[b.C.Range(1, 2)]
		b.node("AlterTableMaterialize"+d.f, func() {
			b.kw("MATERIALIZE " + d.kw)
			b.ifExists()
			b.field(d.f+"Name", func() { b.nested("column", PosIdent) })
			b.inPartition("Partition")
		})
	case 19:
		b.node("AlterTableModifyTTL", func() {
			b.kw("MODIFY")
			b.field("TTL", func() { b.ttl(true) })
		})
	case 20:
		b.node("AlterTableModifySetting", func() {
			b.kw("MODIFY SETTING")
			b.settingsList("Settings")
		})
	case 21:
		b.node("AlterTableResetSetting", func() {
			b.kw("RESET SETTING")
			n := b.count(1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					b.op(",")
				}
				b.elem("Settings", func() { b.name("setting", PosIdent) })
			}
		})
	case 22:
		switch b.C.Intn(3) {
		case 0:
			b.node("AlterTableUpdate", func() {
				b.kw("UPDATE")
				n := b.count(1, 3)
				for i := 0; i < n; i++ {
					if i > 0 {
						b.op(",")
					}
					b.elem("Assignments", func() {
						b.node("UpdateAssignment", func() {
							b.field("Column", func() { b.nested("column", PosIdent) })
							b.op("=")
							b.field("Expr", func() {
								start, lo := len(b.Out), len(b.In)
								e := b.expr(lConcat)
								b.Exprs = append(b.Exprs, &Site{Where: "update assignment", E: e, Out: clone(b.Out[start:]), Lo: lo, Hi: len(b.In)})
							})
						})
					})
				}
				b.inPartition("InPartition")
				b.kw("WHERE")
				b.field("WhereClause", func() { b.Expr("alter update where") })
			})
		case 1:
			b.node("AlterTableModifyQuery", func() {
				b.kw("MODIFY QUERY")
				b.field("SelectExpr", func() { b.selectQuery(false) })
			})
		case 2:
			b.node("AlterTableModifyOrderBy", func() {
				b.kw("MODIFY ORDER BY")
				b.field("OrderBy", func() { b.Expr("modify order by") })
			})
		}
	}
}
