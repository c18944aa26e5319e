package gen

import "verif/harness/pbt"

func (b *B) pickKw(ws ...string) string {
	k := pbt.Pick(b.C, ws)
	b.kw(k)
	return k
}

func (b *B) system() {
	b.node("SystemStmt", func() {
		b.kw("SYSTEM")
		b.field("Expr", func() {
			switch b.C.Intn(5) {
			case 0:
				b.node("SystemFlushExpr", func() {
					b.kw("FLUSH")
					if b.C.Bool() {
						b.kw("LOGS")
						b.flag("Logs")
					} else {
						b.kw("DISTRIBUTED")
						b.field("Distributed", func() { b.tableIdentNode("table") })
					}
				})
			case 1:
				b.node("SystemReloadExpr", func() {
					b.kw("RELOAD")
					t := b.pickKw("DICTIONARIES", "DICTIONARY", "EMBEDDED DICTIONARIES")
					b.val("Type", t)
					if t != "DICTIONARY" {
						b.onCluster()
						return
					}
					if b.C.P(1, 4) {
						// ON CLUSTER may stand after the name
						tbl := b.cut(func() { b.field("Dictionary", func() { b.tableIdentNode("dictionary") }) })
						b.onClusterAlways()
						b.put(tbl)
						return
					}
					b.onCluster()
					b.field("Dictionary", func() { b.tableIdentNode("dictionary") })
				})
			case 2:
				b.node("SystemSyncExpr", func() {
					b.kw("SYNC REPLICA")
					b.field("Cluster", func() { b.tableIdentNode("table") })
				})
			case 3:
				b.node("SystemCtrlExpr", func() {
					b.val("Command", b.pickKw("START", "STOP"))
					if b.C.Bool() {
						b.kw("REPLICATED SENDS")
						b.val("Type", "REPLICATED SENDS")
						return
					}
					b.val("Type", b.pickKw("DISTRIBUTED SENDS", "FETCHES", "MERGES", "TTL MERGES"))
					b.field("Cluster", func() { b.tableIdentNode("table") })
				})
			case 4:
				b.node("SystemDropExpr", func() {
					b.kw("DROP")
					b.val("Type", b.pickKw("DNS CACHE", "MARK CACHE", "UNCOMPRESSED CACHE", "FILESYSTEM CACHE", "QUERY CACHE", "COMPILED EXPRESSION CACHE"))
				})
			}
		})
	})
}

func (b *B) onClusterAlways() {
	b.field("OnCluster", func() {
		b.node("ClusterClause", func() {
			b.kw("ON CLUSTER")
			b.field("Expr", func() { b.name("cluster", PosIdent) })
		})
	})
}

func (b *B) optimize() {
	b.node("OptimizeStmt", func() {
		b.kw("OPTIMIZE TABLE")
		b.field("Table", func() { b.tableIdentNode("table") })
		b.onCluster()
		if b.C.P(1, 2) {
			b.field("Partition", func() { b.partition(true) })
		}
		if b.C.P(1, 2) {
			b.kw("FINAL")
			b.flag("HasFinal")
		}
		if b.C.P(1, 2) {
			b.field("Deduplicate", func() {
				b.node("DeduplicateClause", func() {
					b.kw("DEDUPLICATE")
					if b.C.P(3, 4) {
						b.kw("BY")
						b.field("By", func() { b.list(1, 3, func(int) { b.name("column", PosPlain) }) })
						if b.C.P(1, 2) {
							b.kw("EXCEPT")
							b.field("Except", func() { b.list(1, 2, func(int) { b.name("column", PosPlain) }) })
						}
					}
				})
			})
		}
	})
}

func (b *B) check() {
	b.node("CheckStmt", func() {
		b.kw("CHECK TABLE")
		b.field("Table", func() { b.tableIdentNode("table") })
		if b.C.Bool() {
			b.field("Partition", func() { b.partition(true) })
		}
	})
}

// ---- access control

// roleName writes name[@'host'] [ON CLUSTER c] or 'name' [ON CLUSTER c].
func (b *B) roleName(role string, cluster bool) {
	b.node("RoleName", func() {
		if b.C.P(1, 4) {
			b.field("Name", func() { b.str() })
		} else {
			b.field("Name", func() { b.name(role, PosPlain) })
			if b.C.P(1, 4) {
				b.op("@")
				b.field("Scope", func() { b.str() })
				b.feat("user host")
			}
		}
		if cluster {
			b.onCluster()
		}
	})
}

func (b *B) roleNames(field, role string, cluster bool) {
	n := b.count(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.op(",")
		}
		b.elem(field, func() { b.roleName(role, cluster) })
	}
}

func (b *B) roleSettings() {
	if !b.C.P(1, 2) {
		return
	}
	b.feat("role settings")
	b.kw("SETTINGS")
	n := b.count(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.op(",")
		}
		b.elem("Settings", b.roleSetting)
	}
}

func (b *B) roleSetting() {
	b.node("RoleSetting", func() {
		val := func() {
			b.field("Value", func() {
				if b.C.Bool() {
					b.int()
				} else {
					b.str()
				}
			})
		}
		b.elem("SettingPairs", func() {
			b.node("SettingPair", func() {
				b.field("Name", func() { b.name("setting", PosPlain) })
				if b.C.P(3, 4) {
					b.op("=")
					b.val("Operation", "=")
					val()
				}
			})
		})
		for _, k := range []string{"MIN", "MAX"} {
			if b.C.P(1, 3) {
				b.elem("SettingPairs", func() {
					b.node("SettingPair", func() {
						b.field("Name", func() { b.kw(k) })
						if b.C.Bool() {
							b.op("=")
							b.val("Operation", "=")
						}
						val()
					})
				})
			}
		}
		if b.C.P(1, 3) {
			b.field("Modifier", func() { b.kw(pbt.Pick(b.C, []string{"READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY"})) })
		}
	})
}

func (b *B) notExistsOrReplace() {
	switch b.C.Weighted(4, 1, 1) {
	case 1:
		b.kw("IF NOT EXISTS")
		b.flag("IfNotExists")
	case 2:
		b.kw("OR REPLACE")
		b.flag("OrReplace")
	}
}

func (b *B) createRole() {
	b.node("CreateRole", func() {
		b.kw("CREATE ROLE")
		b.notExistsOrReplace()
		b.roleNames("RoleNames", "role", true)
		if b.C.P(1, 4) {
			b.kw("IN")
			b.field("AccessStorageType", func() { b.name("storage", PosPlain) })
		}
		b.roleSettings()
	})
}

func (b *B) alterRole() {
	b.node("AlterRole", func() {
		b.kw("ALTER ROLE")
		b.ifExists()
		n := b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("RoleRenamePairs", func() {
				b.node("RoleRenamePair", func() {
					b.field("RoleName", func() { b.roleName("role", true) })
					if b.C.P(1, 3) {
						b.kw("RENAME TO")
						b.field("NewName", func() { b.name("role", PosPlain) })
					}
				})
			})
		}
		b.roleSettings()
	})
}

func (b *B) dropUserOrRole() {
	b.node("DropUserOrRole", func() {
		b.kw("DROP")
		b.val("Target", b.pickKw("USER", "ROLE"))
		b.ifExists()
		b.roleNames("Names", "user", true)
		if b.C.P(1, 4) {
			b.kw("FROM")
			b.field("From", func() { b.name("storage", PosPlain) })
		}
		b.modifier()
	})
}

// createUser writes the clauses in any order; they are printed in a fixed one.
func (b *B) createUser() {
	b.node("CreateUser", func() {
		b.kw("CREATE USER")
		b.notExistsOrReplace()
		b.roleNames("UserNames", "user", true)
		shuffled := b.C.P(1, 3)
		type cl struct {
			on bool
			f  func()
		}
		cls := []cl{
			{b.C.P(1, 2), func() { b.field("Authentication", b.authentication) }},
			{b.C.P(1, 4), func() { b.kw("VALID UNTIL"); b.field("ValidUntil", func() { b.str() }) }},
			{b.C.P(1, 3), b.hosts},
			{b.C.P(1, 4), func() { b.field("DefaultRole", b.defaultRole) }},
			{b.C.P(1, 4), func() {
				b.kw("DEFAULT DATABASE")
				if b.C.P(1, 3) {
					b.kw("NONE")
					b.flag("DefaultDbNone")
				} else {
					b.field("DefaultDatabase", func() { b.name("database", PosPlain) })
				}
			}},
			{b.C.P(1, 3), func() { b.field("Grantees", b.grantees) }},
			{true, b.roleSettings},
		}
		outs := make([][]Tok, len(cls))
		order := []int{0, 1, 2, 3, 4, 5, 6}
		if shuffled {
			for i := len(order) - 1; i > 0; i-- {
				j := b.C.Intn(i + 1)
				order[i], order[j] = order[j], order[i]
			}
			b.feat("user clauses shuffled")
		}
		for _, i := range order {
			if cls[i].on {
				outs[i] = b.cut(cls[i].f)
			}
		}
		for _, o := range outs {
			b.put(o)
		}
	})
}

func (b *B) authentication() {
	b.node("AuthenticationClause", func() {
		switch b.C.Intn(4) {
		case 0:
			b.kw("NOT IDENTIFIED")
			b.flag("NotIdentified")
		case 1:
			b.kw("IDENTIFIED WITH")
			b.fixed(pbt.Pick(b.C, []string{"no_password", "plaintext_password", "sha256_password", "double_sha1_hash"}))
			b.val("AuthType", b.Out[len(b.Out)-1].S)
			if b.C.Bool() {
				b.kw("BY")
				b.field("AuthValue", func() { b.str() })
			}
		case 2:
			b.kw("IDENTIFIED WITH LDAP SERVER")
			b.field("LdapServer", func() { b.str() })
		case 3:
			b.kw("IDENTIFIED WITH KERBEROS")
			b.flag("IsKerberos")
			if b.C.Bool() {
				b.kw("REALM")
				b.field("KerberosRealm", func() { b.str() })
			}
		}
	})
}

func (b *B) hosts() {
	n := b.count(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.op(",")
		}
		b.elem("Hosts", func() {
			b.node("HostClause", func() {
				b.kw("HOST")
				k := b.pickKw("LOCAL", "ANY", "NONE", "NAME", "REGEXP", "IP", "LIKE")
				b.val("HostType", k)
				if len(k) > 5 || k == "NAME" || k == "IP" || k == "LIKE" {
					b.field("HostValue", func() { b.str() })
				}
			})
		})
	}
}

func (b *B) defaultRole() {
	b.node("DefaultRoleClause", func() {
		b.kw("DEFAULT ROLE")
		if b.C.P(1, 4) {
			b.kw("NONE")
			b.flag("None")
			return
		}
		b.roleNames("Roles", "role", true)
	})
}

func (b *B) grantees() {
	b.node("GranteesClause", func() {
		b.kw("GRANTEES")
		switch b.C.Intn(3) {
		case 0:
			b.kw("ANY")
			b.flag("Any")
		case 1:
			b.kw("NONE")
			b.flag("None")
		case 2:
			b.roleNames("Grantees", "user", true)
		}
		if b.C.P(1, 3) {
			b.kw("EXCEPT")
			b.roleNames("ExceptUsers", "user", true)
		}
	})
}

var privileges = []string{
	"ALTER UPDATE", "ALTER DELETE", "ALTER USER", "ALTER ROLE", "ALTER QUOTA", "ALTER INDEX",
	"ALTER ADD COLUMN", "ALTER DROP COLUMN", "ALTER MODIFY COLUMN", "ALTER CLEAR COLUMN", "ALTER COMMENT COLUMN", "ALTER RENAME COLUMN",
	"ALTER ADD INDEX", "ALTER DROP INDEX", "ALTER CLEAR INDEX", "ALTER MODIFY TTL", "ALTER ADD CONSTRAINT", "ALTER DROP CONSTRAINT", "ALTER MATERIALIZED COLUMN", "ALTER MATERIALIZED INDEX", "ALTER MATERIALIZED TTL",
	"ALTER ORDER BY", "ALTER SAMPLE BY", "ALTER SETTINGS", "ALTER VIEW MODIFY", "ALTER VIEW REFRESH", "ALTER MOVE PARTITION", "ALTER FREEZE PARTITION",
	"CREATE DATABASE", "CREATE DICTIONARY", "CREATE TABLE", "CREATE FUNCTION", "CREATE VIEW", "CREATE USER", "CREATE ROLE", "CREATE QUOTA", "CREATE TEMPORARY TABLE",
	"CREATE ROWS POLICY",
	"DROP DATABASE", "DROP DICTIONARY", "DROP USER", "DROP ROLE", "DROP QUOTA", "DROP TABLE", "DROP FUNCTION", "DROP VIEW",
	"SHOW DATABASES", "SHOW DICTIONARIES", "SHOW TABLES", "SHOW COLUMNS",
	"ALL", "NONE", "KILL QUERY", "ADMIN OPTION", "OPTIMIZE", "TRUNCATE", "ROLE ADMIN",
	"SYSTEM SHUTDOWN", "SYSTEM MERGES", "SYSTEM FETCHES", "SYSTEM SENDS", "SYSTEM MOVES", "SYSTEM CLUSTER",
	"SYSTEM DROP CACHE", "SYSTEM DROP MARK CACHE", "SYSTEM DROP DNS CACHE", "SYSTEM DROP UNCOMPRESSED CACHE",
	"SYSTEM RELOAD DICTIONARY", "SYSTEM RELOAD FUNCTION", "SYSTEM RELOAD FUNCTIONS", "SYSTEM RELOAD CONFIG",
	"SYSTEM FLUSH LOGS", "SYSTEM FLUSH DISTRIBUTED", "SYSTEM TTL MERGES", "SYSTEM SYNC REPLICA", "SYSTEM RESTART REPLICA", "SYSTEM REPLICATION QUEUES",
}

// Privileges lists the privilege phrases.
func Privileges() []string { return privileges }

func (b *B) grant() {
	b.node("GrantPrivilegeStmt", func() {
		b.kw("GRANT")
		b.onCluster()
		n := b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("Privileges", func() {
				b.node("PrivilegeClause", func() {
					switch b.C.Weighted(3, 1, 6) {
					case 0:
						b.val("Keywords", b.pickKw("SELECT", "INSERT"))
						if b.C.Bool() {
							b.field("Params", func() {
								b.op("(")
								b.list(1, 3, func(int) { b.name("column", PosPlain) })
								b.op(")")
							})
						}
					case 1:
						b.verb("dictGet")
						b.val("Keywords", "dictGet")
					case 2:
						b.val("Keywords", b.pickKw(privileges...))
					}
				})
			})
		}
		b.kw("ON")
		b.field("On", func() {
			switch b.C.Intn(4) {
			case 0:
				b.op("*")
				b.op(".")
				b.op("*")
			case 1:
				b.name("database", PosIdent)
				b.op(".")
				b.op("*")
			case 2:
				b.name("database", PosIdent)
				b.op(".")
				b.name("table", PosAny)
			case 3:
				b.name("table", PosIdent)
			}
		})
		b.kw("TO")
		n = b.count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.op(",")
			}
			b.elem("To", func() { b.name("role", PosPlain) })
		}
		opts := ""
		for _, k := range []string{"GRANT", "REPLACE", "ADMIN"} {
			if b.C.P(1, 5) {
				opts += " " + k
				b.val("WithOptions", opts[1:])
				b.kw("WITH " + k + " OPTION")
				b.feat("grant option")
			}
		}
	})
}
