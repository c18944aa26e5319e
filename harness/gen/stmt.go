package gen

// stmtKind is one kind of statement with its weight.
type stmtKind struct {
	name string
	w    int
	f    func(b *B)
}

var stmtKinds []stmtKind

func init() {
	stmtKinds = []stmtKind{
		{"select", 30, func(b *B) { b.selectQuery(true) }},
		{"create table", 14, (*B).createTable},
		{"create materialized view", 6, (*B).createMaterializedView},
		{"create view", 4, (*B).createView},
		{"create live view", 2, (*B).createLiveView},
		{"create dictionary", 5, (*B).createDictionary},
		{"create database", 2, (*B).createDatabase},
		{"create function", 2, (*B).createFunction},
		{"create named collection", 2, (*B).namedCollection},
		{"create role", 3, (*B).createRole},
		{"create user", 4, (*B).createUser},
		{"alter table", 14, (*B).alterTable},
		{"alter role", 2, (*B).alterRole},
		{"drop", 2, (*B).drop},
		{"drop database", 2, (*B).dropDatabase},
		{"drop user or role", 3, (*B).dropUserOrRole},
		{"truncate", 2, (*B).truncate},
		{"rename", 2, (*B).rename},
		{"delete", 2, (*B).deleteFrom},
		{"insert", 6, (*B).insert},
		{"use", 1, (*B).use},
		{"set", 2, (*B).setStmt},
		{"system", 4, (*B).system},
		{"optimize", 3, (*B).optimize},
		{"check", 2, (*B).check},
		{"explain", 2, (*B).explain},
		{"grant", 4, (*B).grant},
		{"show", 2, (*B).show},
		{"describe", 2, (*B).describe},
	}
}

// Statement writes one statement of any kind and returns the kind's name.
func (b *B) Statement() string {
	ws := make([]int, len(stmtKinds))
	for i, k := range stmtKinds {
		ws[i] = k.w
	}
	k := stmtKinds[b.C.Weighted(ws...)]
	k.f(b)
	b.C.Label(k.name)
	return k.name
}

// StatementOf writes one statement of the named kind.
func (b *B) StatementOf(name string) {
	for _, k := range stmtKinds {
		if k.name == name {
			k.f(b)
			return
		}
	}
	panic("no statement kind " + name)
}

// Kinds lists the statement kinds.
func Kinds() []string {
	var out []string
	for _, k := range stmtKinds {
		out = append(out, k.name)
	}
	return out
}
