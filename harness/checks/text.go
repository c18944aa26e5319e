package checks

import (
	"fmt"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/astx"
	"verif/harness/lex"
)

// Text holds one text against every oracle that needs nothing but a text, for
// the coverage-guided search: the property it breaks and how, or "".
func Text(s string) (id, msg string) {
	st, err := parse(s)
	if err != nil {
		if len(st) > 0 {
			return "C10", fmt.Sprintf("%d statements besides the error", len(st))
		}
		return "C10", wrongError(s, err)
	}
	ts, ok := lex.Tokens(s)
	if !ok {
		return "C14", "accepted, but it holds what is no token"
	}
	if recorded(s) {
		return "", ""
	}
	if !formatDropped(s, st) {
		if msg := keeps(s, st); msg != "" {
			return "C04", msg
		}
		if msg := dropped(s, st); msg != "" {
			return "C10", msg
		}
	}
	for _, n := range st {
		if movedName(s, n) {
			continue
		}
		if msg := roundTrip(n); msg != "" {
			return "C02", msg
		}
		if msg := beautified(n, "  ", 1); msg != "" {
			return "C03", msg
		}
	}
	for _, n := range st {
		items := astx.Nodes(n)
		if msg := walkAll(n, items); msg != "" {
			return "C11", msg
		}
		if _, msg := visitAll(n, items); msg != "" {
			return "C12", msg
		}
		if msg := ownNodes(n); msg != "" {
			return "C17", msg
		}
	}
	if len(st) == 1 && len(ts) > 0 && !strings.Contains(s, ";") && !formatDropped(s, st) {
		if msg := wrongPosition(s, st[0], ts, 0, false); msg != "" {
			return "C09", msg
		}
	}
	// other spacing, other case
	pc, _ := pieces(s)
	wide := strings.Join(pc, " /* x */\n")
	st2, err := parse(wide)
	if err != nil {
		return "C06", fmt.Sprintf("rejected with more white space: %s", oneLine(err))
	}
	if len(st2) != len(st) {
		return "C06", "another number of statements with more white space"
	}
	for i := range st {
		if p.Format(st[i]) != p.Format(st2[i]) {
			return "C06", fmt.Sprintf("%q, with more white space %q", p.Format(st[i]), p.Format(st2[i]))
		}
	}
	return "", ""
}

// Dictionary lists the words of the parser and those in texts.
func Dictionary(texts []string) []string {
	set := map[string]bool{}
	for _, s := range texts {
		pc, _ := pieces(s)
		for _, t := range pc {
			if len(t) < 40 {
				set[t] = true
			}
		}
	}
	var out []string
	for t := range set {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

// Pieces are the tokens of a text.
func Pieces(s string) []string { out, _ := pieces(s); return out }
