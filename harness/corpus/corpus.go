// Package corpus holds the SQL files of the project's test suite, as seeds.
package corpus

import (
	_ "embed"
	"encoding/json"
	"strings"
)

//go:embed corpus.jsonl
var raw string

// Entry is one file.
type Entry struct {
	Name string `json:"name"`
	SQL  string `json:"sql"`
}

// All lists the files.
var All = load()

// Small lists the files of up to 2000 bytes.
var Small = small()

func load() []Entry {
	var out []Entry
	for _, l := range strings.Split(strings.TrimSpace(raw), "\n") {
		var e Entry
		if err := json.Unmarshal([]byte(l), &e); err != nil {
			panic(err)
		}
		out = append(out, e)
	}
	return out
}

func small() []Entry {
	var out []Entry
	for _, e := range load() {
		if len(e.SQL) <= 2000 {
			out = append(out, e)
		}
	}
	return out
}
