// Package fuzz is the coverage-guided search over token sequences: an input is
// a list of indices into a dictionary, two bytes each, so that the byte
// mutations of go test -fuzz lose, move, double and exchange tokens.
package fuzz

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"testing"

	"verif/harness/checks"
	"verif/harness/corpus"
	"verif/harness/gen"
	"verif/harness/pbt"
)

func FuzzTokens(f *testing.F) {
	var texts []string
	for _, e := range corpus.Small {
		texts = append(texts, e.SQL)
	}
	for i := 0; i < 3000; i++ {
		pbt.RunCase(func(c *pbt.Case) {
			o := gen.Options{}
			o.MaxDepth = 2
			b := gen.New(c, o)
			b.Statement()
			texts = append(texts, gen.Canonical(b.In).S)
		}, 7, "fuzz", i, nil, false, nil, "quick")
	}
	dict := checks.Dictionary(texts)
	rand.New(rand.NewSource(1)).Shuffle(len(dict), func(i, j int) { dict[i], dict[j] = dict[j], dict[i] })
	at := map[string]int{}
	for i, w := range dict {
		at[w] = i
	}
	seen := map[string]bool{}
	for _, s := range texts {
		var data []byte
		for _, w := range checks.Pieces(s) {
			if i, ok := at[w]; ok {
				data = append(data, byte(i>>8), byte(i))
			}
		}
		if len(data) <= 120 && !seen[string(data)] {
			seen[string(data)] = true
			f.Add(data)
		}
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		if len(data) > 200 {
			return
		}
		var sb strings.Builder
		for i := 0; i+1 < len(data); i += 2 {
			w := dict[(int(data[i])<<8|int(data[i+1]))%len(dict)]
			sb.WriteString(w)
			sb.WriteByte(' ')
		}
		s := sb.String()
		if id, msg := checks.Text(s); msg != "" {
			if log := os.Getenv("VERIF_FUZZ_LOG"); log != "" { // note it and go on
				if w, err := os.OpenFile(log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
					fmt.Fprintf(w, "%s %q: %s\n", id, s, msg)
					w.Close()
					return
				}
			}
			t.Fatalf("%s %q: %s", id, s, msg)
		}
	})
}
