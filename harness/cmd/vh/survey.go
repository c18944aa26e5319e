package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verif/harness/checks"
	"verif/harness/pbt"
)

var reVar = regexp.MustCompile("\"(\\\\.|[^\"\\\\])*\"|`[^`]*`|[0-9]+|'[^']*'")

// survey runs many cases and groups the failures, for development.
func survey(ch *checks.Check, cfg config, max int) {
	if ch.Prepare != nil {
		if err := ch.Prepare(); err != nil {
			fmt.Println(err)
			return
		}
	}
	type group struct {
		n    int
		best pbt.Result
	}
	groups := map[string]*group{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	key := func(r pbt.Result) string {
		m := r.Msg
		if i := strings.IndexByte(m, '\n'); i > 0 {
			m = m[:i]
		}
		if i := strings.Index(m, "(after"); i > 0 {
			m = m[:i]
		}
		k := reVar.ReplaceAllString(m, "_")
		for _, key := range []string{"rejected", "missing", "expected", "extra"} {
			if strings.Contains(m, key) {
				k = regexp.MustCompile(`[0-9]+`).ReplaceAllString(m, "")
				k = regexp.MustCompile("[`'\"][^`'\"]*[0-9]*[`'\"]\"").ReplaceAllString(k, "_")
				break
			}
		}
		if r.Stack != "" {
			l := strings.Split(r.Stack, "\n")
			for i, s := range l {
				if strings.Contains(s, "clickhouse-sql-parser/parser") && !strings.HasPrefix(s, "\t") {
					k += " " + strings.TrimSpace(strings.Split(l[i+1], " +")[0])
					break
				}
			}
		}
		return k
	}
	next := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= cfg.cases {
					return
				}
				r := pbt.RunCase(ch.Run, cfg.seed, ch.ID, i, nil, false, nil, cfg.tier)
				if r.Failed {
					k := key(r)
					mu.Lock()
					gr := groups[k]
					if gr == nil {
						gr = &group{best: r}
						groups[k] = gr
					}
					gr.n++
					if len(r.Choices) < len(gr.best.Choices) {
						gr.best = r
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	var keys []string
	total := 0
	for k, g := range groups {
		keys = append(keys, k)
		total += g.n
	}
	sort.Slice(keys, func(i, j int) bool { return groups[keys[i]].n > groups[keys[j]].n })
	fmt.Printf("%d failures of %d, %d groups\n", total, cfg.cases, len(keys))
	for i, k := range keys {
		if i >= max {
			break
		}
		g := groups[k]
		best := pbt.Shrink(func(w []uint32) pbt.Result {
			r := pbt.RunCase(ch.Run, cfg.seed, ch.ID, g.best.Case.Index, w, true, nil, cfg.tier)
			if r.Failed && key(r) != k {
				return pbt.Result{}
			}
			return r
		}, g.best, 3000)
		fmt.Printf("---- %d x %s (case %d)\n", g.n, k, g.best.Case.Index)
		for _, in := range best.Case.Inputs {
			if len(in) > 700 {
				in = in[:700]
			}
			fmt.Printf("   %q\n", in)
		}
		fmt.Println("   ", strings.ReplaceAll(best.Msg, "\n", "\n    "))
	}
}
