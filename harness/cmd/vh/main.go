// Command vh runs the property checks.
//
//	vh check ID              search (VERIF_SEED, VERIF_TIER), evidence, exit 0/1
//	vh replay ID FILE        run one recorded case
//	vh case ID INDEX         run one generated case and print its inputs
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/checks"
	"verif/harness/pbt"
)

type config struct {
	seed     int64
	tier     string
	root     string // /verif
	cases    int
	deadline time.Duration
}

func getConfig() config {
	c := config{seed: 1, tier: "quick", root: "/verif"}
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			c.seed = n
		}
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		c.tier = "thorough"
	}
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		c.root = v
	}
	return c
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh check|replay|case|worker ID ...")
		os.Exit(2)
	}
	ch := checks.All[os.Args[2]]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(2)
	}
	cfg := getConfig()
	cfg.cases = ch.Quick
	cfg.deadline = 150 * time.Second
	if cfg.tier == "thorough" {
		cfg.cases = ch.Thorough
		cfg.deadline = 40 * time.Minute
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		cfg.cases, _ = strconv.Atoi(v)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(ch, cfg))
	case "observe": // C13: texts from standard input, in a new process
		if err := checks.Observe(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "worker":
		worker(ch, cfg, os.Args[3])
	case "single":
		idx, _ := strconv.Atoi(os.Args[3])
		single(ch, cfg, idx)
	case "trials": // runs the recorded findings from the given one on
		from, _ := strconv.Atoi(os.Args[3])
		trials(ch, cfg, from)
	case "try": // recorded findings that fail
		if ch.Try == nil {
			return
		}
		runtime.LockOSThread()
		outcome, err := runTrials(ch, cfg)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i, f := range loadFindings(cfg.root) {
			if msg := outcome[i]; f.Property == ch.ID && msg != "" {
				fmt.Printf("%s\t%s\t%s\t%.100s\n", f.Status, f.Commit, f.Input, msg)
			}
		}
	case "replay":
		os.Exit(replay(ch, cfg, os.Args[3]))
	case "survey":
		n, _ := strconv.Atoi(os.Args[3])
		survey(ch, cfg, n)
	case "case":
		idx, _ := strconv.Atoi(os.Args[3])
		r := pbt.RunCase(ch.Run, cfg.seed, ch.ID, idx, nil, false, nil, cfg.tier)
		for _, in := range r.Case.Inputs {
			fmt.Println("INPUT:", in)
		}
		fmt.Println("labels:", pbt.TopLabels(r.Case.Labels), "nontrivial:", r.Case.NonTrivial, "discarded:", r.Discarded)
		if r.Failed {
			fmt.Println("FAILED:", r.Msg)
			fmt.Println(r.Stack)
		}
	}
}

// result is what the worker reports.
type result struct {
	Evaluations int
	Discarded   int
	Distinct    int
	Labels      map[string]int
	Samples     []any
	Stopped     bool // deadline reached
	Fail        *pbt.Replay
}

func worker(ch *checks.Check, cfg config, dir string) {
	debug.SetMaxStack(1 << 30)
	if ch.Prepare != nil {
		if err := ch.Prepare(); err != nil {
			fmt.Fprintln(os.Stderr, "prepare:", err)
			os.Exit(4)
		}
	}
	n := runtime.NumCPU()
	if ch.Workers > 0 {
		n = ch.Workers
	}
	start := time.Now()
	hang := 60 * time.Second
	if os.Getenv("VERIF_RETRY") != "" {
		hang = 300 * time.Second
	}
	var next int64 = -1
	var lowest int64 = 1 << 60
	var mu sync.Mutex
	res := result{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var fails []pbt.Result
	began := make([]int64, n)
	var stopped atomic.Bool
	go func() { // watchdog
		for {
			time.Sleep(time.Second)
			now := time.Now().UnixNano()
			for i := range began {
				if b := atomic.LoadInt64(&began[i]); b != 0 && now-b > int64(hang) {
					os.WriteFile(filepath.Join(dir, "hang"), []byte(strconv.Itoa(i)), 0o644)
					os.Exit(3)
				}
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 12<<30 {
				os.WriteFile(filepath.Join(dir, "memory"), nil, 0o644)
				os.Exit(3)
			}
		}
	}()
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			slot, err := os.Create(filepath.Join(dir, "slot"+strconv.Itoa(g)))
			if err != nil {
				panic(err)
			}
			defer slot.Close()
			for {
				idx := int(atomic.AddInt64(&next, 1))
				if idx >= cfg.cases || int64(idx) > atomic.LoadInt64(&lowest) {
					return
				}
				if time.Since(start) > cfg.deadline {
					stopped.Store(true)
					return
				}
				hdr := fmt.Sprintf("%d\n", idx)
				slot.Truncate(0)
				slot.WriteAt([]byte(hdr), 0)
				note := func(s string) {
					if len(s) > 1<<16 {
						s = s[:1<<16]
					}
					slot.Truncate(int64(len(hdr)))
					slot.WriteAt([]byte(s), int64(len(hdr)))
				}
				atomic.StoreInt64(&began[g], time.Now().UnixNano())
				r := pbt.RunCase(ch.Run, cfg.seed, ch.ID, idx, nil, false, note, cfg.tier)
				atomic.StoreInt64(&began[g], 0)
				mu.Lock()
				res.Evaluations++
				if r.Discarded {
					res.Discarded++
				}
				for k, v := range r.Case.Labels {
					res.Labels[k] += v
				}
				if r.Case.NonTrivial && !r.Discarded {
					h := hash(r.Case.Inputs)
					if !seen[h] {
						seen[h] = true
						res.Distinct++
						if len(res.Samples) < 12 && (res.Distinct%97 == 1 || len(res.Samples) < 2) {
							res.Samples = append(res.Samples, sample(idx, r.Case.Inputs))
						}
					}
				}
				if r.Failed {
					fails = append(fails, r)
					if int64(idx) < atomic.LoadInt64(&lowest) {
						atomic.StoreInt64(&lowest, int64(idx))
					}
				}
				mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	for i := range began {
		atomic.StoreInt64(&began[i], 0)
	}
	res.Stopped = stopped.Load()
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].Case.Index < fails[j].Case.Index })
		f := fails[0]
		res.Fail = toReplay(ch, cfg, f)
		save(dir, &res)
		// shrink, keeping the unshrunk report in case a candidate kills us
		end := time.Now().Add(25 * time.Second)
		best := pbt.Shrink(func(w []uint32) pbt.Result {
			if time.Now().After(end) {
				return pbt.Result{}
			}
			return pbt.RunCase(ch.Run, cfg.seed, ch.ID, f.Case.Index, w, true, nil, cfg.tier)
		}, f, 4000)
		res.Fail = toReplay(ch, cfg, best)
	}
	save(dir, &res)
}

func toReplay(ch *checks.Check, cfg config, r pbt.Result) *pbt.Replay {
	return &pbt.Replay{Property: ch.ID, Seed: cfg.seed, Tier: cfg.tier, Index: r.Case.Index, Message: r.Msg, Inputs: r.Case.Inputs, Choices: r.Choices, Stack: r.Stack}
}

func save(dir string, res *result) {
	b, _ := json.Marshal(res)
	tmp := filepath.Join(dir, "result.tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(dir, "result.json"))
}

func hash(in []string) uint64 {
	var h uint64 = 14695981039346656037
	for _, s := range in {
		for i := 0; i < len(s); i++ {
			h ^= uint64(s[i])
			h *= 1099511628211
		}
		h ^= 0x1ff
		h *= 1099511628211
	}
	return h
}

func sample(idx int, in []string) any {
	var out []string
	for i, s := range in {
		if i >= 4 {
			break
		}
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		out = append(out, s)
	}
	return map[string]any{"case": idx, "inputs": out}
}

// single runs one case alone; used after the worker died.
func single(ch *checks.Check, cfg config, idx int) {
	if ch.Prepare != nil {
		if err := ch.Prepare(); err != nil {
			os.Exit(4)
		}
	}
	go func() {
		time.Sleep(120 * time.Second)
		os.Exit(3)
	}()
	r := pbt.RunCase(ch.Run, cfg.seed, ch.ID, idx, nil, false, nil, cfg.tier)
	if r.Failed {
		fmt.Println(r.Msg)
		os.Exit(5)
	}
	os.Exit(0)
}

func replay(ch *checks.Check, cfg config, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r pbt.Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if ch.Prepare != nil {
		if err := ch.Prepare(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	var res pbt.Result
	if r.Choices != nil {
		res = pbt.RunCase(ch.Run, r.Seed, ch.ID, r.Index, r.Choices, true, nil, r.Tier)
	} else {
		res = pbt.RunCase(ch.Run, r.Seed, ch.ID, r.Index, nil, false, nil, r.Tier)
	}
	for _, in := range res.Case.Inputs {
		fmt.Printf("input: %q\n", in)
	}
	if res.Failed {
		fmt.Println("fails:", res.Msg)
		if res.Stack != "" {
			fmt.Println(res.Stack)
		}
		return 1
	}
	fmt.Println("holds")
	return 0
}

// finding is one line of known_findings.json.
type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Kind     string `json:"kind,omitempty"`
	Input    string `json:"input"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return f.Findings
}

func tryInput(ch *checks.Check, kind, in string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	return ch.Try(kind, in)
}

// trials tries the recorded findings of a property, announcing each before
// and reporting it after.
func trials(ch *checks.Check, cfg config, from int) {
	debug.SetMaxStack(1 << 30)
	if ch.Prepare != nil {
		if err := ch.Prepare(); err != nil {
			os.Exit(4)
		}
	}
	for i, f := range loadFindings(cfg.root) {
		if i < from || f.Property != ch.ID {
			continue
		}
		fmt.Printf("start %d\n", i)
		msg := tryInput(ch, f.Kind, f.Input)
		fmt.Printf("done %d %q\n", i, msg)
	}
}

// runTrials runs trials in processes of their own, since a finding may crash
// or hang the code again. It returns the outcome by index.
func runTrials(ch *checks.Check, cfg config) (map[int]string, error) {
	out := map[int]string{}
	for from := 0; ; {
		cmd := exec.Command(os.Args[0], "trials", ch.ID, strconv.Itoa(from))
		cmd.Env = os.Environ()
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var stdout, stderr strings.Builder
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		timer := time.AfterFunc(90*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		hung := !timer.Stop()
		running := -1
		for _, l := range strings.Split(stdout.String(), "\n") {
			var i int
			var msg string
			if n, _ := fmt.Sscanf(l, "start %d", &i); n == 1 {
				running = i
			} else if n, _ := fmt.Sscanf(l, "done %d %q", &i, &msg); n == 2 {
				out[i] = msg
				running = -1
			}
		}
		switch {
		case err == nil:
			return out, nil
		case running < 0:
			return nil, fmt.Errorf("%v: %s", err, firstLines(stderr.String(), 6))
		case hung:
			out[running] = "does not finish"
		default:
			out[running] = "the process died: " + firstLines(stderr.String(), 3)
		}
		from = running + 1
	}
}

func check(ch *checks.Check, cfg config) int {
	runtime.LockOSThread() // Pdeathsig follows the thread
	start := time.Now()
	evDir := filepath.Join(cfg.root, "evidence")
	rpDir := filepath.Join(cfg.root, "replays")
	os.MkdirAll(evDir, 0o755)
	os.MkdirAll(rpDir, 0o755)
	dir, err := os.MkdirTemp("", "vh-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	violations := 0
	violate := func(r *pbt.Replay) {
		violations++
		path := filepath.Join(rpDir, fmt.Sprintf("%s-%d-%d.json", ch.ID, cfg.seed, r.Index))
		if err := pbt.WriteReplay(path, *r); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Println(r.Message)
		for i, in := range r.Inputs {
			if i < 4 {
				if len(in) > 2000 {
					in = in[:2000] + "..."
				}
				fmt.Printf("input: %q\n", in)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, path)
	}

	// recorded findings: known ones are announced, repaired ones must stay so
	regressions := 0
	if ch.Try != nil {
		outcome, err := runTrials(ch, cfg)
		if err != nil {
			fmt.Fprintln(os.Stderr, "recorded findings:", err)
			return 2
		}
		for i, f := range loadFindings(cfg.root) {
			if f.Property != ch.ID {
				continue
			}
			msg := outcome[i]
			regressions++
			switch {
			case f.Status == "known" && msg != "":
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, f.What)
			case f.Status == "fixed" && msg != "" && violations == 0:
				violate(&pbt.Replay{Property: ch.ID, Seed: cfg.seed, Tier: cfg.tier, Index: -1 - i, Message: "a repaired defect is back: " + f.What + ": " + msg, Inputs: []string{f.Input}})
			}
		}
	}

	var res result
	code := 0
	if violations == 0 {
		retry := false
	again:
		cmd := exec.Command(os.Args[0], "worker", ch.ID, dir)
		cmd.Env = os.Environ()
		if retry {
			cmd.Env = append(cmd.Env, "VERIF_RETRY=1")
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.CombinedOutput()
		b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
		if rerr == nil {
			rerr = json.Unmarshal(b, &res)
		}
		switch {
		case rerr == nil && (err == nil || res.Fail != nil):
			if res.Fail != nil {
				violate(res.Fail)
			}
		default:
			// the worker died: find the case that kills it
			tail := string(out)
			if len(tail) > 3000 {
				tail = tail[:1500] + "\n...\n" + tail[len(tail)-1500:]
			}
			r := culprit(ch, cfg, dir)
			if r != nil {
				r.Message += "\n" + firstLines(tail, 12)
				violate(r)
			} else if strings.Contains(tail, "WARNING: DATA RACE") {
				// a race need not show again; its report names both accesses
				violate(&pbt.Replay{Property: ch.ID, Seed: cfg.seed, Tier: cfg.tier, Index: 0, Message: "data race\n" + firstLines(tail, 60)})
			} else if !retry {
				retry = true // perhaps the machine was busy
				res = result{}
				os.Remove(filepath.Join(dir, "result.json"))
				goto again
			} else {
				fmt.Fprintf(os.Stderr, "worker failed (%v) and no case reproduces it\n%s\n", err, tail)
				code = 2
			}
		}
	}
	if len(res.Samples) == 0 {
		res.Samples = []any{"none"}
	}
	ev := map[string]any{
		"property": ch.ID, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": res.Evaluations, "distinct_nontrivial": res.Distinct, "rule": ch.Rule,
			"samples": res.Samples, "discarded": res.Discarded, "labels": pbt.TopLabels(res.Labels),
			"recorded_findings_replayed": regressions, "stopped_at_deadline": res.Stopped,
		},
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, ch.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		code = 2
	}
	if violations > 0 {
		return 1
	}
	if code == 0 {
		fmt.Printf("%s: held on %d cases (%d distinct non-trivial), %.1fs\n", ch.ID, res.Evaluations, res.Distinct, time.Since(start).Seconds())
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// culprit re-runs the cases that were in flight when the worker died.
func culprit(ch *checks.Check, cfg config, dir string) *pbt.Replay {
	files, _ := filepath.Glob(filepath.Join(dir, "slot*"))
	type inflight struct {
		idx int
		in  string
	}
	var list []inflight
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		i := strings.IndexByte(string(b), '\n')
		if i < 0 {
			continue
		}
		idx, err := strconv.Atoi(string(b[:i]))
		if err != nil {
			continue
		}
		list = append(list, inflight{idx, string(b[i+1:])})
	}
	sort.Slice(list, func(i, j int) bool { return list[i].idx < list[j].idx })
	for _, f := range list {
		cmd := exec.Command(os.Args[0], "single", ch.ID, strconv.Itoa(f.idx))
		cmd.Env = os.Environ()
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.CombinedOutput()
		if err != nil {
			ee, ok := err.(*exec.ExitError)
			msg := "the process died"
			if ok && ee.ExitCode() == 3 {
				msg = "the case does not finish"
			}
			if ok && ee.ExitCode() == 5 {
				msg = "fails"
			}
			return &pbt.Replay{Property: ch.ID, Seed: cfg.seed, Tier: cfg.tier, Index: f.idx, Message: msg + ": " + firstLines(string(out), 6), Inputs: []string{f.in}}
		}
	}
	return nil
}
