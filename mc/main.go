package mc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Root is /verif, found from the VERIF_ROOT variable set by the check script.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}

	return "/verif"
}

// Main runs a binary that decides some properties.
func Main(props []Property) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: run ID | worker ... | replay FILE")
		os.Exit(2)
	}

	switch os.Args[1] {
	case "worker":
		workerMain(props, os.Args[2:])
	case "run":
		os.Exit(runMain(props, os.Args[2]))
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	default:
		os.Exit(2)
	}
}

// EnvTier is the tier asked for by the environment.
func EnvTier() Tier {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return Thorough
	}

	return Quick
}

// Seed is recorded only: nothing is random.
func Seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	return n
}

// Workers to start.
func Workers() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		return n
	}

	return 8
}

// Budget is how long a run may explore before it stops with exhaustive:false.
func Budget(t Tier) time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && n > 0 {
		return time.Duration(n) * time.Second
	}
	if t == Thorough {
		return 3 * time.Hour
	}

	return 600 * time.Second
}

type child struct {
	code   int
	sig    string
	stderr string
}

func spawn(dir string, args ...string) (*exec.Cmd, *bytes.Buffer) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}

	cmd := exec.Command(exe, append([]string{"worker"}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GOGC=200")
	var errb bytes.Buffer
	cmd.Stderr = &limitWriter{buf: &errb}
	cmd.Stdout = nil

	return cmd, &errb
}

type limitWriter struct{ buf *bytes.Buffer }

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.buf.Len() < 1<<16 {
		l.buf.Write(p)
	}

	return len(p), nil
}

func wait(cmd *exec.Cmd, errb *bytes.Buffer) child {
	err := cmd.Wait()
	c := child{stderr: errb.String()}
	if err != nil {
		c.code = cmd.ProcessState.ExitCode()
		c.sig = cmd.ProcessState.String()
	}

	return c
}

func loadKnown(id string) map[string]string {
	out := map[string]string{}
	raw, err := os.ReadFile(filepath.Join(Root(), "known_findings.txt"))
	if err != nil {
		return out
	}

	// known: property=<id> key=<quoted key> -- <what fails>
	for _, line := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(line, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+id+" key=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(q)
		out[key] = strings.TrimPrefix(strings.TrimSpace(rest[len(q):]), "-- ")
	}

	return out
}

func runMain(props []Property, id string) int {
	start := time.Now()
	tier := EnvTier()

	var prop *Property
	for i := range props {
		if props[i].ID == id {
			prop = &props[i]
		}
	}
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)

		return 2
	}

	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}
	defer func() { _ = os.RemoveAll(tmp) }()

	known := loadKnown(id)
	kb := map[string]bool{}
	for k := range known {
		kb[k] = true
	}
	raw, _ := json.Marshal(kb)
	knownFile := filepath.Join(tmp, "known.json")
	_ = os.WriteFile(knownFile, raw, 0o600)

	n := Workers()
	deadline := start.Add(Budget(tier))
	common := []string{
		"-prop=" + id, "-tier=" + tier.String(), "-known=" + knownFile, "-shards=" + strconv.Itoa(n),
		"-deadline=" + strconv.FormatInt(deadline.Unix(), 10),
	}

	var (
		mu        sync.Mutex
		wg        sync.WaitGroup
		cmds      []*exec.Cmd
		results   = make([]*workerResult, n)
		children  = make([]child, n)
		killed    = make([]bool, n)
		firstBad  time.Time
		doneCount int
	)

	for i := 0; i < n; i++ {
		args := append(append([]string{}, common...), "-shard="+strconv.Itoa(i),
			"-out="+filepath.Join(tmp, fmt.Sprintf("out%d", i)), "-prog="+filepath.Join(tmp, fmt.Sprintf("prog%d", i)))
		cmd, errb := spawn(tmp, args...)
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)

			return 2
		}
		cmds = append(cmds, cmd)
		wg.Add(1)

		go func(i int) {
			defer wg.Done()
			c := wait(cmd, errb)
			mu.Lock()
			defer mu.Unlock()
			doneCount++
			children[i] = c
			if raw, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("out%d", i))); err == nil {
				r := new(workerResult)
				if json.Unmarshal(raw, r) == nil {
					results[i] = r
				}
			}
			if (results[i] == nil || len(results[i].Violations) > 0) && firstBad.IsZero() {
				firstBad = time.Now()
			}
		}(i)
	}

	// once a worker has found something, give the others a moment to find something simpler
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Millisecond):
			}
			mu.Lock()
			if !firstBad.IsZero() && time.Since(firstBad) > 3*time.Second {
				for i, c := range cmds {
					if results[i] == nil && children[i].sig == "" && !killed[i] {
						killed[i] = true
						_ = c.Process.Kill()
					}
				}
			}
			mu.Unlock()
		}
	}()
	wg.Wait()
	close(stop)

	var (
		viols []Violation
		knw   []Violation
		notes []string
		infra bool
	)
	for i, r := range results {
		if r != nil {
			viols = append(viols, r.Violations...)
			knw = append(knw, r.Known...)

			continue
		}
		if killed[i] {
			continue
		}

		v, note := diagnose(prop, tier, tmp, i, n, children[i], common)
		if v != nil {
			viols = append(viols, *v)
		}
		if note != "" {
			notes = append(notes, note)
			infra = true
		}
	}

	spaces := prop.Spaces(tier)
	order := map[string]int{}
	for i, s := range spaces {
		order[s.Name] = i
	}
	sort.SliceStable(viols, func(a, b int) bool {
		x, y := viols[a], viols[b]
		if x.Space != y.Space {
			return order[x.Space] < order[y.Space]
		}

		return x.Unit < y.Unit
	})

	replayPath := ""
	if len(viols) > 0 {
		v := &viols[0]
		if v.Reproduced == "" {
			confirm(v, tmp, common)
		}
		replayPath = writeReplay(v)
	}

	writeEvidence(prop, tier, spaces, results, viols, knw, notes, start, infra)

	seen := map[string]bool{}
	for _, v := range knw {
		if !seen[v.Key] {
			seen[v.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[v.Key])
		}
	}
	if len(viols) > 0 {
		v := viols[0]
		fmt.Printf("%s [%s] %s\n  input: %s\n  %s\n  reproduced: %s\n", id, v.Space, v.Kind, v.Input, v.What, v.Reproduced)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)

		return 1
	}

	var cases int64
	for _, r := range results {
		if r != nil {
			for _, s := range r.Spaces {
				cases += s.Cases
			}
		}
	}
	if infra {
		fmt.Fprintf(os.Stderr, "%s: not everything could be explored: %s\n", id, notes[0])

		return 2
	}
	fmt.Printf("OK property=%s tier=%s cases=%d wall=%.1fs\n", id, tier, cases, time.Since(start).Seconds())

	return 0
}

// diagnose finds out what a worker that ended without a result was doing.
func diagnose(prop *Property, tier Tier, tmp string, shard, shards int, c child, common []string) (*Violation, string) {
	kind := "crash"
	switch c.code {
	case exitHang:
		kind = "hang"
	case exitMemory:
		kind = "memory"
	}

	raw, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("prog%d", shard)))
	f := strings.Fields(string(raw))
	if len(f) < 2 {
		return nil, fmt.Sprintf("worker %d ended (%s) before its first unit: %s", shard, c.sig, clip(c.stderr, 500))
	}
	unit, _ := strconv.Atoi(f[len(f)-1])
	v := &Violation{
		Property: prop.ID, Tier: tier.String(), Space: f[0], Unit: unit, Shard: shard, Shards: shards, Kind: kind,
		What: fmt.Sprintf("worker ended with %s\n%s", c.sig, clip(c.stderr, 2500)),
	}

	confirm(v, tmp, common)
	if strings.HasPrefix(v.Reproduced, "0/") {
		return nil, fmt.Sprintf("worker %d ended (%s) in %s unit %d, not reproducible: %s", shard, c.sig, v.Space, unit, clip(c.stderr, 500))
	}

	return v, ""
}

// confirm reruns the unit of a violation in fresh processes, then, if it does not show, everything the
// worker had run before it.
func confirm(v *Violation, tmp string, common []string) {
	run := func(k int, wholeShard bool) bool {
		out := filepath.Join(tmp, fmt.Sprintf("confirm%d", k))
		trace := filepath.Join(tmp, fmt.Sprintf("trace%d", k))
		args := []string{
			"-prop=" + v.Property, "-tier=" + v.Tier, "-space=" + v.Space, "-out=" + out, "-hang=40",
			"-shards=" + strconv.Itoa(v.Shards), "-shard=" + strconv.Itoa(v.Shard),
		}
		for _, a := range common {
			if strings.HasPrefix(a, "-known=") {
				args = append(args, a)
			}
		}
		if wholeShard {
			args = append(args, "-upto="+strconv.Itoa(v.Unit))
		} else {
			args = append(args, "-unit="+strconv.Itoa(v.Unit), "-trace="+trace)
		}
		_ = os.Remove(out)
		cmd, errb := spawn(tmp, args...)
		if cmd.Start() != nil {
			return false
		}
		c := wait(cmd, errb)

		raw, err := os.ReadFile(out)
		if err != nil {
			if !wholeShard {
				if t, err := os.ReadFile(trace); err == nil && v.Input == "" {
					parts := strings.SplitN(strings.TrimSpace(string(t)), "\t", 2)
					if len(parts) == 2 {
						v.Case, _ = strconv.ParseInt(parts[0], 10, 64)
						if s, err := strconv.Unquote(parts[1]); err == nil {
							v.Input = s
						}
					}
				}
			}

			return c.code != 0
		}
		var r workerResult
		if json.Unmarshal(raw, &r) != nil {
			return false
		}
		if len(r.Violations) > 0 {
			if v.Input == "" {
				v.Input, v.What, v.Case = r.Violations[0].Input, r.Violations[0].What, r.Violations[0].Case
			}

			return true
		}

		return false
	}

	times := 5
	if v.Kind == "hang" {
		times = 1
	}
	hits := 0
	for k := 0; k < times; k++ {
		if run(k, false) {
			hits++
		}
	}
	v.Reproduced = fmt.Sprintf("%d/%d alone", hits, times)
	if hits == 0 {
		whole := 2
		if v.Kind == "hang" {
			whole = 1
		}
		for k := 0; k < whole; k++ {
			if run(k, true) {
				hits++
			}
		}
		v.Reproduced = fmt.Sprintf("%d/%d with the history before it", hits, whole)
	}
}

func writeReplay(v *Violation) string {
	dir := filepath.Join(Root(), "evidence", "replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, v.Property+".json")
	v.ReplayCmd = "./check " + v.Property + " --replay evidence/replays/" + v.Property + ".json"
	raw, _ := json.MarshalIndent(v, "", " ")
	_ = os.WriteFile(p, append(raw, '\n'), 0o644)

	return p
}

func replayMain(file string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}
	var v Violation
	if err := json.Unmarshal(raw, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}
	tmp, err := os.MkdirTemp("", "mc-replay-")
	if err != nil {
		return 2
	}
	defer func() { _ = os.RemoveAll(tmp) }()
	v.Reproduced, v.What = "", ""
	confirm(&v, tmp, nil)
	fmt.Printf("input: %s\nreproduced: %s\n", v.Input, v.Reproduced)
	if strings.HasPrefix(v.Reproduced, "0/") {
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)

	return 1
}

func writeEvidence(prop *Property, tier Tier, spaces []Space, results []*workerResult, viols, knw []Violation, notes []string, start time.Time, infra bool) {
	stats := make([]SpaceStats, len(spaces))
	sets := make([]map[uint64]struct{}, len(spaces))
	idx := map[string]int{}
	for i, s := range spaces {
		stats[i] = SpaceStats{Name: s.Name, Bound: s.Bound, Complete: true}
		sets[i] = map[uint64]struct{}{}
		idx[s.Name] = i
	}
	seen := make([]int, len(spaces))
	expired := false
	for _, r := range results {
		if r == nil {
			continue
		}
		expired = expired || r.Expired
		for k, s := range r.Spaces {
			i := idx[s.Name]
			seen[i]++
			st := &stats[i]
			st.Units = s.Units
			st.UnitsDone += s.UnitsDone
			st.WorkerS += s.WorkerS
			if s.Partial != "" {
				st.Partial = s.Partial
			}
			st.Cases += s.Cases
			st.States += s.States
			st.Steps += s.Steps
			st.NonTrivial += s.NonTrivial
			if len(st.Samples) < 2 {
				for _, smp := range s.Samples {
					if len(st.Samples) < 2 {
						st.Samples = append(st.Samples, smp)
					}
				}
			}
			for _, h := range r.Outcomes[k] {
				sets[i][h] = struct{}{}
			}
		}
	}

	var cases, states, steps, nt int64
	var samples []string
	exhaustive := len(viols) == 0 && !infra && !expired
	for i := range stats {
		stats[i].Complete = seen[i] == len(results) && stats[i].Units == stats[i].UnitsDone && stats[i].Partial == ""
		exhaustive = exhaustive && stats[i].Complete
		stats[i].Outcomes = len(sets[i])
		cases += stats[i].Cases
		states += stats[i].States
		steps += stats[i].Steps
		nt += stats[i].NonTrivial
		for _, s := range stats[i].Samples {
			samples = append(samples, stats[i].Name+": "+s)
		}
		stats[i].Samples = nil
	}
	if len(samples) == 0 {
		samples = append(samples, "(the run ended before a non-trivial case)")
	}

	ev := map[string]interface{}{
		"property": prop.ID, "tier": tier.String(), "seed": Seed(), "level": prop.Level,
		"wall_s": time.Since(start).Seconds(), "violations": len(viols),
		"assumptions": prop.Assumptions,
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "traces_validated_against_impl": cases,
			"distinct_nontrivial": nt,
			"rule":                prop.Rule, "samples": samples, "exhaustive": exhaustive, "spaces": stats,
			"known_findings_met": len(knw), "notes": notes,
			"explanation": "Every case of every listed space is executed on the real code of /repo and compared with the reference; states = distinct inputs or operation histories reached, transitions = implementation calls compared with the reference, traces = complete executions.",
		},
	}
	if prop.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	raw, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(Root(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, prop.ID+".json"), append(raw, '\n'), 0o644)
}
