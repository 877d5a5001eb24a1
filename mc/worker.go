// Package mc is a small bounded-exhaustive explorer.
//
// A property is a list of spaces; a space enumerates, deterministically, a finite set of cases grouped in
// units. Units are dealt to worker processes, so a crash, a hang or a runaway allocation of the code under
// test ends one worker and is attributed to one case. Nothing in here is random: the same unit number and
// case number always designate the same case.
package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Tier of a run.
type Tier int

const (
	// Quick is the run done on every change.
	Quick Tier = iota
	// Thorough goes as deep as is practical.
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}

	return "quick"
}

// Pick returns q for quick and t for thorough.
func (t Tier) Pick(q, th int) int {
	if t == Thorough {
		return th
	}

	return q
}

// Space is a finite set of cases.
type Space struct {
	Name  string
	Bound string // what is enumerated, and the bound
	Run   func(*W)
}

// Property is decided by exploring its spaces.
type Property struct {
	ID          string
	Level       string
	Rule        string // what makes a case non-trivial
	Assumptions []string
	Spaces      func(Tier) []Space
}

// Violation of a property by one case.
type Violation struct {
	Property   string `json:"property"`
	Tier       string `json:"tier"`
	Space      string `json:"space"`
	Unit       int    `json:"unit"`
	Case       int64  `json:"case"`
	Shard      int    `json:"shard"`
	Shards     int    `json:"shards"`
	Key        string `json:"key"`
	Input      string `json:"input"`
	What       string `json:"what"`
	Kind       string `json:"kind"` // mismatch, panic, crash, hang, memory
	Reproduced string `json:"reproduced,omitempty"`
	ReplayCmd  string `json:"replay_cmd,omitempty"`
}

// SpaceStats are the measured counts of one space.
type SpaceStats struct {
	Name       string   `json:"name"`
	Bound      string   `json:"bound"`
	Units      int      `json:"units"`
	UnitsDone  int      `json:"units_done"`
	Cases      int64    `json:"cases"`
	States     int64    `json:"states"`
	Steps      int64    `json:"transitions"`
	NonTrivial int64    `json:"nontrivial"`
	Outcomes   int      `json:"distinct_outcomes"`
	OutcomeSet []uint64 `json:"-"`
	Samples    []string `json:"samples,omitempty"`
	Complete   bool     `json:"complete"`
	Partial    string   `json:"partial,omitempty"` // why part of it is out of reach
	WorkerS    float64  `json:"worker_s"`          // time spent, all workers together
}

type workerResult struct {
	Spaces     []SpaceStats
	Outcomes   [][]uint64
	Violations []Violation
	Known      []Violation
	Expired    bool
}

const maxOutcomes = 1 << 14

// W is the state of one worker process.
type W struct {
	Tier Tier

	prop     *Property
	shard    int
	shards   int
	onlyUnit int // -1: all
	onlySpc  string
	upTo     int // stop after this unit of onlySpc, -1: no
	deadline time.Time

	space    int
	unit     int
	caseNo   int64
	progress atomic.Int64
	describe func() string
	trace    *os.File
	prog     *os.File

	cur      *SpaceStats
	outcomes map[uint64]struct{}
	res      workerResult
	known    map[string]bool
	expired  bool
	sampleAt int64
}

type stopT struct{}

// Describe sets the function that writes out the current case.
func (w *W) Describe(f func() string) { w.describe = f }

// Tick starts a new case.
func (w *W) Tick() {
	w.caseNo++
	w.cur.Cases++
	w.progress.Add(1)

	if w.trace != nil {
		line := fmt.Sprintf("%d\t%s\n", w.caseNo, strconv.Quote(w.desc()))
		_ = w.trace.Truncate(0)
		_, _ = w.trace.WriteAt([]byte(line), 0)
	}

	if w.caseNo&0xFFF == 0 && w.isExpired() {
		panic(stopT{})
	}
}

// Slow is for cases that take long: it ends the unit when time is up.
func (w *W) Slow() {
	if w.isExpired() {
		panic(stopT{})
	}
}

// Partial tells that part of the space cannot be explored.
func (w *W) Partial(why string) { w.cur.Partial = why }

// State counts a node of the exploration, Step an implementation call compared with the reference.
func (w *W) State() { w.cur.States++ }

// Step counts implementation calls compared with the reference.
func (w *W) Step(n int) { w.cur.Steps += int64(n) }

// NonTrivial counts the current case as non-trivial, and keeps a few of them as samples.
func (w *W) NonTrivial() {
	w.cur.NonTrivial++
	if len(w.cur.Samples) < 2 && w.cur.NonTrivial >= w.sampleAt {
		w.sampleAt = w.sampleAt*50 + 7
		w.cur.Samples = append(w.cur.Samples, clip(w.desc(), 300))
	}
}

// Outcome records a hash of what was observed, to count distinct outcomes.
func (w *W) Outcome(h uint64) {
	if len(w.outcomes) < maxOutcomes {
		w.outcomes[h] = struct{}{}
	}
}

func (w *W) desc() string {
	if w.describe == nil {
		return ""
	}

	return w.describe()
}

// Failf reports that the current case violates the property.
func (w *W) Failf(format string, args ...interface{}) {
	w.fail("mismatch", fmt.Sprintf(format, args...), "")
}

// FailKey is Failf with an explicit identity for the known-findings file.
func (w *W) FailKey(key, format string, args ...interface{}) {
	w.fail("mismatch", fmt.Sprintf(format, args...), key)
}

func (w *W) fail(kind, what, key string) {
	v := Violation{
		Property: w.prop.ID, Tier: w.Tier.String(), Space: w.cur.Name, Unit: w.unit, Case: w.caseNo,
		Shard: w.shard, Shards: w.shards, Input: clip(w.desc(), 4000), What: clip(what, 4000), Kind: kind, Key: key,
	}
	if v.Key == "" {
		v.Key = v.Space + "|" + v.Input
	}

	if w.known[v.Key] {
		w.res.Known = append(w.res.Known, v)

		return
	}

	w.res.Violations = append(w.res.Violations, v)
	panic(stopT{})
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}

	return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
}

func (w *W) isExpired() bool {
	if !w.expired && !w.deadline.IsZero() && time.Now().After(w.deadline) {
		w.expired = true
	}

	return w.expired
}

// Unit runs one unit of cases if it belongs to this worker.
func (w *W) Unit(body func()) {
	n := w.unit + 1
	w.unit = n
	w.cur.Units++

	if w.onlyUnit >= 0 && n != w.onlyUnit {
		return
	}

	if w.onlyUnit < 0 && n%w.shards != w.shard {
		return
	}

	if w.upTo >= 0 && n > w.upTo {
		return
	}

	if w.isExpired() || len(w.res.Violations) > 0 {
		return
	}

	w.caseNo = 0
	w.describe = nil
	w.progress.Add(1)

	if w.prog != nil {
		_, _ = w.prog.WriteAt([]byte(fmt.Sprintf("%-40s %12d\n", w.cur.Name, n)), 0)
	}

	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopT); ok {
				return
			}

			func() {
				defer func() {
					if r2 := recover(); r2 != nil {
						if _, ok := r2.(stopT); !ok {
							panic(r2)
						}
					}
				}()
				w.fail("panic", fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 3000)), "")
			}()
		}
	}()

	body()

	w.cur.UnitsDone++
}

// Words enumerates all sequences over 0..k-1 with length min..max, shortest first; all sequences sharing a
// length and a prefix of p symbols form a unit. The slice passed to body is reused.
func (w *W) Words(k, min, max, p int, body func(seq []int)) {
	for length := min; length <= max; length++ {
		pre := p
		if pre > length {
			pre = length
		}

		prefix := make([]int, pre)

		for {
			w.Unit(func() {
				seq := make([]int, length)
				copy(seq, prefix)

				for {
					body(seq)

					i := length - 1
					for ; i >= pre; i-- {
						seq[i]++
						if seq[i] < k {
							break
						}
						seq[i] = 0
					}

					if i < pre {
						return
					}
				}
			})

			i := pre - 1
			for ; i >= 0; i-- {
				prefix[i]++
				if prefix[i] < k {
					break
				}
				prefix[i] = 0
			}

			if i < 0 {
				break
			}
		}
	}
}

// Range splits lo..hi-1 into units of size chunk.
func (w *W) Range(lo, hi, chunk int, body func(i int)) {
	for from := lo; from < hi; from += chunk {
		from := from
		w.Unit(func() {
			for i := from; i < from+chunk && i < hi; i++ {
				body(i)
			}
		})
	}
}

const (
	exitHang   = 41
	exitMemory = 42
	memLimit   = 3 << 30
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)

	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// monitor ends the process when one case burns too much processor time, blocks for too long, or allocates
// without bound.
func (w *W) monitor(hangCPU, hangWall time.Duration) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	last, lastCPU, lastWall := w.progress.Load(), cpuTime(), time.Now()

	for {
		time.Sleep(20 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64() > memLimit {
			os.Exit(exitMemory)
		}

		if p := w.progress.Load(); p != last {
			last, lastCPU, lastWall = p, cpuTime(), time.Now()

			continue
		}

		if cpuTime()-lastCPU > hangCPU || time.Since(lastWall) > hangWall {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "no progress\n%s\n", buf)
			os.Exit(exitHang)
		}
	}
}

func workerMain(props []Property, args []string) {
	get := func(name string) string {
		for _, a := range args {
			if strings.HasPrefix(a, "-"+name+"=") {
				return a[len(name)+2:]
			}
		}

		return ""
	}
	atoi := func(s string, def int) int {
		n, err := strconv.Atoi(s)
		if err != nil {
			return def
		}

		return n
	}

	w := &W{
		shard: atoi(get("shard"), 0), shards: atoi(get("shards"), 1),
		onlyUnit: atoi(get("unit"), -1), onlySpc: get("space"), upTo: atoi(get("upto"), -1),
		known: map[string]bool{},
	}
	if get("tier") == "thorough" {
		w.Tier = Thorough
	}
	for i := range props {
		if props[i].ID == get("prop") {
			w.prop = &props[i]
		}
	}
	if w.prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		os.Exit(7)
	}
	if d := atoi(get("deadline"), 0); d > 0 {
		w.deadline = time.Unix(int64(d), 0)
	}
	if f := get("known"); f != "" {
		raw, _ := os.ReadFile(f)
		_ = json.Unmarshal(raw, &w.known)
	}
	if f := get("prog"); f != "" {
		w.prog, _ = os.Create(f)
	}
	if f := get("trace"); f != "" {
		w.trace, _ = os.Create(f)
	}

	hang := time.Duration(atoi(get("hang"), 60)) * time.Second
	go w.monitor(hang, 3*hang)

	reached := false
	for _, sp := range w.prop.Spaces(w.Tier) {
		if w.onlySpc != "" && w.upTo < 0 && sp.Name != w.onlySpc {
			continue
		}
		if w.onlySpc != "" && w.upTo >= 0 && reached {
			break
		}

		st := SpaceStats{Name: sp.Name, Bound: sp.Bound}
		w.cur = &st
		w.unit = -1
		w.sampleAt = 1
		w.outcomes = map[uint64]struct{}{}

		upTo := w.upTo
		if sp.Name != w.onlySpc {
			w.upTo = -1
		} else {
			reached = true
		}
		from := time.Now()
		sp.Run(w)
		w.upTo = upTo
		st.WorkerS = float64(time.Since(from).Milliseconds()) / 1000

		st.Complete = !w.expired
		keys := make([]uint64, 0, len(w.outcomes))
		for h := range w.outcomes {
			keys = append(keys, h)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		w.res.Spaces = append(w.res.Spaces, st)
		w.res.Outcomes = append(w.res.Outcomes, keys)

		if len(w.res.Violations) > 0 {
			break
		}
	}
	w.res.Expired = w.expired

	raw, err := json.Marshal(w.res)
	if err == nil {
		err = os.WriteFile(get("out"), raw, 0o600)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(8)
	}
}

// Hash64 is FNV-1a, for outcomes.
type Hash64 uint64

// NewHash starts a hash.
func NewHash() Hash64 { return 14695981039346656037 }

// Add a number.
func (h Hash64) Add(v uint64) Hash64 {
	for i := 0; i < 8; i++ {
		h = (h ^ Hash64(v&0xFF)) * 1099511628211
		v >>= 8
	}

	return h
}

// Str adds a string.
func (h Hash64) Str(s string) Hash64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ Hash64(s[i])) * 1099511628211
	}

	return h.Add(uint64(len(s)))
}
