package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/scen"
)

type choice struct {
	Kind   byte
	Loc    int
	Thread int
	N      int
	C      int
}

type report struct {
	Choices  []choice
	Results  [][]string
	After    []string
	Dead     bool
	Diverged bool
	Steps    int
	Orders   int
}

type location struct {
	Pos   string
	Heavy bool
}

// mode of exploration of a scenario.
type mode struct {
	name     string
	race     bool
	heavy    bool
	cap      int
	bound    int
	reversed bool
}

func (m mode) String() string {
	points := "before every statement"
	if m.heavy {
		points = "before every statement that may touch shared state"
	}
	build := "plain build"
	if m.race {
		build = "race detector build"
	}

	return fmt.Sprintf("%s, up to %d preemptions (and one free choice where a goroutine cannot go on, further ones count as preemptions), points %s (the first %d times each goroutine comes there) and at every synchronisation operation", build, m.bound, points, m.cap)
}

type result struct {
	report
	code   int
	stderr string
	late   bool
}

// process runs a runner.
func process(race bool, args ...string) result {
	bin := os.Getenv("VERIF_RUNNER")
	if race {
		bin = os.Getenv("VERIF_RUNNER_RACE")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=atexit_sleep_ms=0 halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	err := cmd.Run()
	r := result{stderr: errb.String(), late: ctx.Err() != nil}
	if err != nil {
		r.code = -1
		if cmd.ProcessState != nil {
			r.code = cmd.ProcessState.ExitCode()
		}

		return r
	}
	if err := json.Unmarshal(out.Bytes(), &r.report); err != nil {
		r.code = -2
		r.stderr = "no report: " + out.String()
	}

	return r
}

var where = regexp.MustCompile(`(?m)^(  \S+\(\)|      /\S+:\d+|\S.* at 0x.* by .*:)`)

func raceText(stderr string) string {
	found := where.FindAllString(stderr, 14)
	if len(found) == 0 {
		return stderr
	}

	return strings.Join(found, "\n")
}

// explorer of the schedules of one scenario.
type explorer struct {
	w     *mc.W
	s     *scen.Scenario
	m     mode
	locs  []location
	want  [][]string
	after []string
	unit  int
	units int
	last  []choice
	pre   []int
	count *int
	// what is not under control
	loose bool
}

func (e *explorer) String() string {
	var steps []string
	for i, c := range e.last {
		if c.C == 0 {
			continue
		}
		pos := ""
		if c.Loc < len(e.locs) {
			pos = e.locs[c.Loc].Pos
		}
		switch c.Kind {
		case 'p':
			steps = append(steps, fmt.Sprintf("decision %d: goroutine %d preempted before %s (option %d of %d)", i, c.Thread, pos, c.C, c.N))
		case 'f':
			steps = append(steps, fmt.Sprintf("decision %d: option %d of %d goes on", i, c.C, c.N))
		case 'o':
			steps = append(steps, fmt.Sprintf("decision %d: order %d of %d of the map at %s", i, c.C, c.N, pos))
		}
	}
	sched := "no preemption"
	if len(steps) > 0 {
		sched = strings.Join(steps, "; ")
	}
	var pre []string
	for _, p := range e.pre {
		pre = append(pre, strconv.Itoa(p))
	}

	return fmt.Sprintf("scenario %s %v (%s), schedule: %s [prefix %s]", e.s.Name, e.s.Threads, e.m.name, sched, strings.Join(pre, ","))
}

func (e *explorer) args(prefix []int) []string {
	var p []string
	for _, c := range prefix {
		p = append(p, strconv.Itoa(c))
	}
	args := []string{"exec", e.s.Name, "-prefix=" + strings.Join(p, ","), "-cap=" + strconv.Itoa(e.m.cap), "-locs=" + os.Getenv("VERIF_LOCS")}
	if e.m.heavy {
		args = append(args, "-heavy")
	}
	if e.m.race { // the results afterwards are those of the plain build
		args = append(args, "-noafter")
	}
	if e.m.reversed {
		args = append(args, "-reversed")
	}

	return args
}

// one execution: its decisions, judged.
func (e *explorer) one(prefix []int, mine bool) []choice {
	e.w.Slow()
	e.pre, e.last = prefix, nil
	if mine {
		e.w.Tick()
	}
	r := process(e.m.race, e.args(prefix)...)
	e.last = r.Choices
	if r.code == 77 || r.code == 2 && strings.Contains(r.stderr, "all goroutines are asleep") {
		e.loose = true
		e.w.Partial("goroutines that block or run out of sight of the scheduler: some executions are only tried")
		e.free()

		return nil
	}
	e.judge(r)
	if r.Diverged {
		e.w.Partial("the same schedule does not always lead to the same decisions: what comes after some of them is left out")

		return nil
	}
	if !mine {
		return r.Choices
	}
	for i := len(prefix); i < len(r.Choices); i++ {
		e.w.State()
	}
	e.w.Step(r.Steps)
	for _, c := range r.Choices {
		if c.C != 0 {
			e.w.NonTrivial()

			break
		}
	}
	h := mc.NewHash()
	for _, c := range r.Choices {
		h = h.Add(uint64(c.Loc)<<8 | uint64(c.C))
	}
	e.w.Outcome(uint64(h))

	return r.Choices
}

func (e *explorer) judge(r result) {
	switch {
	case r.code == 66:
		e.w.Failf("data race\n%s", raceText(r.stderr))
	case r.late:
		e.w.Failf("the goroutines do not end within 150 s")
	case r.code != 0:
		e.w.Failf("the process ended with code %d\n%s", r.code, r.stderr)
	case r.Dead:
		e.w.Failf("deadlock: no goroutine can go on")
	}
	for t, ops := range e.s.Threads {
		for k, op := range ops {
			if got, want := r.Results[t][k], e.want[t][k]; got != want {
				e.w.Failf("goroutine %d, operation %s gave %s; alone it gives %s", t, op, got, want)
			} else if strings.HasPrefix(got, "panic: ") {
				e.w.Failf("goroutine %d, operation %s: %s", t, op, got)
			}
		}
	}
	for k, op := range e.s.After {
		if k >= len(r.After) && e.m.race {
			break
		}
		if got, want := r.After[k], e.after[k]; got != want {
			e.w.Failf("afterwards, operation %s gave %s; alone it gives %s", op, got, want)
		}
	}
}

// free runs: what blocks out of sight of the scheduler cannot be explored, only tried.
func (e *explorer) free() {
	runs := 12
	if e.unit > 0 {
		runs = 2 // other units do the same
	}
	for i := 0; i < runs; i++ {
		e.w.Tick()
		r := process(i%2 == 0, "free", e.s.Name)
		if r.code == 2 && strings.Contains(r.stderr, "all goroutines are asleep") {
			e.w.Failf("deadlock\n%s", r.stderr)
		}
		e.judge(r)
	}
}

// lone results of the operations of the scenario, each in a process of its own.
func (e *explorer) lone() {
	get := func(op string) string {
		ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Getenv("VERIF_RUNNER"), "lone", e.s.Name, op)
		var errb bytes.Buffer
		cmd.Stderr = &errb
		out, err := cmd.Output()
		var s string
		if err != nil || json.Unmarshal(out, &s) != nil {
			e.w.Failf("operation %s alone: %v %s", op, err, errb.String())
		}
		if strings.HasPrefix(s, "panic: ") {
			e.w.Failf("operation %s alone: %s", op, s)
		}

		return s
	}
	for _, ops := range e.s.Threads {
		var want []string
		for _, op := range ops {
			want = append(want, get(op))
		}
		e.want = append(e.want, want)
	}
	for _, op := range e.s.After {
		e.after = append(e.after, get(op))
	}
}

// explore every schedule that extends a prefix and takes at most the bound of preemptions. What has no
// preemption yet is executed by every unit, the rest is dealt to them. Which goroutine goes on when the running
// one cannot is a free choice when they start, and once after that: then it counts as a preemption.
func (e *explorer) explore(prefix []int, cost, freed int) {
	choices := e.one(prefix, cost > 0 || e.unit == 0)
	if e.loose {
		return
	}
	taken := make([]int, len(choices))
	for i, c := range choices {
		taken[i] = c.C
	}
	for i := len(prefix); i < len(choices); i++ {
		c := choices[i]
		price, free := cost, freed
		switch {
		case c.Kind == 'f' && i == 0:
		case c.Kind == 'f' && freed == 0:
			free++
		default:
			price++
		}
		if price > e.m.bound {
			continue
		}
		for o := 1; o < c.N; o++ {
			if cost == 0 && price > 0 {
				*e.count++
				if *e.count%e.units != e.unit {
					continue
				}
			}
			next := append(append(make([]int, 0, i+1), taken[:i]...), o)
			e.explore(next, price, free)
		}
	}
}

func loadLocs() []location {
	raw, err := os.ReadFile(os.Getenv("VERIF_LOCS"))
	var locs []location
	if err != nil || json.Unmarshal(raw, &locs) != nil {
		panic(fmt.Sprint("VERIF_LOCS: ", err))
	}

	return locs
}

// schedules explores scenarios of a property.
func schedules(name, prop string, deep bool, modes []mode, units int, filter func(*scen.Scenario) bool) mc.Space {
	var names []string
	for _, m := range modes {
		names = append(names, m.name+": "+m.String())
	}

	return mc.Space{
		Name: name,
		Bound: fmt.Sprintf("every schedule, from a process that has done nothing before, of each scenario of concurrent operations; %s",
			strings.Join(names, "; ")),
		Run: func(w *mc.W) {
			locs := loadLocs()
			for _, s := range scen.Scenarios {
				if s.Prop != prop || s.Deep && !deep || filter != nil && !filter(s) {
					continue
				}
				for _, m := range modes {
					n := units
					if len(s.Threads) == 1 {
						n = 1
					}
					for u := 0; u < n; u++ {
						s, m, u, n := s, m, u, n
						w.Unit(func() {
							count := 0
							e := &explorer{w: w, s: s, m: m, locs: locs, unit: u, units: n, count: &count}
							w.Describe(e.String)
							e.lone()
							e.explore(nil, 0, 0)
						})
					}
				}
			}
		},
	}
}
