// Command runner does one execution, under control, of a scenario, in a process that has done nothing else.
// It is built from the woven sources of /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/scen"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/vsched"
)

// Report of an execution.
type Report struct {
	Choices  []vsched.Choice
	Results  [][]string
	After    []string
	Dead     bool
	Diverged bool
	Steps    int
	Orders   int
}

// Uncontrolled is the exit code when the code under test blocks where the scheduler cannot see it.
const Uncontrolled = 77

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		raw, _ := json.Marshal(scen.Scenarios)
		os.Stdout.Write(raw)
	case "lone":
		lone(os.Args[2], os.Args[3])
	case "exec":
		exec(os.Args[2], os.Args[3:])
	case "free":
		free(os.Args[2])
	default:
		os.Exit(2)
	}
}

func find(name string) *scen.Scenario {
	for _, s := range scen.Scenarios {
		if s.Name == name {
			return s
		}
	}
	fmt.Fprintln(os.Stderr, "no scenario", name)
	os.Exit(2)

	return nil
}

// do an operation; a panic is its result.
func do(w *scen.World, name string) (out scen.Out) {
	op := scen.Ops[name]
	if op == nil {
		panic("no operation " + name)
	}
	defer func() {
		if e := recover(); e != nil {
			out = func() string { return fmt.Sprint("panic: ", e) }
		}
	}()

	return op(w)
}

// lone: the operation alone.
func lone(scenario, op string) {
	w := scen.NewWorld(find(scenario))
	out := do(w, op)
	raw, _ := json.Marshal(out())
	os.Stdout.Write(raw)
}

func exec(scenario string, args []string) {
	runtime.GOMAXPROCS(1)
	fs := flag.NewFlagSet("exec", flag.ExitOnError)
	prefix := fs.String("prefix", "", "decisions")
	cap := fs.Int("cap", 1, "points per location")
	heavy := fs.Bool("heavy", false, "only points that touch shared state")
	reversed := fs.Bool("reversed", false, "order of maps")
	locs := fs.String("locs", "", "description of the points")
	noAfter := fs.Bool("noafter", false, "leave out the operations that come after")
	_ = fs.Parse(args)

	var known []struct{ Heavy bool }
	raw, err := os.ReadFile(*locs)
	if err != nil || json.Unmarshal(raw, &known) != nil {
		fmt.Fprintln(os.Stderr, "no locations", err)
		os.Exit(2)
	}
	c := vsched.Config{Cap: *cap, Heavy: *heavy, Reversed: *reversed}
	for _, l := range known {
		c.Class = append(c.Class, l.Heavy)
	}
	if *prefix != "" {
		for _, s := range strings.Split(*prefix, ",") {
			n, err := strconv.Atoi(s)
			if err != nil {
				os.Exit(2)
			}
			c.Prefix = append(c.Prefix, n)
		}
	}

	s := find(scenario)
	w := scen.NewWorld(s)
	outs := make([][]scen.Out, len(s.Threads))
	var (
		wg     sync.WaitGroup
		bodies []func()
	)
	for i, ops := range s.Threads {
		i, ops := i, ops
		outs[i] = make([]scen.Out, len(ops))
		mine := outs[i]
		wg.Add(1)
		bodies = append(bodies, func() {
			defer wg.Done()
			for j, op := range ops {
				mine[j] = do(w, op)
			}
		})
	}
	if vsched.Strays() {
		os.Exit(Uncontrolled)
	}
	go watch()
	vsched.Run(c, len(known), func() { report(nil) }, bodies)
	wg.Wait()

	r := Report{}
	for i := range outs {
		var got []string
		for _, o := range outs[i] {
			got = append(got, o())
		}
		r.Results = append(r.Results, got)
	}
	if *noAfter {
		s.After = nil
	}
	for _, op := range s.After {
		r.After = append(r.After, do(w, op)())
	}
	report(&r)
}

func report(r *Report) {
	if r == nil {
		r = &Report{}
	}
	r.Choices, r.Dead, r.Diverged, r.Steps, r.Orders = vsched.Trace, vsched.Dead, vsched.Diverged, vsched.Steps, vsched.Orders
	raw, _ := json.Marshal(r)
	os.Stdout.Write(raw)
	os.Exit(0)
}

// watch for a goroutine that blocks while it has the baton.
func watch() {
	last, same := -1, 0
	for {
		time.Sleep(500 * time.Millisecond)
		if !vsched.On() {
			last, same = -1, 0

			continue
		}
		if n := vsched.Progress(); n == last {
			same++
		} else {
			last, same = n, 0
		}
		if same > 20 {
			os.Exit(Uncontrolled)
		}
	}
}

// free: the goroutines run as the runtime pleases. Only used when they cannot be controlled.
func free(scenario string) {
	s := find(scenario)
	w := scen.NewWorld(s)
	outs := make([][]scen.Out, len(s.Threads))
	var wg sync.WaitGroup
	for i, ops := range s.Threads {
		i, ops := i, ops
		outs[i] = make([]scen.Out, len(ops))
		mine := outs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j, op := range ops {
				mine[j] = do(w, op)
			}
		}()
	}
	wg.Wait()
	r := Report{}
	for i := range outs {
		var got []string
		for _, o := range outs[i] {
			got = append(got, o())
		}
		r.Results = append(r.Results, got)
	}
	for _, op := range s.After {
		r.After = append(r.After, do(w, op)())
	}
	report(&r)
}
