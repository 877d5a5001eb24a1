package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/scen"
)

// fresh runs operations in order in this process, which has done nothing else, and prints the results.
func fresh(args []string) {
	w := scen.NewWorld(&scen.Scenario{})
	var out []string
	for _, name := range args {
		out = append(out, act(w, name))
	}
	raw, _ := json.Marshal(out)
	os.Stdout.Write(raw)
}

func act(w *scen.World, name string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("panic: ", e)
		}
	}()

	if strings.HasPrefix(name, "lines:") {
		return lineOp(name)
	}
	if strings.HasPrefix(name, "many:") {
		return manyBack(name)
	}

	return scen.Ops[name](w)()
}

// inProcess runs operations in a new process.
func inProcess(w *mc.W, names ...string) []string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, append([]string{"fresh"}, names...)...)
	var errb strings.Builder
	cmd.Stderr = &errb
	raw, err := cmd.Output()
	var out []string
	if err != nil || json.Unmarshal(raw, &out) != nil || len(out) != len(names) {
		w.Failf("a process that does %v ends with %v\n%s", names, err, errb.String())
	}

	return out
}

// baseline is what each operation gives alone in a process.
type baseline map[string]string

func (b baseline) of(w *mc.W, name string) string {
	s, ok := b[name]
	if !ok {
		s = inProcess(w, name)[0]
		if strings.HasPrefix(s, "panic: ") {
			w.Failf("operation %s alone: %s", name, s)
		}
		b[name] = s
	}

	return s
}

// sequence of 0..k-1 in which every word of length n appears (the least de Bruijn sequence, unrolled).
func sequence(k, n int) []int {
	a := make([]int, k*n+1)
	var out []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}

			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)

	return append(out, out[:n-1]...)
}

// histories: cold histories in processes of their own.
func cold(name string, ops []string, depth int, after []string) mc.Space {
	return mc.Space{
		Name:  name,
		Bound: fmt.Sprintf("every history of 1 to %d of the %d operations %s, each in a process of its own, then %v", depth, len(ops), strings.Join(ops, " "), after),
		Run: func(w *mc.W) {
			base := baseline{}
			var names []string
			w.Words(len(ops), 1, depth, 1, func(seq []int) {
				w.Slow()
				names = names[:0]
				for _, i := range seq {
					names = append(names, ops[i])
				}
				w.Describe(func() string { return fmt.Sprintf("%v then %v, in a new process", names, after) })
				w.Tick()
				h := mc.NewHash()
				all := append(append([]string{}, names...), after...)
				got := inProcess(w, all...)
				for k, op := range all {
					if want := base.of(w, op); got[k] != want {
						w.Failf("operation %d, %s, gave %s; alone it gives %s", k, op, got[k], want)
					}
					w.Step(1)
					h = h.Str(got[k])
				}
				for range names {
					w.State()
				}
				if len(names) > 1 {
					w.NonTrivial()
				}
				w.Outcome(uint64(h))
			})
		},
	}
}

// warm: one long history in one process, in which every word of operations appears.
func warm(name string, ops []string, n int) mc.Space {
	return mc.Space{
		Name:  name,
		Bound: fmt.Sprintf("one history in which all sequences of %d of the %d operations %s follow each other", n, len(ops), strings.Join(ops, " ")),
		Run: func(w *mc.W) {
			w.Unit(func() {
				base := baseline{}
				want := make([]string, len(ops))
				for i, op := range ops {
					want[i] = base.of(w, op)
				}
				seq := sequence(len(ops), n)
				world := scen.NewWorld(&scen.Scenario{})
				at := 0
				w.Describe(func() string {
					var last []string
					for k := at - 5; k <= at; k++ {
						if k >= 0 {
							last = append(last, ops[seq[k]])
						}
					}

					return fmt.Sprintf("operation %d of the history, the last ones being %v", at, last)
				})
				for at = range seq {
					w.Tick()
					w.Step(1)
					i := seq[at]
					got := act(world, ops[i])
					if got != want[i] {
						w.Failf("%s gave %s; alone it gives %s", ops[i], got, want[i])
					}
					if at >= n-1 {
						w.State()
					}
					if at > 0 && seq[at-1] != i {
						w.NonTrivial()
					}
					if at < 1000 {
						w.Outcome(uint64(mc.NewHash().Str(ops[i]).Str(got)))
					}
				}
			})
		},
	}
}

// opsWith prefixes, sorted.
func opsWith(prefixes ...string) []string {
	var out []string
	for name := range scen.Ops {
		for _, p := range prefixes {
			if strings.HasPrefix(name, p) {
				out = append(out, name)
			}
		}
	}
	sort.Strings(out)

	return out
}
