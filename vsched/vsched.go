// Package vsched is the controlled scheduler that woven copies of the sources of /repo call into.
//
// While it is on, exactly one controlled goroutine runs: the one that holds the baton. It may only be taken
// away at a point, where the explorer decides which goroutine goes on. Nothing in here synchronises as far
// as the race detector can see (plain variables in functions that are not instrumented, and a single
// processor), so that handing over the baton does not hide a race between the goroutines.
package vsched

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"sync/atomic"
	"time"
	"unsafe"
)

// Kinds of decision.
const (
	Preempt = 'p' // the running goroutine could go on
	Free    = 'f' // it could not: it ended, or is blocked
	Order   = 'o' // order of iteration over a map
)

// Choice is one decision that had more than one option.
type Choice struct {
	Kind   byte
	Loc    int
	Thread int
	N      int
	C      int
}

// Config of an execution.
type Config struct {
	Prefix   []int // decisions to take, then option 0
	Cap      int   // how many times a location of a goroutine is a point
	Heavy    bool  // points only at locations that touch shared state
	Class    []bool
	Reversed bool // maps are walked in reverse order by default
}

const (
	runnable = iota
	blocked
	done
)

var (
	on     bool
	cfg    Config
	cur    int
	status []int
	things []unsafe.Pointer // what is waited for
	orders []uint8

	// Trace of the decisions taken.
	Trace []Choice
	// Steps is the number of points passed.
	Steps int
	// Dead is set when no goroutine could go on.
	Dead bool
	// Diverged is set when a decision of the prefix was not possible.
	Diverged bool
	// Orders is the number of iterations over maps.
	Orders int

	rotation int
	mains    int // goroutines of the scenario: the first ones
	onDead   func()
)

const maxTrace = 1 << 13

// Run the bodies, under control, until they all end.
//
//go:norace
func Run(c Config, locs int, dead func(), bodies []func()) {
	cfg = c
	if cfg.Cap <= 0 {
		cfg.Cap = 1
	}
	onDead = dead
	status = make([]int, 0, 64)
	things = make([]unsafe.Pointer, 0, 64)
	hots = make([]*hotT, 0, 64)
	orders = make([]uint8, locs+1)
	Trace = make([]Choice, 0, 1<<14)
	cur = -2
	nlocs = locs
	mains = len(bodies)
	for _, b := range bodies {
		add(locs, b)
	}
	on = true
	next(0, Free)
	for cur != -1 {
		runtime.Gosched()
	}
	on = false
}

var nlocs int

//go:norace
func add(locs int, body func()) {
	id := len(status)
	status = append(status, runnable)
	things = append(things, nil)
	h := new(hotT)
	for i := range h {
		if i < locs && (!cfg.Heavy || cfg.Class[i]) {
			h[i] = int32(cfg.Cap)
		}
	}
	hots = append(hots, h)
	go thread(id, body)
}

//go:norace
func thread(id int, body func()) {
	for cur != id {
		runtime.Gosched()
	}
	body()
	status[id] = done
	next(0, Free)
}

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(f func()) {
	if !on {
		strays.Add(1)
		go func() {
			defer strays.Add(-1)
			f()
		}()

		return
	}
	add(nlocs, f)
}

var strays atomic.Int64

// Strays tells if goroutines started before the execution still run: they are out of control.
func Strays() bool {
	for i := 0; i < 100 && strays.Load() > 0; i++ {
		time.Sleep(time.Millisecond)
	}

	return strays.Load() > 0
}

// On tells if a controlled execution is under way.
//
//go:norace
func On() bool { return on }

//go:norace
func decide(kind byte, loc, n int) int {
	if n < 2 {
		return 0
	}
	c := 0
	if i := len(Trace); i < len(cfg.Prefix) {
		c = cfg.Prefix[i]
		if c >= n {
			c = 0
			Diverged = true
		}
	}
	Trace = append(Trace, Choice{Kind: kind, Loc: loc, Thread: cur, N: n, C: c})

	return c
}

// next hands the baton over when the running goroutine cannot go on.
//
//go:norace
func next(loc int, kind byte) {
	var able [64]int
	n, alive := 0, false
	for i, s := range status {
		if s == runnable && n < len(able) {
			able[n] = i
			n++
		}
		if s != done && i < mains {
			alive = true // what the code under test has started may wait for ever
		}
	}
	if n == 0 && alive && !impatient() {
		Wake(nil)
		next(loc, kind)

		return
	}
	if n == 0 {
		if alive {
			Dead = true
			on = false
			hot = &idle
			onDead()
		}
		on = false
		hot = &idle
		cur = -1

		return
	}
	cur = able[decide(kind, loc, n)]
	hot = hots[cur]
}

// MaxLocs bounds the number of locations.
const MaxLocs = 4096

type hotT [MaxLocs]int32

var (
	idle hotT
	hot  = &idle // what is left, per location, of the running goroutine
	hots []*hotT
)

// P is a point: another goroutine may go on from here, the first times the running one comes here.
//
//go:norace
func P(loc int) {
	hot[loc]--
	if hot[loc] >= 0 { // also after going all the way round
		point(loc)
	}
}

//go:norace
func point(loc int) {
	v := hot[loc]
	if !on {
		hot[loc] = 0

		return
	}
	Steps++
	if v > 1<<20 {
		hot[loc] = math.MinInt32 + 1<<26 // the next time comes sooner
		rotate()

		return
	}
	if len(Trace) < maxTrace {
		yield(loc)
	}
}

// Sync is a point before an operation of a synchronisation object, never capped by location.
//
//go:norace
func Sync() {
	if !on {
		return
	}
	Steps++
	if len(Trace) < maxTrace {
		yield(0)
	}
}

//go:norace
func yield(loc int) {
	var able [64]int
	me := cur
	able[0] = me
	n := 1
	for i, s := range status {
		if i != me && s == runnable && n < len(able) {
			able[n] = i
			n++
		}
	}
	t := able[decide(Preempt, loc, n)]
	if t == me {
		return
	}
	handTo(me, t)
}

//go:norace
func handTo(me, t int) {
	cur = t
	hot = hots[t]
	for cur != me {
		runtime.Gosched()
	}
}

// rotate gives the others a chance when a goroutine runs on and on: it may be waiting for one of them.
//
//go:norace
func rotate() {
	me := cur
	rotation++
	if rotation > 8 {
		Dead = true
		on = false
		hot = &idle
		onDead()
	}
	for k := 1; k < len(status); k++ {
		if t := (me + k) % len(status); status[t] == runnable {
			handTo(me, t)

			return
		}
	}
}

// Block until another goroutine has called Wake for the same thing.
//
//go:norace
func Block(thing unsafe.Pointer) {
	if !on {
		runtime.Gosched()

		return
	}
	me := cur
	status[me] = blocked
	things[me] = thing
	next(0, Free)
	for on && cur != me {
		runtime.Gosched()
	}
}

// Wake the goroutines blocked on a thing, or on any, so that they try again.
//
//go:norace
func Wake(thing unsafe.Pointer) {
	if !on {
		return
	}
	for i, s := range status {
		if s == blocked && (thing == nil || things[i] == nil || things[i] == thing) {
			status[i] = runnable
		}
	}
}

// Keys of a map, in an order that is a decision.
func Keys[M ~map[K]V, K comparable, V any](site int, m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return less(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	perm := order(site, len(keys))
	if perm == nil {
		return keys
	}
	out := make([]K, len(keys))
	for i, p := range perm {
		out[i] = keys[p]
	}

	return out
}

// Pair of a map.
type Pair[K comparable, V any] struct {
	K K
	V V
}

// Pairs of a map, in an order that is a decision.
func Pairs[M ~map[K]V, K comparable, V any](site int, m M) []Pair[K, V] {
	var out []Pair[K, V]
	for _, k := range Keys(site, m) {
		out = append(out, Pair[K, V]{k, m[k]})
	}

	return out
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() < b.Pointer()
	default:
		return fmt.Sprint(a) < fmt.Sprint(b)
	}
}

// order of n keys: nil for the default one.
//
//go:norace
func order(site, n int) []int {
	if !on || n < 2 {
		return nil
	}
	Orders++
	options := 2 * n // rotations, and rotations of the reversal: all the orders of up to three keys
	if n == 2 {
		options = 2
	}
	c := 0
	if int(orders[site]) < 4*cfg.Cap && len(Trace) < maxTrace {
		orders[site]++
		c = decide(Order, site, options)
	}
	perm := make([]int, n)
	for i := range perm {
		p := (i + c/2) % n
		if n == 2 {
			p = (i + c) % n
		}
		if (c%2 == 1 && n > 2) != cfg.Reversed {
			p = n - 1 - p
		}
		perm[i] = p
	}

	return perm
}

// Progress is the number of points passed so far.
//
//go:norace
func Progress() int { return Steps }
