// Package vsync stands in for package sync in woven sources: the same objects, acquired cooperatively, so
// that a goroutine that has to wait hands the baton over instead of blocking the only one that runs.
// The real objects are used underneath: the race detector sees the synchronisation there really is.
package vsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/vsched"
)

type (
	// Locker is sync.Locker.
	Locker = sync.Locker
	// Map is sync.Map.
	Map = sync.Map
)

// Mutex is a sync.Mutex.
type Mutex struct{ mu sync.Mutex }

// Lock m.
func (m *Mutex) Lock() {
	if !vsched.On() {
		m.mu.Lock()

		return
	}
	vsched.Sync()
	for !m.mu.TryLock() {
		vsched.Block(unsafe.Pointer(m))
	}
}

// TryLock m.
func (m *Mutex) TryLock() bool {
	vsched.Sync()

	return m.mu.TryLock()
}

// Unlock m.
func (m *Mutex) Unlock() {
	vsched.Sync()
	m.mu.Unlock()
	vsched.Wake(unsafe.Pointer(m))
}

// RWMutex is a sync.RWMutex. As there, readers that come while a writer waits let it go first, and those that
// waited go before the next writer.
type RWMutex struct {
	mu       sync.RWMutex
	writers  int // waiting
	readers  int // waiting
	admitted int // readers that waited for a writer that is gone
}

// Plain variables in functions that are not instrumented: these counters order nothing between goroutines.

//go:norace
func (m *RWMutex) comes() { m.writers++ }

//go:norace
func (m *RWMutex) goes() { m.writers-- }

//go:norace
func (m *RWMutex) free() bool { return m.admitted == 0 }

//go:norace
func (m *RWMutex) taken() bool { return m.writers > 0 }

//go:norace
func (m *RWMutex) waits() { m.readers++ }

//go:norace
func (m *RWMutex) enters() bool {
	if m.admitted == 0 {
		return false
	}
	m.admitted--

	return true
}

//go:norace
func (m *RWMutex) admit() { m.admitted, m.readers = m.admitted+m.readers, 0 }

// Lock for writing.
func (m *RWMutex) Lock() {
	if !vsched.On() {
		m.mu.Lock()

		return
	}
	vsched.Sync()
	m.comes()
	for !m.free() || !m.mu.TryLock() {
		vsched.Block(unsafe.Pointer(m))
	}
	m.goes()
}

// TryLock for writing.
func (m *RWMutex) TryLock() bool {
	vsched.Sync()

	return m.free() && m.mu.TryLock()
}

// Unlock for writing.
func (m *RWMutex) Unlock() {
	vsched.Sync()
	m.mu.Unlock()
	if vsched.On() {
		m.admit()
	}
	vsched.Wake(unsafe.Pointer(m))
}

// RLock for reading.
func (m *RWMutex) RLock() {
	if !vsched.On() {
		m.mu.RLock()

		return
	}
	vsched.Sync()
	if !m.taken() && m.mu.TryRLock() {
		return
	}
	m.waits()
	for !m.enters() {
		vsched.Block(unsafe.Pointer(m))
	}
	m.mu.RLock()
	vsched.Wake(unsafe.Pointer(m))
}

// TryRLock for reading.
func (m *RWMutex) TryRLock() bool {
	vsched.Sync()

	return !m.taken() && m.mu.TryRLock()
}

// RUnlock for reading.
func (m *RWMutex) RUnlock() {
	vsched.Sync()
	m.mu.RUnlock()
	vsched.Wake(unsafe.Pointer(m))
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a sync.Once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

// Do f once.
func (o *Once) Do(f func()) {
	vsched.Sync()
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() bool {
		f()

		return true
	})

	return func() { g() }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, bool) { return f(), true })

	return func() T {
		v, _ := g()

		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		once  Once
		valid bool
		p     any
		r1    T1
		r2    T2
	)
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		r1, r2 = f()
		f = nil
		valid = true
	}

	return func() (T1, T2) {
		once.Do(g)
		if !valid {
			panic(p)
		}

		return r1, r2
	}
}

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

// Add delta.
func (w *WaitGroup) Add(delta int) {
	vsched.Sync()
	w.wg.Add(delta)
	if w.n.Add(int64(delta)) <= 0 {
		vsched.Wake(unsafe.Pointer(w))
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait for zero.
func (w *WaitGroup) Wait() {
	vsched.Sync()
	if vsched.On() {
		for w.n.Load() > 0 {
			vsched.Block(unsafe.Pointer(w))
		}
	}
	w.wg.Wait()
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a sync.Cond.
type Cond struct {
	L       Locker
	waiting int
	tickets int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) waits() { c.waiting++ }

//go:norace
func (c *Cond) enters() bool {
	if c.tickets == 0 {
		return false
	}
	c.tickets--

	return true
}

//go:norace
func (c *Cond) admit(n int) {
	if n > c.waiting {
		n = c.waiting
	}
	c.waiting -= n
	c.tickets += n
}

// Wait for a signal.
func (c *Cond) Wait() {
	c.waits()
	c.L.Unlock()
	for !c.enters() {
		vsched.Block(unsafe.Pointer(c))
	}
	c.L.Lock()
}

// Signal one.
func (c *Cond) Signal() {
	vsched.Sync()
	c.admit(1)
	vsched.Wake(unsafe.Pointer(c))
}

// Broadcast to all.
func (c *Cond) Broadcast() {
	vsched.Sync()
	c.admit(1 << 30)
	vsched.Wake(unsafe.Pointer(c))
}

// Pool is a sync.Pool that never loses anything, and gives back the last item put. As there, putting an item
// comes before getting that item, and nothing else.
type Pool struct {
	New   func() any
	items []*item
}

type item struct {
	handed atomic.Bool
	x      any
}

//go:norace
func (p *Pool) pop() *item {
	n := len(p.items)
	if n == 0 {
		return nil
	}
	i := p.items[n-1]
	p.items = p.items[:n-1]

	return i
}

//go:norace
func (p *Pool) push(i *item) { p.items = append(p.items, i) }

var free sync.Mutex // when there is no scheduler

// Get an item.
func (p *Pool) Get() any {
	vsched.Sync()
	if !vsched.On() {
		free.Lock()
		defer free.Unlock()
	}
	if i := p.pop(); i != nil && i.handed.Load() {
		return i.x
	}
	if p.New != nil {
		return p.New()
	}

	return nil
}

// Put an item.
func (p *Pool) Put(x any) {
	vsched.Sync()
	if x == nil {
		return
	}
	if !vsched.On() {
		free.Lock()
		defer free.Unlock()
	}
	i := &item{x: x}
	i.handed.Store(true)
	p.push(i)
}
