package vsched

import (
	"runtime"
	"unsafe"
)

// Operations on channels, done cooperatively: the real channel is used, without ever blocking on it, so that
// the race detector sees the synchronisation there really is. A send on a channel without a buffer is left to
// a goroutine out of control, that waits on the channel for a receiver.

var helpers, patience int

//go:norace
func helper(delta int) {
	helpers += delta
	patience = 0
}

// impatient tells if it is of no use to wait any longer for what is out of control.
//
//go:norace
func impatient() bool {
	if patience > 100 {
		return true
	}
	patience++
	settle()

	return false
}

// settle lets the helpers reach their channel.
func settle() {
	for i := 0; i < 8; i++ {
		runtime.Gosched()
	}
}

// Send v on ch.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !On() {
			ch <- v

			return
		}
		Sync()
		if ch != nil && cap(ch) == 0 {
			rendezvous(ch, v)

			return
		}
		for {
			select {
			case ch <- v:
				helper(0)
				Wake(of(ch))

				return
			default:
				Block(sender(ch))
			}
		}
	}
}

func rendezvous[T any](ch chan<- T, v T) {
	sent := make(chan any, 1)
	helper(1)
	go func() {
		defer func() { sent <- recover() }()
		ch <- v
	}()
	settle()
	Wake(of(ch))
	for {
		select {
		case broken := <-sent:
			helper(-1)
			if broken != nil {
				panic(broken)
			}

			return
		default:
			Block(sender(ch))
			settle()
		}
	}
}

// Recv from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)

	return v
}

// Recv2 from ch, and whether it was sent.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !On() {
		v, ok := <-ch

		return v, ok
	}
	Sync()
	for {
		select {
		case v, ok := <-ch:
			Took(ch)

			return v, ok
		default:
			Block(of(ch))
		}
	}
}

// of a channel: what its receivers wait for.
func of[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// sender is what the senders of a channel wait for.
func sender[C any](ch C) unsafe.Pointer {
	if p := of(ch); p != nil {
		return unsafe.Add(p, 1)
	}

	return unsafe.Pointer(&on) // for ever
}

// Took something from a channel, or sent to it.
func Took[C any](ch C) {
	if !On() {
		return
	}
	helper(0)
	if waiting() {
		settle()
	}
	Wake(sender(ch))
}

//go:norace
func waiting() bool { return helpers > 0 }

// Close ch.
func Close[T any](ch chan<- T) {
	Sync()
	close(ch)
	Wake(of(ch))
	Wake(sender(ch))
}

// Poll is what a select does when none of its channels is ready.
func Poll() {
	if !On() {
		runtime.Gosched()

		return
	}
	Block(nil)
}

// TookAny is Took, whatever the channel.
func TookAny() {
	if !On() {
		return
	}
	helper(0)
	if waiting() {
		settle()
	}
	Wake(nil)
}

// TurnT tells which case of a select has its turn: only one of them is tried at a time, from one that is a decision.
type TurnT struct{ first, tried, n int }

// Turns of a select with n cases.
//
//go:norace
func Turns(n int) *TurnT {
	t := &TurnT{n: n}
	if On() {
		Sync()
		if len(Trace) < maxTrace {
			t.first = decide(Order, 0, n)
		}
	}

	return t
}

// Next case, if there is one that was not tried.
func (t *TurnT) Next() bool {
	if t.tried++; On() && t.tried < t.n {
		return true
	}
	t.tried = 0

	return false
}

// Turn is the channel of a case, or one that is never ready when it is the turn of another case.
func Turn[C any](t *TurnT, i int, c C) C {
	if On() && (t.first+t.tried)%t.n != i {
		var none C

		return none
	}

	return c
}
