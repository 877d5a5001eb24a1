package main

import (
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

// vault is an array of runes in memory that may be made read-only: a write to it, even of the value that is
// already there, is a fault that becomes a panic.
type vault struct {
	bytes []byte
	runes []rune
}

const vaultBytes = 1 << 17

func newVault(w *mc.W) *vault {
	b, err := syscall.Mmap(-1, 0, vaultBytes, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		w.Failf("cannot map memory: %v", err)
	}
	debug.SetPanicOnFault(true)

	return &vault{bytes: b, runes: unsafe.Slice((*rune)(unsafe.Pointer(&b[0])), vaultBytes/4)}
}

// open the first n runes for writing.
func (v *vault) open(n int) []rune {
	if err := syscall.Mprotect(v.bytes, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic(err)
	}

	return v.runes[:n]
}

// shut makes the array read-only.
func (v *vault) shut() {
	if err := syscall.Mprotect(v.bytes, syscall.PROT_READ); err != nil {
		panic(err)
	}
}

// guard calls a function. If it writes to the vault, its index there is given.
func (v *vault) guard(f func()) (at int) {
	at = -1
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if fault, ok := x.(interface{ Addr() uintptr }); ok {
			if a, base := fault.Addr(), uintptr(unsafe.Pointer(&v.bytes[0])); a >= base && a < base+vaultBytes {
				at = int(a-base) / 4

				return
			}
		}
		panic(x)
	}()
	f()

	return at
}
