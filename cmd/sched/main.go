// Command sched decides the properties about call histories, shared memory and concurrency.
package main

import (
	"os"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

const modelChecking = "model_checking"

func main() {
	if len(os.Args) > 2 && os.Args[1] == "fresh" {
		fresh(os.Args[2:])

		return
	}
	mc.Main([]mc.Property{propC03(), propC10(), propC19(), propC23()})
}

var (
	statements = mode{name: "statements", cap: 1, bound: 1}
	shared2    = mode{name: "shared", heavy: true, cap: 1, bound: 2}
	raceShared = mode{name: "race-shared", race: true, heavy: true, cap: 1, bound: 1}
	race1      = mode{name: "race", race: true, cap: 1, bound: 1}
)

var concurrencyAssumptions = []string{
	"the interleavings explored are those at the points of the woven sources: a data race makes finer ones possible, and is itself reported",
	"the scheduler is cooperative: package sync is replaced by objects that hand over the baton instead of blocking, built on the real ones",
}
