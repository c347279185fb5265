//go:build race

package proc

import (
	"runtime"
	"unsafe"
)

// Race says whether the race detector watches.
const Race = true

// lock orders nothing: only one goroutine runs at a time and system calls have no yields inside, and the simulator
// must not hide missing synchronisation from the race detector.
type lock struct{}

func (lock) Lock()   {}
func (lock) Unlock() {}

// RaceErrors counts reports.
func RaceErrors() int { return runtime.RaceErrors() }

var raceVar int

// what the goroutines of a process did happened before what follows it
func raceLeave() { runtime.RaceReleaseMerge(unsafe.Pointer(&raceVar)) }
func raceJoin()  { runtime.RaceAcquire(unsafe.Pointer(&raceVar)) }
