//go:build !race

package proc

import "sync"

// Race says whether the race detector watches.
const Race = false

type lock = sync.Mutex

// RaceErrors counts reports.
func RaceErrors() int { return 0 }

func raceLeave() {}
func raceJoin()  {}
