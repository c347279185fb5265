package sim

import (
	"os"
	"strings"

	"verifsim/internal/proc"
)

// RaceLog is the file the race detector writes to (without the process id it adds).
var RaceLog string

var racesSeen int
var raceOffset int64

// races returns the next race between statements of the code under test that was reported since the last call.
func (e *Env) races() string {
	if !proc.Race || RaceLog == "" || proc.RaceErrors() == racesSeen {
		return ""
	}
	racesSeen = proc.RaceErrors()
	b, err := os.ReadFile(RaceLog)
	if err != nil {
		return ""
	}
	n := raceOffset
	raceOffset = int64(len(b))
	for _, r := range strings.Split(string(b[n:]), "==================") {
		if r = strings.TrimSpace(r); raceOfCode(r) {
			return r
		}
	}
	return ""
}

// raceOfCode says whether both accesses are made by the code under test, and not by the simulator.
func raceOfCode(r string) bool {
	parts := strings.Split(r, "\n\n")
	if len(parts) < 2 || !strings.HasPrefix(r, "WARNING: DATA RACE") {
		return false
	}
	for _, p := range parts[:2] {
		if !strings.Contains(p, "github.com/ls6-events/astra") || strings.Contains(p, "SimReset") {
			return false
		}
	}
	return true
}
