package registry

// Placeholder: the build overlay replaces this file (see cmd/simbuild).

// Reset re-initialises every package variable of the code under test.
func Reset() {}

// Level is the instrumentation level.
const Level = -1

// Packages are the instrumented packages.
var Packages []string
