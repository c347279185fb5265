// Package registry lists the instrumented packages; registry.go is supplied by the build overlay.
package registry
