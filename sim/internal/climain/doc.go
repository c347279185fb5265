// Package climain is the command-line tool's package main, under a name that can be imported. The build overlays
// its files from the repository; this stand-in only keeps the package loadable without the overlay.
package climain
