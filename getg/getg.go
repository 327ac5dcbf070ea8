// Package getg identifies goroutines.
package getg

// G identifies the calling goroutine while it runs.
func G() uintptr
