//go:build go1.25

// Package fmt replaces package fmt where standard output is that of a
// simulated process.
package fmt

//shim:base fmt

import (
	"fmt"

	"github.com/mutecomm/mute/zzverif/shim/os"
)

// Print replaces fmt.Print.
func Print(a ...interface{}) (int, error) { return fmt.Fprint(os.Stdout, a...) }

// Printf replaces fmt.Printf.
func Printf(format string, a ...interface{}) (int, error) { return fmt.Fprintf(os.Stdout, format, a...) }

// Println replaces fmt.Println.
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(os.Stdout, a...) }

// Scan replaces fmt.Scan.
func Scan(a ...interface{}) (int, error) { return fmt.Fscan(os.Stdin, a...) }

// Scanf replaces fmt.Scanf.
func Scanf(format string, a ...interface{}) (int, error) { return fmt.Fscanf(os.Stdin, format, a...) }

// Scanln replaces fmt.Scanln.
func Scanln(a ...interface{}) (int, error) { return fmt.Fscanln(os.Stdin, a...) }
