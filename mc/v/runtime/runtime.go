// Package runtime is the controlled version of the standard package.
package runtime

import "verif/rt"

// Gosched lets the other goroutines run.
func Gosched() { rt.Gosched() }
