// Package fuzz holds the target of the coverage-guided search: the generators
// and checks of package hz, with the bytes of the fuzzer as random numbers.
package fuzz

import (
	"testing"

	"verif/harness/hz"
)

func FuzzCase(f *testing.F) {
	for _, b := range hz.FuzzSeeds() {
		f.Add(b)
	}
	f.Fuzz(hz.FuzzTarget())
}
