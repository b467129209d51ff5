package hz

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// The coverage-guided search of the thorough tier. It has the cases drawn from
// bytes which go's fuzzer chooses, by what code of the repository they reach.

// fuzzed lists the checks it is of use to: those in which what happens depends
// on the case alone, and not on memory, time or earlier cases.
var fuzzed = map[string]bool{}

func init() {
	for _, id := range strings.Fields("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15 C16 C20 C21 C23 C25 C27") {
		fuzzed[id] = true
	}
}

// FuzzSubs names the checks of a property to fuzz, those with many cases.
func FuzzSubs(id string) (names []string) {
	if !fuzzed[id] {
		return nil
	}
	for i := range props[id].Subs {
		if s := &props[id].Subs[i]; s.Deep >= 100000 {
			names = append(names, s.Name)
		}
	}
	return names
}

func fuzzSub() (string, *Sub) {
	id, name, _ := strings.Cut(os.Getenv("HZ_FUZZ"), "/")
	for i := range props[id].Subs {
		if s := &props[id].Subs[i]; s.Name == name {
			return id, s
		}
	}
	panic("no check " + os.Getenv("HZ_FUZZ"))
}

// FuzzSeeds gives the first inputs: random numbers.
func FuzzSeeds() (all [][]byte) {
	x := seedOf(1, os.Getenv("HZ_FUZZ"), os.Getenv("HZ_FUZZ_SEED"))
	for i := 0; i < 64; i++ {
		var b []byte
		for len(b) < 1<<(10+i%5) {
			x = splitmix(x)
			b = binary.LittleEndian.AppendUint64(b, x)
		}
		all = append(all, b)
	}
	return all
}

// FuzzTarget runs the case drawn from an input. The current case is in a
// journal and a failing one in a file, for the parent to replay.
func FuzzTarget() func(*testing.T, []byte) {
	id, s := fuzzSub()
	dir := os.Getenv("HZ_WORK")
	var j *journal
	return rapid.MakeFuzz(func(t *rapid.T) {
		c := s.Gen(t)
		js, err := json.Marshal(c)
		must(err)
		if j == nil {
			f, err := os.Create(filepath.Join(dir, fmt.Sprintf("fuzz-journal-%d.json", os.Getpid())))
			must(err)
			j = &journal{f}
		}
		j.write(s.Name, js)
		err = runCase(s, c, &Ctx{classes: map[string]int{}})
		j.done()
		if err != nil {
			b, _ := json.Marshal(&Replay{Property: id, Sub: s.Name, Error: err.Error(), Case: js})
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("fuzz-fail-%d-%d.json", os.Getpid(), len(js))), b, 0o644)
			t.Fatalf("failed: %v", err)
		}
	})
}
