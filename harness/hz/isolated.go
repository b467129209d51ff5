package hz

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"syscall"

	"pgregory.net/rapid"
)

// isolated makes a check whose cases run in a process of their own, so that
// nothing of earlier cases is left in the caches of the code under test.
func isolated[T any](prop, name string, quick, deep int, gen func(t *rapid.T) T, note func(c T, x *Ctx), run func(c T, x *Ctx) error) Sub {
	s := sub(name, quick, deep, gen, func(c T, x *Ctx) error {
		note(c, x)
		return runChild(prop, name, c)
	})
	inner[prop+"/"+name] = sub(name, 0, 0, gen, run)
	return s
}

// inner holds what the child process runs.
var inner = map[string]Sub{}

// childAttempts is how often a case is run, for those with concurrency.
var childAttempts = 1

func runChild(prop, name string, c any) error {
	js, err := json.Marshal(c)
	must(err)
	in, _ := json.Marshal(&Replay{Property: prop, Sub: name, Case: js})
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, "isolated")
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	waiting.Store(true)
	err = cmd.Run()
	waiting.Store(false)
	if err == nil {
		return nil
	}
	return childError(err, out.String(), errb.String())
}

// RunIsolated is the child process.
func RunIsolated(r io.Reader) (err error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(ExitHarness)
	}
	s, ok := inner[rp.Property+"/"+rp.Sub]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check")
		os.Exit(ExitHarness)
	}
	c := s.New()
	if err := json.Unmarshal(rp.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(ExitHarness)
	}
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				fmt.Fprintln(os.Stderr, h.err)
				os.Exit(ExitHarness)
			}
			panic(r)
		}
	}()
	go watchdog()
	caseNo.Add(1)
	inCase.Store(true)
	return runCase(&s, c, &Ctx{classes: map[string]int{}})
}

// Probes demonstrate known findings.

const (
	ProbeFails   = 20
	ProbeCrashes = 21
)

type probe struct {
	run     func() error // an error means that the finding shows
	crashes bool
}

var probes = map[string]probe{}

func ProbeMayCrash(id string) bool { return probes[id].crashes }

func RunProbe(id string) {
	p, ok := probes[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no probe", id)
		os.Exit(ExitHarness)
	}
	if err := p.run(); err != nil {
		fmt.Println(err)
		os.Exit(ProbeFails)
	}
}
