package hz

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// C22: the tree with regenerated codecs, built as a second harness, answers
// the same questions as this one.

// RegenCase is a message type with values to encode and inputs to decode.
type RegenCase struct {
	S *Schema     `json:"s"`
	V []*MV       `json:"v,omitempty"`
	B []BytesCase `json:"b,omitempty"` // their schemas are unused
}

func genRegen(t *rapid.T) RegenCase {
	o := genOpts{big: 1, same: 12, zero: 20}
	if chance(t, 60) { // options and required fields
		o.cards = []int{35, 35, 12, 10, 5, 3}
	}
	c := RegenCase{}
	first := genBytes(o)(t)
	c.S = first.S
	first.S = nil
	c.B = append(c.B, first)
	for i := intn(t, 0, 3); i > 0; i-- {
		c.V = append(c.V, genMV(t, c.S, 0, &o))
	}
	if chance(t, 50) {
		w := &wireOpts{genOpts: &o, packed: true, unknown: true, pad: chance(t, 40), wide: true}
		b := BytesCase{W: genWire(t, c.S, w)}
		if chance(t, 40) {
			b.E = append(b.E, genEdit(t))
		}
		c.B = append(c.B, b)
	}
	return c
}

// Answer is what a tree makes of one value or input.
type Answer struct {
	B    []byte `json:"b,omitempty"`
	Size int    `json:"n,omitempty"`
	Err  string `json:"e,omitempty"`
	Got  *MV    `json:"g,omitempty"`
}

func answer(f func(a *Answer)) (a Answer) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			a = Answer{Err: fmt.Sprint("panic: ", r)}
		}
	}()
	f(&a)
	return
}

func answers(c *RegenCase) (as []Answer) {
	for _, v := range c.V {
		m := c.S.build(0, v)
		as = append(as, answer(func(a *Answer) {
			b, err := proto.Marshal(m.Interface())
			a.B = b
			if err != nil {
				a.Err = err.Error()
			}
			a.Size = proto.Size(m.Interface())
		}))
	}
	for i := range c.B {
		in := c.B[i].input()
		m := c.S.New()
		if c.B[i].Start != nil {
			m = c.S.build(0, c.B[i].Start)
		}
		as = append(as, answer(func(a *Answer) {
			if err := proto.Unmarshal(in, m.Interface()); err != nil {
				a.Err = err.Error()
			}
			a.Got = c.S.get(m)
		}))
	}
	return
}

// Serve answers cases, one per line.
func Serve(in io.Reader, out io.Writer) error {
	r, w := bufio.NewReaderSize(in, 1<<16), bufio.NewWriter(out)
	for {
		line, err := r.ReadBytes('\n')
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		c := &RegenCase{}
		if err := json.Unmarshal(line, c); err != nil {
			return err
		}
		b, err := json.Marshal(answers(c))
		if err != nil {
			return err
		}
		w.Write(append(b, '\n'))
		if err := w.Flush(); err != nil {
			return err
		}
	}
}

// The other tree.

func regenDir() string {
	exe, err := os.Executable()
	must(err)
	return filepath.Join(filepath.Dir(exe), "regen")
}

type server struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb bytes.Buffer
}

var (
	other     *server
	regenOnce sync.Once
	regenText string
)

func ask(js []byte) ([]byte, error) {
	if other == nil {
		s := &server{cmd: exec.Command(filepath.Join(regenDir(), "hz"), "serve")}
		s.cmd.Stderr = &s.errb
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var err error
		s.in, err = s.cmd.StdinPipe()
		must(err)
		out, err := s.cmd.StdoutPipe()
		must(err)
		must(s.cmd.Start())
		s.out = bufio.NewReaderSize(out, 1<<16)
		other = s
	}
	waiting.Store(true)
	defer waiting.Store(false)
	_, err := other.in.Write(append(js, '\n'))
	var line []byte
	if err == nil {
		line, err = other.out.ReadBytes('\n')
	}
	if err != nil {
		s := other
		other = nil
		s.in.Close()
		if werr := s.cmd.Wait(); werr != nil {
			return nil, childError(werr, "", s.errb.String())
		}
		must(err)
	}
	return line, nil
}

func (s *Schema) hasMap() bool {
	for _, m := range s.Msgs {
		for _, f := range m.Fields {
			if f.Card == CMap {
				return true
			}
		}
	}
	return false
}

func runRegen(c RegenCase, x *Ctx) error {
	regenOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(regenDir(), "status"))
		must(err)
		regenText = string(bytes.TrimSpace(b))
	})
	if regenText != "ok" {
		return fmt.Errorf("%.2000s", regenText)
	}
	js, err := json.Marshal(&c)
	must(err)
	want := answers(&c)
	line, err := ask(js)
	if err != nil {
		return fmt.Errorf("with regenerated codecs: %w", err)
	}
	var got []Answer
	must(json.Unmarshal(line, &got))
	if len(got) != len(want) {
		must(fmt.Errorf("%d answers for %d questions", len(got), len(want)))
	}
	maps := c.S.hasMap()
	for i := range want {
		a, b := &want[i], &got[i]
		if i < len(c.V) {
			x.class("encodings")
			x.nontrivial = x.nontrivial || len(a.B) >= 4
			x.classIf(len(a.B) == 0, "empty encodings")
		} else {
			x.class("inputs")
			x.classIf(a.Err != "", "failing inputs")
			x.nontrivial = x.nontrivial || len(c.B[i-len(c.V)].input()) >= 4
		}
		switch {
		case a.Err != b.Err:
			return fmt.Errorf("error %q, with regenerated codecs %q (%s)", a.Err, b.Err, c.S)
		case a.Size != b.Size:
			return fmt.Errorf("size %d, with regenerated codecs %d (%s)", a.Size, b.Size, c.S)
		case len(a.B) != len(b.B) || !maps && !bytes.Equal(a.B, b.B):
			return fmt.Errorf("encoding %s, with regenerated codecs %s (%s)", hexs(a.B), hexs(b.B), c.S)
		case maps && !bytes.Equal(a.B, b.B):
			// the order of the entries is free
			x.class("encodings with reordered map entries")
			m1, _, e1 := c.S.refDecode(a.B, nil)
			m2, _, e2 := c.S.refDecode(b.B, nil)
			if (e1 == nil) != (e2 == nil) || e1 == nil && c.S.diff(0, m1, m2) != "" {
				return fmt.Errorf("encoding %s, with regenerated codecs %s (%s)", hexs(a.B), hexs(b.B), c.S)
			}
		}
		if i >= len(c.V) {
			if (a.Got == nil) != (b.Got == nil) {
				return fmt.Errorf("only one tree gives a message (%s)", c.S)
			}
			if a.Got != nil {
				if d := c.S.diff(0, a.Got, b.Got); d != "" {
					return fmt.Errorf("decoded with regenerated codecs: %s (%s)", d, c.S)
				}
			}
		}
	}
	return nil
}

func init() {
	addProp(&Prop{ID: "C22", Rule: "cases are a message type, mostly of required and optional scalars, with values to encode and inputs to decode, legal and malformed; the tree as it is and a copy of it in which go generate has rewritten the codecs must give the same bytes, sizes, values and error texts; non-trivial: an encoding or input of at least four bytes", Subs: []Sub{
		sub("regenerated", 10000, 400000, genRegen, runRegen),
	}, Assume: []string{"go generate, run in proto/ of the copy, is how the generators are meant to be run"}})
}
