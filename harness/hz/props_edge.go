package hz

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"

	"github.com/RomiChan/protobuf/proto"
)

// Inputs and contents in memory which may only be read, between pages which
// may not be touched at all.

const (
	edgeSize  = 64 << 10
	edgePage  = 16 << 10 // at least a page
	edgeCount = 48
)

// edges hands out such memory.
type edges struct {
	all  [][]byte
	used int
	full int  // contents there was no room for
	text bool // strings only: bytes are a message's own, and decoded into
}

var edgePool edges

func (e *edges) reset() {
	for _, r := range e.all[:e.used] {
		must(syscall.Mprotect(r, syscall.PROT_READ|syscall.PROT_WRITE))
	}
	e.used, e.full = 0, 0
}

// place copies b to the start or to the end of a region.
func (e *edges) place(b []byte, end bool) []byte {
	if len(b) == 0 || len(b) > edgeSize || e.used == edgeCount {
		e.full++
		return b
	}
	if e.used == len(e.all) {
		m, err := syscall.Mmap(-1, 0, edgeSize+2*edgePage, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		must(err)
		r := m[edgePage : edgePage+edgeSize : edgePage+edgeSize]
		must(syscall.Mprotect(r, syscall.PROT_READ|syscall.PROT_WRITE))
		e.all = append(e.all, r)
	}
	r := e.all[e.used]
	e.used++
	o := 0
	if end {
		o = edgeSize - len(b)
	}
	p := r[o : o+len(b) : o+len(b)]
	copy(p, b)
	must(syscall.Mprotect(r, syscall.PROT_READ))
	return p
}

func (e *edges) str(s string, end bool) string {
	if s == "" {
		return s
	}
	b := e.place([]byte(s), end)
	return unsafe.String(&b[0], len(b))
}

// contents moves the strings and bytes of a message. Lists and maps are
// those of the message.
func (e *edges) contents(v reflect.Value, end bool) {
	if e.used == edgeCount {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(e.str(v.String(), end))
	case reflect.Pointer:
		if !v.IsNil() {
			e.contents(v.Elem(), end)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
			}
			e.contents(f, end)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if b := v.Bytes(); len(b) > 0 && !e.text {
				v.SetBytes(e.place(b, end))
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			e.contents(v.Index(i), end)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m := reflect.MakeMapWithSize(v.Type(), v.Len())
		for it := v.MapRange(); it.Next(); {
			k, x := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			k.Set(it.Key())
			x.Set(it.Value())
			if k.Kind() == reflect.String {
				k.SetString(e.str(k.String(), end))
			}
			e.contents(x, end)
			m.SetMapIndex(k, x)
		}
		v.Set(m)
	}
}

// EdgeBytes is an input, and on which side the forbidden page follows.
type EdgeBytes struct {
	BytesCase
	End bool `json:"end"`
}

func genEdgeBytes(t *rapid.T) EdgeBytes {
	return EdgeBytes{genBytes(genOpts{big: 1})(t), chance(t, 75)}
}

func runEdgeDecode(c EdgeBytes, x *Ctx) error {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	b := c.input()
	start := func() reflect.Value {
		if c.Start != nil {
			return c.S.build(0, c.Start)
		}
		return c.S.New()
	}
	p := start()
	err := unmarshal(b, p)
	want := c.S.get(p)
	edgePool.reset()
	in := edgePool.place(b, c.End)
	p = start()
	err2 := unmarshal(in, p)
	if fmt.Sprint(err) != fmt.Sprint(err2) {
		return fmt.Errorf("the same input elsewhere in memory: %v, then %v (%s, %s)", err, err2, c.S, hexs(b))
	}
	if !bytes.Equal(in, b) {
		return fmt.Errorf("input changed")
	}
	if edgePool.used > 0 { // what was decoded must not need the input
		edgePool.reset()
		clear(edgePool.all[0][:len(b)])
		clear(edgePool.all[0][edgeSize-len(b):])
	}
	if err == nil {
		if d := c.S.diff(0, want, c.S.get(p)); d != "" {
			return fmt.Errorf("the same input elsewhere in memory gives another result: %s (%s, %s)", d, c.S, hexs(b))
		}
	}
	x.classIf(err == nil, "accepted")
	x.nontrivial = len(b) >= 4
	return nil
}

// EdgeVal is a message with its contents in such memory.
type EdgeVal struct {
	S   *Schema `json:"s"`
	V   *MV     `json:"v"`
	End bool    `json:"end"`
}

func genEdgeVal(t *rapid.T) EdgeVal {
	o := &genOpts{big: 2, budget: 60}
	s := genSchema(t, o)
	return EdgeVal{s, genMV(t, s, 0, o), chance(t, 75)}
}

func runEdgeEncode(c EdgeVal, x *Ctx) error {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	v := c.S.withoutGuards(0, c.S.norm(0, c.V))
	want := c.S.refEncode(nil, 0, v)
	p := c.S.build(0, c.V)
	edgePool.reset()
	edgePool.contents(p.Elem(), c.End)
	x.classIf(edgePool.full > 0, "some contents where they were")
	x.nontrivial = edgePool.used > 0
	if n := proto.Size(p.Interface()); n != len(want) {
		return fmt.Errorf("Size is %d, want %d (%s)", n, len(want), c.S)
	}
	b, err := proto.Marshal(p.Interface())
	if err != nil {
		return fmt.Errorf("Marshal: %v (%s)", err, c.S)
	}
	got, _, e := c.S.refDecode(b, nil)
	if e != nil {
		return fmt.Errorf("Marshal gives a bad encoding: %v (%s, %s)", e, c.S, hexs(b))
	}
	if d := c.S.diff(0, v, c.S.norm(0, got)); d != "" {
		return fmt.Errorf("the encoding is of another message: %s (%s)", d, c.S)
	}
	// a destination which holds such strings
	p = c.S.build(0, c.V)
	edgePool.reset()
	edgePool.text = true
	defer func() { edgePool.text = false }()
	edgePool.contents(p.Elem(), c.End)
	err = proto.Unmarshal(want, p.Interface())
	if err != nil {
		return fmt.Errorf("Unmarshal over the message: %v (%s, %s)", err, c.S, hexs(want))
	}
	return nil
}
