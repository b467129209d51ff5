package hz

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strconv"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"

	"github.com/RomiChan/protobuf/proto"
)

// Lengths beyond 31 and 32 bits. The payloads are zero pages which are mapped
// and never written, so they take no memory until they are copied.

type GiantT struct {
	N int64                `protobuf:"varint,1,opt"`
	M *GiantT              `protobuf:"bytes,2,opt"`
	B []byte               `protobuf:"bytes,3,opt"`
	S string               `protobuf:"bytes,4,opt"`
	L []string             `protobuf:"bytes,5,rep"`
	A map[int32]string     `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	O proto.Option[string] `protobuf:"bytes,7,opt"`
	P *string              `protobuf:"bytes,8,opt"`
	Y [][]byte             `protobuf:"bytes,9,rep"`
	R *GiantT              `protobuf:"bytes,16,opt"`
}

type GiantCase struct {
	Op    string  `json:"op"` // skip, size, encode, decode
	Len   []int64 `json:"len"`
	Field int     `json:"f"` // 3 to 9
	Depth int     `json:"depth,omitempty"`
	Cut   int64   `json:"cut,omitempty"`  // bytes missing at the end
	Wrap  int64   `json:"wrap,omitempty"` // added to the length, in units of 1<<32
}

var giantMax int64 = 1<<33 + 1<<20 // room for one payload

func genGiantLen(t *rapid.T) int64 {
	n := pick(t, []int64{1 << 31, 1 << 31, 1 << 32, 1 << 32, 3 << 31, 1 << 33})
	return n + int64(intn(t, -20, 20))
}

func genGiant(op string) func(t *rapid.T) GiantCase {
	return func(t *rapid.T) GiantCase {
		c := GiantCase{Op: op, Field: intn(t, 3, 9), Depth: pick(t, []int{0, 0, 1, 2, 5})}
		n := 1
		switch op {
		case "size":
			n = intn(t, 1, 4)
		case "skip":
			switch weighted(t, 50, 30, 20) {
			case 1:
				c.Cut = pick(t, []int64{1, 2, 100, 1 << 20, 1 << 30})
			case 2:
				c.Wrap = int64(pick(t, []int{1, 2, 3, 1 << 10, 1 << 30}))
			}
			c.Field = pick(t, []int{0, 0, c.Field})
		}
		for i := 0; i < n; i++ {
			c.Len = append(c.Len, genGiantLen(t))
		}
		switch {
		case op == "far":
			c.Len[0] = pick(t, []int64{1 << 31, 1 << 32, 1<<32 + 1<<31}) + int64(intn(t, -8, 64))
		case op == "encode" || op == "decode": // these are copied
			c.Len[0] = 1<<31 + int64(intn(t, -20, 20))
		case c.Wrap > 0:
			c.Len[0] = int64(intn(t, 0, 300))
		}
		return c
	}
}

var giantMem []byte

// giantBytes gives n zero bytes, which stay so.
func giantBytes(n int64) []byte {
	if giantMem == nil {
		m, err := syscall.Mmap(-1, 0, int(giantMax), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			return nil
		}
		giantMem = m
	}
	return giantMem[:n:n]
}

// giantLock makes the workers take turns where memory is really used.
func giantLock() func() {
	waiting.Store(true)
	defer waiting.Store(false)
	f, err := os.OpenFile(filepath.Join(os.Getenv("HZ_WORK"), "giant.lock"), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		return func() {}
	}
	syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
	caseMem.Store(8 << 30)
	return func() {
		caseMem.Store(0)
		f.Close()
	}
}

func lenHeader(num int, n int64) []byte { return uvarint(uvarint(nil, tagOf(num, WLen)), uint64(n)) }

// giantSize is the length of the encoding of a record.
func giantSize(num int, n int64) int64 { return int64(len(lenHeader(num, n))) + n }

func runGiant(c GiantCase, x *Ctx) error {
	if strconv.IntSize == 32 || os.Getenv("HZ_VARIANT") != "" {
		return nil
	}
	if giantBytes(1) == nil {
		x.class("no room for long payloads")
		return nil
	}
	x.nontrivial = true
	x.class(c.Op)
	switch c.Op {
	case "far":
		return runFar(c)
	case "size":
		m := &GiantT{N: 1}
		want := int64(2)
		for i, n := range c.Len {
			b := giantBytes(n)
			s := unsafe.String(&b[0], len(b))
			num := 3 + (c.Field-3+i)%7
			want += giantSize(num, n)
			switch num {
			case 3:
				m.B = b
			case 4:
				m.S = s
			case 5:
				m.L = append(m.L, s)
			case 6:
				m.A = map[int32]string{1: s}
				entry := 5 + giantSize(2, n)
				want += giantSize(6, entry) - giantSize(6, n)
			case 7:
				m.O = proto.Some(s)
			case 8:
				m.P = &s
			case 9:
				m.Y = append(m.Y, b)
			}
		}
		for i := 0; i < c.Depth; i++ {
			if i%2 == 0 {
				m, want = &GiantT{R: m}, giantSize(16, want)
			} else {
				m, want = &GiantT{M: m}, giantSize(2, want)
			}
		}
		if n := proto.Size(m); int64(n) != want {
			return fmt.Errorf("Size is %d, want %d", n, want)
		}
		return nil
	case "encode":
		defer giantLock()()
		defer debug.FreeOSMemory()
		b := giantBytes(c.Len[0])
		m := &GiantT{N: 5, R: &GiantT{N: 6}}
		if c.Field%2 == 0 {
			m.B = b
			c.Field = 3
		} else {
			m.S, c.Field = unsafe.String(&b[0], len(b)), 4
		}
		pre := append([]byte{8, 5}, lenHeader(c.Field, c.Len[0])...)
		post := append(lenHeader(16, 2), 8, 6)
		if c.Depth > 0 {
			n := int64(len(pre)+len(post)) + c.Len[0]
			m = &GiantT{M: m}
			pre = append(lenHeader(2, n), pre...)
		}
		out, err := proto.Marshal(m)
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		if int64(len(out)) != int64(len(pre)+len(post))+c.Len[0] {
			return fmt.Errorf("Marshal gives %d bytes", len(out))
		}
		if !bytes.HasPrefix(out, pre) || !bytes.HasSuffix(out, post) {
			return fmt.Errorf("Marshal gives %x...%x, want %x...%x", out[:len(pre)], out[len(out)-len(post):], pre, post)
		}
		return nil
	}
	// skip, decode: an unknown or known field in nested messages
	num := c.Field
	if num == 0 {
		num = 77
	}
	claim := c.Len[0] + c.Wrap<<32
	if c.Op == "skip" && num != 77 && c.Cut == 0 && c.Wrap == 0 {
		num = 77 // would be copied
	}
	pre, post := lenHeader(num, claim), []byte{8, 7}
	if c.Op == "decode" && num == 6 {
		pre = append(lenHeader(6, giantSize(2, claim)), lenHeader(2, claim)...)
	}
	inner := int64(len(pre)) + c.Len[0]
	tail := int64(len(post))
	for i := 0; i < c.Depth; i++ {
		f := 2
		if i%2 == 1 {
			f = 16
		}
		h := lenHeader(f, inner+tail)
		inner += int64(len(h)) + tail
		pre = append(h, pre...)
		post = append(post, 8, byte(i+8))
		tail = 2
	}
	total := int64(len(pre)) + c.Len[0] + int64(len(post))
	if c.Op == "decode" {
		defer giantLock()()
		defer debug.FreeOSMemory()
	}
	b := giantBytes(total)
	copy(b, pre)
	copy(b[total-int64(len(post)):], post)
	defer clear(b[:len(pre)])
	defer clear(b[total-int64(len(post)):])
	m := &GiantT{}
	var err error
	if c.Cut > 0 {
		cut := int64(len(post)) + c.Cut
		err = proto.Unmarshal(b[:total-cut:total-cut], m)
	} else {
		err = proto.Unmarshal(b, m)
	}
	if c.Cut > 0 || c.Wrap > 0 {
		if err == nil {
			return fmt.Errorf("field %d of length %d accepted in %d bytes, %d less", num, claim, total, c.Cut)
		}
		if !errors.Is(err, io.ErrUnexpectedEOF) {
			return fmt.Errorf("cut field %d of length %d: %v, want %v", num, claim, err, io.ErrUnexpectedEOF)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("field %d of length %d: %v", num, claim, err)
	}
	for i := c.Depth; ; i-- {
		want := int64(i + 7)
		if m.N != want {
			return fmt.Errorf("field after a field of length %d: %d, want %d", claim, m.N, want)
		}
		if i == 0 {
			break
		}
		next := m.M
		if i%2 == 0 {
			next = m.R
		}
		if next == nil {
			return fmt.Errorf("message which contains a field of length %d: missing", claim)
		}
		m = next
	}
	if c.Op == "decode" {
		got := -1
		switch num {
		case 3:
			got = len(m.B)
		case 4:
			got = len(m.S)
		case 5:
			got = len(m.L[0])
		case 6:
			got = len(m.A[0])
		case 7:
			got = len(m.O.Unwrap())
		case 8:
			got = len(*m.P)
		case 9:
			got = len(m.Y[0])
		}
		if int64(got) != c.Len[0] {
			return fmt.Errorf("field %d of length %d: has length %d", num, claim, got)
		}
	} else if m.B != nil || m.S != "" || m.L != nil || m.A != nil || m.O.IsSome() || m.P != nil || m.Y != nil {
		return errors.New("an unknown field changed others")
	}
	return nil
}

// runFar uses a type with fields more than 2 or 4 GB into the struct. Nearly
// all of it is never touched.
func runFar(c GiantCase) error {
	defer giantLock()()
	defer debug.FreeOSMemory()
	far := reflect.TypeFor[int64]()
	rt := reflect.StructOf([]reflect.StructField{
		{Name: "S", Type: reflect.TypeFor[string](), Tag: `protobuf:"bytes,1,opt"`},
		{Name: "Near", Type: far, Tag: `protobuf:"varint,2,opt"`},
		{Name: "Guard", Type: reflect.ArrayOf(int(c.Len[0]), reflect.TypeFor[byte]())},
		{Name: "Far", Type: far, Tag: `protobuf:"zigzag64,3,opt"`},
		{Name: "Opt", Type: reflect.TypeFor[proto.Option[uint32]](), Tag: `protobuf:"fixed32,4,opt"`},
		{Name: "Bool", Type: reflect.TypeFor[bool](), Tag: `protobuf:"varint,5,opt"`},
	})
	v := reflect.New(rt)
	b := []byte{10, 1, 'x', 16, 7, 24, 9, 37, 1, 2, 3, 4, 40, 1}
	if err := proto.Unmarshal(b, v.Interface()); err != nil {
		return fmt.Errorf("Unmarshal: %v", err)
	}
	e := v.Elem()
	if s, n, f, o, t := e.Field(0).String(), e.Field(1).Int(), e.Field(3).Int(), e.Field(4).Interface().(proto.Option[uint32]), e.Field(5).Bool(); s != "x" || n != 7 || f != -5 || o != proto.Some(uint32(0x04030201)) || !t {
		return fmt.Errorf("fields after %d bytes: %q %d %d %v %v", c.Len[0], s, n, f, o, t)
	}
	if n := proto.Size(v.Interface()); n != len(b) {
		return fmt.Errorf("Size with fields after %d bytes: %d", c.Len[0], n)
	}
	if out, err := proto.Marshal(v.Interface()); err != nil || !bytes.Equal(out, b) {
		return fmt.Errorf("Marshal with fields after %d bytes: %x, %v", c.Len[0], out, err)
	}
	return nil
}
