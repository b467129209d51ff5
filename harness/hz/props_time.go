package hz

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"

	"github.com/RomiChan/protobuf/proto"
)

// C33: the time of a call grows no faster than the size of what it works on.

// threadCPU is the CPU time of the calling thread.
func threadCPU() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0); e != 0 { // CLOCK_THREAD_CPUTIME_ID
		panic(harnessError{e})
	}
	return time.Duration(ts.Nano())
}

// timed runs f where neither the scheduler nor the collector adds to its time.
func timed(f func()) time.Duration {
	t := threadCPU()
	f()
	return threadCPU() - t
}

// TimeCase is a family of inputs, one for each size.
type TimeCase struct {
	Mode string    `json:"mode"`
	S    *Schema   `json:"s,omitempty"`
	W    []Rec     `json:"w,omitempty"`    // repeat, steps: the unit
	Tail []byte    `json:"tail,omitempty"` // repeat: what comes last, a defect perhaps
	V    *MV       `json:"v,omitempty"`    // keys, long: the field that grows has one element
	F    int       `json:"f,omitempty"`
	Deep *DeepCase `json:"deep,omitempty"`
	Big  bool      `json:"big,omitempty"`
}

func genTime(t *rapid.T) TimeCase {
	o := &genOpts{budget: 40}
	c := TimeCase{}
	switch weighted(t, 45, 12, 15, 10, 8, 10) {
	case 0, 1:
		c.Mode = "repeat"
		if chance(t, 25) {
			c.Mode = "steps"
		}
		c.S = genSchema(t, o)
		w := &wireOpts{genOpts: o, packed: true, pad: chance(t, 20), unknown: chance(t, 30), maxRecs: intn(t, 1, 6), density: pick(t, []int{20, 60, 100})}
		c.W = genWire(t, c.S, w)
		if chance(t, 30) {
			c.Tail = pick(t, [][]byte{{0x80}, {0x0f}, {0x0a, 0x7f}, {0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}})
		}
	case 2: // many entries or elements
		c.Mode = "many"
		card := pick(t, []string{CMap, CRep, CMap})
		k := pick(t, scalarKinds)
		f := Field{Num: intn(t, 1, 40), Kind: k, Card: card}
		if card == CMap {
			f.Key = pick(t, []Kind{KInt32, KUint64, KSint64, KFixed32, KSfixed64, KString, KString})
		}
		key := KInt32
		if card == CMap {
			key = f.Key
		}
		c.S = &Schema{Msgs: []Msg{{Fields: []Field{f}}}}
		if chance(t, 30) { // in a nested message
			c.S = &Schema{Msgs: []Msg{{Fields: []Field{{Num: intn(t, 1, 20), Kind: KMessage, Card: COpt, Msg: 1}}}, c.S.Msgs[0]}}
		}
		c.V = &MV{F: []*Val{{K: []*Val{genScalar(t, key, o)}, L: []*Val{genScalar(t, k, o)}}}}
	case 3: // a long payload
		c.Mode = "long"
		c.S = &Schema{Msgs: []Msg{{Fields: []Field{{Num: intn(t, 1, 40), Kind: pick(t, []Kind{KString, KBytes}), Card: pick(t, []string{CImp, COpt, CRep, CPtr, CReq, CMap})}}}}}
		f := &c.S.Msgs[0].Fields[0]
		if f.Card == CPtr && f.Kind == KBytes || f.Card == COpt && f.Kind == KBytes {
			f.Card = CImp
		}
		if f.Card == CMap {
			f.Key = pick(t, []Kind{KInt32, KString})
		}
		c.F = intn(t, 0, 1) // not a field, or this one
	case 4: // a different number in each record
		c.Mode = "numbers"
		c.S = genSchema(t, o)
		c.F = intn(t, 0, 3)
	default:
		c.Mode = "deep"
		c.Deep = &DeepCase{Static: pick(t, deepTypes), Seed: u64(t)}
	}
	c.Big = c.Mode != "deep" && chance(t, 15)
	return c
}

// input gives an encoding of about n bytes, and its depth.
func (c *TimeCase) input(n int) (b []byte, depth int) {
	switch c.Mode {
	case "repeat", "steps":
		unit := encRecs(nil, c.W)
		if len(unit) == 0 {
			return nil, 1
		}
		size := uint64(1)
		for i := range c.S.Msgs {
			size = max(size, uint64(c.S.Type(i).Size()))
		}
		k := 1 + n/len(unit)
		k = min(k, 1+int(64<<20/(size*uint64(len(c.W)+1))))
		b = bytes.Repeat(unit, k)
		if c.Mode == "repeat" {
			b = append(b, c.Tail...)
		}
		return b, 1
	case "many":
		mi := len(c.S.Msgs) - 1
		f := &c.S.Msgs[mi].Fields[0]
		v := &Val{}
		for i := 0; i < n/8; i++ {
			v.L = append(v.L, derive(f.Kind, c.V.F[0].L[0], i))
			if f.Card == CMap {
				v.K = append(v.K, derive(f.Key, c.V.F[0].K[0], i))
			}
		}
		b = nil
		for i := range v.L { // record by record: distinct keys mostly
			one := &Val{L: v.L[i : i+1]}
			if f.Card == CMap {
				one.K = v.K[i : i+1]
			}
			b = c.S.refEncode(b, mi, &MV{F: []*Val{one}})
		}
		if mi > 0 {
			b = append(uvarint(uvarint(nil, tagOf(c.S.Msgs[0].Fields[0].Num, WLen)), uint64(len(b))), b...)
		}
		return b, 1
	case "numbers":
		for i := 0; len(b) < n; i++ {
			num := 1000 + i*7
			if c.S.Msgs[0].byNum(uint64(num)) >= 0 {
				continue
			}
			switch c.F {
			case 0:
				b = append(uvarint(b, tagOf(num, WVarint)), 1)
			case 1:
				b = append(uvarint(b, tagOf(num, WLen)), 0)
			case 2:
				b = append(uvarint(b, tagOf(num, WLen)), 1, byte(i))
			default:
				b = append(uvarint(b, tagOf(num, WI32)), 1, 2, 3, byte(i))
			}
		}
		return b, 1
	case "long":
		f := &c.S.Msgs[0].Fields[0]
		num := f.Num
		if c.F == 0 {
			num += 50
		}
		payload := bytes.Repeat([]byte{'x'}, n)
		if f.Card == CMap && c.F == 1 {
			payload = append(uvarint(uvarint(nil, tagOf(2, WLen)), uint64(n)), payload...)
		}
		return append(uvarint(uvarint(nil, tagOf(num, WLen)), uint64(len(payload))), payload...), 1
	}
	d := *c.Deep
	d.Depth = max(n/32, 1)
	s := staticSchemaOf(d.Static)
	b, _ = d.encode(s, d.levels(s))
	return b, d.Depth
}

// timeFloor is the least time per byte that counts as slow at all, timeSlack
// how many times slower per byte a large input may be than a small one: caches
// and the growth of maps account for less than a tenth of it.
const (
	timeFloor = 15 * time.Nanosecond
	timeSlack = 20
)

func runTime(c TimeCase, x *Ctx) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	s := c.S
	if c.Mode == "deep" {
		s = staticSchemaOf(c.Deep.Static)
	}
	n1, n2 := 2<<10, 128<<10
	switch c.Mode {
	case "deep":
		n2 = 40 << 10
	case "long":
		n2 = 1 << 20
	}
	if c.Big {
		n2 *= 6
	}
	b1, d1 := c.input(n1)
	b2, d2 := c.input(n2)
	if len(b1) == 0 || len(b2) < 4*len(b1) {
		return nil
	}
	unit := len(b2)
	if c.Mode == "steps" {
		unit = len(encRecs(nil, c.W))
	}
	decode := func(b []byte) (v reflect.Value, err error) {
		v = s.New()
		arg := v.Interface()
		for len(b) > 0 && err == nil {
			k := min(unit, len(b))
			err = proto.Unmarshal(b[:k], arg)
			b = b[k:]
		}
		return v, err
	}
	x.class(c.Mode)
	m1, _ := decode(b1)
	m2, err := decode(b2)
	x.classIf(err != nil, "rejected")
	x.nontrivial = len(b2) >= 64<<10 || c.Mode == "deep"
	a1, a2 := m1.Interface(), m2.Interface()
	size1, size2 := len(b1), len(b2)
	size := func(b []byte, v *any) func() { return func() { proto.Size(*v) } }
	enc := func(b []byte, v *any) func() { return func() { proto.Marshal(*v) } }
	dec := func(b []byte, v *any) func() { return func() { decode(b) } }
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	defer debug.SetMemoryLimit(debug.SetMemoryLimit(1 << 30))
	for _, op := range []struct {
		name string
		f    func(b []byte, v *any) func()
		deep bool // the lengths of nested messages are found again at each level
	}{{"Unmarshal", dec, false}, {"Size", size, true}, {"Marshal", enc, true}} {
		if op.deep {
			size1, size2 = max(proto.Size(a1), 1), max(proto.Size(a2), 1)
			// what was decoded can be much smaller than the input
			size1 = max(size1, 64)
		}
		small, large := op.f(b1, &a1), op.f(b2, &a2)
		var t1, t2 time.Duration
		for i := 0; i < 3; i++ {
			t1 = max(t1, timed(small))
		}
		rate := max(t1/time.Duration(size1), timeFloor)
		limit := rate * timeSlack * time.Duration(size2)
		if op.deep && c.Mode == "deep" {
			limit = limit * time.Duration(d2) / time.Duration(d1)
		}
		limit = max(limit, 5*time.Millisecond)
		for i := 0; i < 4; i++ {
			if t2 = timed(large); t2 <= limit {
				break
			}
			runtime.GC()
		}
		if t2 > limit {
			return fmt.Errorf("%s takes %v for %d bytes, and %v for %d bytes: %d times as much for each byte (%s, %s)",
				op.name, t1, size1, t2, size2, t2/time.Duration(size2)/max(t1/time.Duration(size1), 1), s, c.Mode)
		}
	}
	return nil
}

// Dia types: each refers to the next one in several fields, so that there are
// a huge number of ways from the first to the last one.
type Dia[S, T any] struct {
	A *T            `protobuf:"bytes,1,opt"`
	B []*T          `protobuf:"bytes,2,rep"`
	M map[int32]*T  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	N map[string]*T `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	D *T            `protobuf:"bytes,5,opt"`
	X int64         `protobuf:"zigzag64,6,opt"`
}

type diaEnd[S any] struct {
	X int64 `protobuf:"varint,1,opt"`
}

func dia[S any]() {
	diaTypes = append(diaTypes, reflect.TypeFor[Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, Dia[S, diaEnd[S]]]]]]]]]]]]]]]]]]]]]]]]]]())
}

var diaTypes []reflect.Type

func init() {
	dia[digit0]()
	dia[digit1]()
	dia[digit2]()
	dia[digit3]()
	dia[digit4]()
	dia[digit5]()
	dia[digit6]()
	dia[pair[digit0, digit1]]()
	dia[pair[digit1, digit0]]()
	dia[pair[digit2, digit0]]()
	dia[pair[digit3, digit0]]()
	dia[pair[digit4, digit0]]()
}

type DiaCase struct {
	Salt int `json:"salt"`
	Down int `json:"down"` // where the first use starts
	Op   int `json:"op"`
}

func genDia(t *rapid.T) DiaCase {
	return DiaCase{Salt: intn(t, 0, len(diaTypes)-1), Down: intn(t, 0, 3), Op: intn(t, 0, 2)}
}

var diaUsed = map[int]bool{}

func runDia(c DiaCase, x *Ctx) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	rt := diaTypes[c.Salt]
	for i := 0; i < c.Down; i++ {
		rt = rt.Field(0).Type.Elem()
	}
	x.nontrivial = !diaUsed[c.Salt]
	diaUsed[c.Salt] = true
	v := reflect.New(rt).Interface()
	var err error
	d := timed(func() {
		switch c.Op {
		case 0:
			proto.Size(v)
		case 1:
			_, err = proto.Marshal(v)
		default:
			err = proto.Unmarshal(nil, v)
		}
	})
	if err != nil {
		return fmt.Errorf("empty message: %v", err)
	}
	if d > diaLimit {
		return fmt.Errorf("the first use of a type that refers to %d others, in several fields each, takes %v", 24-c.Down, d)
	}
	return nil
}

// diaLimit is some hundred times what the first use takes.
const diaLimit = 3 * time.Second

func init() {
	addProp(&Prop{ID: "C33", Rule: "cases are a random message type and a family of inputs which grow: a unit of records repeated, in one input or one decode for each, with a defect at the end perhaps; a list or map of many different elements; unknown fields of many numbers; one long payload; messages nested deeply; the CPU time of decoding, sizing and encoding the large one is compared with that of the small one; or types which refer to each other in very many ways, used for the first time; non-trivial: at least 64 KB, or nesting, or a type not used before in its process", Subs: []Sub{
		sub("growth", 1200, 24000, genTime, runTime),
		sub("types", 64, 400, genDia, runDia),
	}, Assume: []string{"times are CPU times of a thread, compared with a slack of 20 times: only growth that is a different order is found"}})
}
