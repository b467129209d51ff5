//go:build go1.24

package hz

import (
	"fmt"
	"reflect"
	"runtime"
	"time"
	"unsafe"
	"weak"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// C26: the library keeps nothing of the messages, inputs and outputs of calls
// which have returned.

type RetainCase struct {
	FailCase
	Keep []bool `json:"keep"` // operations whose result the caller holds
}

type GrowCase struct {
	Ss  []*Schema `json:"ss"`
	Ops []FailOp  `json:"ops"`
	N   int       `json:"n"`
}

type weakPtr struct {
	what string
	p    weak.Pointer[byte]
}

// note makes weak pointers to the memory of v, which the caller allocated or
// got from a decode. Small objects without pointers are left out: the allocator
// lets them share a block.
func (s *Schema) note(ws []weakPtr, what string, mi int, v reflect.Value) []weakPtr {
	add := func(p unsafe.Pointer, size uintptr, part string) {
		if size >= 16 && len(ws) < 2000 {
			ws = append(ws, weakPtr{what + part, weak.Make((*byte)(p))})
		}
	}
	s.eachMessage(mi, v, 0, func(mi int, v reflect.Value) error {
		add(v.UnsafePointer(), v.Type().Elem().Size(), "")
		for i := range s.Msgs[mi].Fields {
			f := &s.Msgs[mi].Fields[i]
			if !f.proto() {
				continue
			}
			fv := s.goField(mi, i, v.UnsafePointer())
			one := func(e reflect.Value) {
				switch f.Kind {
				case KString:
					if e.Kind() == reflect.String {
						add(unsafe.Pointer(unsafe.StringData(e.String())), uintptr(e.Len()), ", a string")
					}
				case KBytes:
					add(unsafe.Pointer(unsafe.SliceData(e.Bytes())), uintptr(e.Cap()), ", bytes")
				}
			}
			switch f.Card {
			case CRep:
				add(fv.UnsafePointer(), uintptr(fv.Cap())*fv.Type().Elem().Size(), ", a list")
				for j := 0; j < fv.Len(); j++ {
					one(fv.Index(j))
				}
			case CMap:
				for it := fv.MapRange(); it.Next(); {
					one(it.Value())
				}
			case CPtr:
				if fv.Kind() == reflect.Pointer && !fv.IsNil() && f.Kind == KString {
					one(fv.Elem())
				} else if f.Kind == KBytes {
					one(fv)
				}
			default:
				one(fv)
			}
		}
		return nil
	})
	return ws
}

func noteBytes(ws []weakPtr, what string, b []byte) []weakPtr {
	if cap(b) >= 16 {
		ws = append(ws, weakPtr{what, weak.Make(unsafe.SliceData(b))})
	}
	return ws
}

func alive(ws []weakPtr) string {
	for _, w := range ws {
		if w.p.Value() != nil {
			return w.what
		}
	}
	return ""
}

func genRetain(t *rapid.T) RetainCase {
	c := RetainCase{FailCase: genFail(t)}
	for range c.Ops {
		c.Keep = append(c.Keep, chance(t, 30))
	}
	return c
}

// apart runs f on a stack of its own, which is gone afterwards.
func apart(f func()) {
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if r := <-done; r != nil {
		panic(r)
	}
}

func runRetain(c RetainCase, x *Ctx) error {
	before := runtime.NumGoroutine()
	var ws []weakPtr
	var kept []any
	apart(func() {
		dst := make([]reflect.Value, len(c.Ss))
		for i, s := range c.Ss {
			dst[i] = s.New()
		}
		for i, op := range c.Ops {
			s := c.Ss[op.T]
			keep := i < len(c.Keep) && c.Keep[i]
			switch op.Op {
			case 2:
				v := s.build(0, op.V)
				proto.Size(v.Interface())
				b, _ := marshal(v)
				ws = s.note(ws, fmt.Sprintf("message %d, which was encoded", i), 0, v)
				if keep {
					kept = append(kept, b)
				} else {
					ws = noteBytes(ws, fmt.Sprintf("output %d of Marshal", i), b)
				}
			case 3:
				v := s.New()
				ws = s.note(ws, fmt.Sprintf("argument %d", i), 0, v)
				proto.Unmarshal([]byte{8, 1}, v.Elem().Interface())
				proto.Marshal(v.Elem().Interface())
				proto.Unmarshal([]byte{8, 1}, 3)
			default:
				bc := BytesCase{W: op.W, E: op.E}
				b := append(make([]byte, 0, 16), bc.input()...)
				v := s.New()
				if op.Op == 1 {
					v = dst[op.T]
				}
				err := unmarshal(b, v)
				what := "decoded"
				if err != nil {
					what = "given to a failed decode"
				}
				ws = noteBytes(ws, fmt.Sprintf("input %d, %s", i, what), b)
				if keep {
					kept = append(kept, v.Interface())
				} else if op.Op == 0 {
					ws = s.note(ws, fmt.Sprintf("message %d, %s", i, what), 0, v)
				}
			}
		}
	})
	what := ""
	for i := 0; i < 12; i++ {
		runtime.GC()
		if i >= 1 {
			if what = alive(ws); what == "" {
				break
			}
		}
		if i > 4 {
			time.Sleep(time.Millisecond)
		}
	}
	runtime.KeepAlive(kept)
	if what != "" {
		return fmt.Errorf("after all calls returned and nothing of it is in use, the %s is still in memory (%d results are held)", what, len(kept))
	}
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i > 500 {
			return fmt.Errorf("%d goroutines before the calls, %d after", before, runtime.NumGoroutine())
		}
		time.Sleep(time.Millisecond)
	}
	x.nontrivial = len(ws) > 2
	x.classIf(len(kept) > 0, "with results held")
	return nil
}

func genGrow(t *rapid.T) GrowCase {
	f := genFail(t)
	c := GrowCase{Ss: f.Ss, Ops: f.Ops, N: 1000}
	return c
}

func heapNow() int64 {
	var ms runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

func runGrow(c GrowCase, x *Ctx) error {
	var inputs [][]byte
	for _, op := range c.Ops {
		bc := BytesCase{W: op.W, E: op.E}
		in := bc.input()
		if len(in) > 200 {
			in = in[:200]
		}
		inputs = append(inputs, in)
	}
	seed := seedOf(1, jsonStr(c.Ss[0].Msgs))
	calls := 0
	round := func(n int) int64 {
		a := heapNow()
		apart(func() {
			for i := 0; i < n; i++ {
				for j, op := range c.Ops {
					s := c.Ss[op.T]
					seed = splitmix(seed)
					calls++
					switch op.Op {
					case 2:
						v := s.build(0, op.V)
						proto.Size(v.Interface())
						marshal(v)
					case 3:
						proto.Unmarshal([]byte{8, 1}, int(seed))
						proto.Marshal(s.New().Elem().Interface())
					default:
						b := append([]byte{}, inputs[j]...)
						if len(b) > 0 && seed&3 != 0 {
							b[seed>>8%uint64(len(b))] = byte(seed >> 2)
						}
						v := s.New()
						if unmarshal(b, v) == nil && seed&12 == 0 {
							marshal(v)
						}
					}
				}
			}
		})
		return heapNow() - a
	}
	round(c.N / 2)
	limit := int64(c.N) * 8
	g := round(c.N)
	if g >= limit {
		if g2 := round(c.N); g2 >= limit {
			// three times as many calls
			if g3 := round(3 * c.N); g3 >= 2*limit {
				return fmt.Errorf("the memory in use grows with every call on the same types: %d and %d bytes in %d rounds each, %d bytes in %d rounds (%s)", g, g2, c.N, g3, 3*c.N, c.Ss[0])
			}
		}
	}
	x.nontrivial = calls >= 2000
	x.classIf(g > 1000, "over 1000 bytes more")
	return nil
}

func init() {
	addProp(&Prop{ID: "C26", Rule: "cases are a history of decodes (legal, with a planted defect, or edited) into fresh and shared messages, encodes and invalid calls on one or two message types new to the process, of which some results stay in use: weak pointers to everything else must be cleared by garbage collection (non-trivial: at least three objects); or such a history repeated over a thousand times with varied inputs while the heap must not grow (non-trivial: at least 2000 calls)", Subs: []Sub{
		sub("weak", 700, 30000, genRetain, runRetain),
		sub("growth", 40, 1500, genGrow, runGrow),
	}})
}
