package hz

import (
	"fmt"
	"math/bits"
	"reflect"
	"runtime"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// C29: calls allocate the objects their result consists of, and no others.

// objects is a bound on the objects in which decoding keeps a message, without
// the message itself, and the number of times the maps in it are visited to
// encode it: each level of messages computes the size of those below.
func (s *Schema) objects(mi int, m *MV, depth int) (n, maps int) {
	elem := func(f *Field, v *Val) {
		switch f.Kind {
		case KString, KBytes:
			n++
		case KMessage:
			n++
			if v != nil && v.M != nil {
				a, b := s.objects(f.Msg, v.M, depth+1)
				n, maps = n+a, maps+b
			}
		}
	}
	for i := range s.Msgs[mi].Fields {
		f, v := &s.Msgs[mi].Fields[i], m.F[i]
		if f.proto() && f.Card == CMap {
			maps += depth + 2
		}
		if !f.proto() || v == nil {
			continue
		}
		switch f.Card {
		case CRep:
			n += 4 + 2*bits.Len(uint(len(v.L))) // a header each, perhaps
			for _, e := range v.L {
				elem(f, e)
			}
		case CMap:
			n += 20 + 4*len(v.L)
			for j := range v.L {
				elem(&Field{Kind: f.Key}, v.K[j])
				elem(f, v.L[j])
			}
		case CPtr:
			if f.Kind != KBytes && f.Kind != KMessage {
				n++
			}
			elem(f, v)
		default:
			elem(f, v)
		}
	}
	return n, maps
}

// mallocs is the number of objects which f allocates: the least of some runs,
// as the runtime allocates as well.
func mallocs(runs int, setup func(), f func()) uint64 {
	least := ^uint64(0)
	for ; runs > 0 && least > 0; runs-- {
		setup()
		var m1, m2 runtime.MemStats
		runtime.ReadMemStats(&m1)
		f()
		runtime.ReadMemStats(&m2)
		least = min(least, m2.Mallocs-m1.Mallocs)
	}
	return least
}

// replaced bounds the objects for values that later ones replace: for each
// record with a length a few.
func replaced(rs []Rec) (n int) {
	for i := range rs {
		r := &rs[i]
		if r.Bare {
			continue
		}
		if r.W == WLen {
			n += 3
		}
		n += replaced(r.Sub)
	}
	return n
}

type AllocCase struct {
	S    *Schema `json:"s"`
	V    *MV     `json:"v"`
	Over bool    `json:"over,omitempty"` // decode over a message that holds the same
	W    []Rec   `json:"w,omitempty"`    // another encoding
}

func genAlloc(t *rapid.T) AllocCase {
	o := &genOpts{big: 1, noStatic: chance(t, 50), budget: 200}
	switch weighted(t, 40, 60) {
	case 0: // scalars, most of them optional
		o.scalars, o.noStatic, o.cards = true, true, []int{30, 60, 5, 0, 5, 10}
	}
	c := AllocCase{S: genSchema(t, o), Over: chance(t, 15)}
	c.V = genMV(t, c.S, 0, o)
	c.W = genWire(t, c.S, &wireOpts{genOpts: o, packed: true, pad: chance(t, 30), unknown: chance(t, 30)})
	return c
}

const allocSlack = 4 // objects per call

func runAlloc(c AllocCase, x *Ctx) error {
	v := c.S.norm(0, c.V)
	n, maps := c.S.objects(0, v, 0)
	b := c.S.refEncode(nil, 0, v)
	x.classIf(n == 0 && len(b) > 8, "scalars only")
	x.classIf(maps > 0, "with maps")
	x.nontrivial = len(b) >= 8

	src := c.S.build(0, c.V).Interface()
	proto.Size(src)
	var err error
	var dst reflect.Value
	var arg any
	got := mallocs(3, func() {
		dst = c.S.New()
		if c.Over {
			dst = c.S.build(0, v)
		}
		arg = dst.Interface()
	}, func() { err = proto.Unmarshal(b, arg) })
	if err != nil {
		return fmt.Errorf("Unmarshal: %v (%s, %s)", err, c.S, hexs(b))
	}
	limit := uint64(n) + allocSlack
	if c.Over {
		limit *= 2
	}
	if got > limit {
		return fmt.Errorf("Unmarshal of %d bytes allocates %d objects, its result has no more than %d (%s, %s)", len(b), got, n, c.S, hexs(b))
	}
	if b := encRecs(nil, c.W); len(b) > 0 {
		v, d, e := c.S.refDecode(b, nil)
		if e != nil {
			panic(harnessError{fmt.Errorf("generator made an illegal encoding: %v", e)})
		}
		n, _ := c.S.objects(0, v, 0)
		n += replaced(c.W)
		got := mallocs(3, func() { arg = c.S.New().Interface() }, func() { err = proto.Unmarshal(b, arg) })
		if err != nil {
			return fmt.Errorf("Unmarshal: %v (%s, %s)", err, c.S, hexs(b))
		}
		if got > uint64(n)+allocSlack {
			return fmt.Errorf("Unmarshal of %d bytes allocates %d objects, there is use for no more than %d (%s, %s)", len(b), got, n, c.S, hexs(b))
		}
		x.wire(d, len(b))
	}
	var out []byte
	got = mallocs(3, func() {}, func() { out, err = proto.Marshal(src) })
	if err != nil {
		return fmt.Errorf("Marshal: %v (%s)", err, c.S)
	}
	if limit := uint64(1 + allocSlack + 2*maps); got > limit {
		return fmt.Errorf("Marshal allocates %d objects for %d bytes (%s, %s)", got, len(out), c.S, hexs(b))
	}
	got = mallocs(3, func() {}, func() { proto.Size(src) })
	if limit := uint64(allocSlack + 2*maps); got > limit {
		return fmt.Errorf("Size allocates %d objects (%s, %s)", got, c.S, hexs(b))
	}
	return nil
}

func init() {
	addProp(&Prop{ID: "C29", Rule: "cases are a random message type, often one of scalars and options only, and a value; the objects allocated by decoding its encoding, encoding and sizing are counted and compared with the objects the results consist of; non-trivial: an encoding of at least eight bytes", Subs: []Sub{
		sub("objects", 6000, 180000, genAlloc, runAlloc),
	}})
}
