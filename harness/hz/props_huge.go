package hz

import (
	"fmt"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// Lists and maps of up to hundreds of thousands of elements (C11, C12).

type HugeStep struct {
	N      int  `json:"n"`
	Packed bool `json:"packed,omitempty"`
	Merge  int  `json:"dup,omitempty"` // maps: so many keys are those of earlier steps
}

type HugeCase struct {
	F     Field      `json:"f"`
	Base  *Val       `json:"base"`
	Steps []HugeStep `json:"steps"`
	Start int        `json:"start,omitempty"` // elements in the destination
	Spare int        `json:"spare,omitempty"` // and in its spare capacity
}

var hugeLens = []int{1, 5119, 5120, 5121, 8192, 10240, 10241, 16384, 16385, 20480, 20481, 32767, 32768, 32769, 40960, 40961, 65535, 65536, 65537, 81920, 81921, 100000, 131072, 131073, 163841}

func genHuge(card string) func(t *rapid.T) HugeCase {
	return func(t *rapid.T) HugeCase {
		c := HugeCase{F: Field{Num: pick(t, []int{1, 15, 16, 2047, 2048, 1<<29 - 1}), Card: card}}
		c.F.Kind = pick(t, append([]Kind{KMessage}, scalarKinds...))
		if c.F.Kind == KMessage {
			c.F.Msg = 1
		} else {
			c.Base = genScalar(t, c.F.Kind, &genOpts{})
			if c.Base.R > 0 || len(c.Base.S) > 20 {
				c.Base = &Val{S: []byte("base")}
			}
		}
		if card == CMap {
			for c.F.Key = KBool; c.F.Key == KBool; {
				c.F.Key = pick(t, mapKeyKinds)
			}
		}
		left := pick(t, []int{30000, 70000, 200000})
		if card == CMap {
			left /= 2
		}
		for n := intn(t, 1, 4); n > 0 && left > 0; n-- {
			st := HugeStep{N: pick(t, hugeLens), Packed: c.F.packable() && chance(t, 50)}
			if d, ok := dictInt(t, 400, 1, left); ok {
				st.N = d
			}
			st.N = min(left, st.N)
			if card == CMap && len(c.Steps) > 0 {
				st.Merge = st.N * pick(t, []int{0, 1, 5, 10}) / 10
			}
			left -= st.N
			c.Steps = append(c.Steps, st)
		}
		if card == CRep && chance(t, 40) {
			c.Start, c.Spare = pick(t, []int{0, 1, 3, 100, 32768}), pick(t, []int{0, 1, 2, 50, 4096})
		}
		return c
	}
}

// elem is the i-th element.
func (c *HugeCase) elem(i int) *Val {
	if c.F.Kind == KMessage {
		return &Val{M: &MV{F: []*Val{{B: uint64(i) + 1}}}}
	}
	return derive(c.F.Kind, c.Base, i)
}

// key is the i-th key.
func (c *HugeCase) key(i int) *Val {
	if c.F.Key == KString {
		return &Val{S: []byte(fmt.Sprint(i))}
	}
	if c.F.Key.is32() {
		return &Val{B: uint64(uint32(i) * 0x9e3779b1)}
	}
	return &Val{B: uint64(i) * 0x9e3779b97f4a7c15}
}

func runHuge(c HugeCase, x *Ctx) error {
	s := &Schema{Msgs: []Msg{{Fields: []Field{{Num: 1 << 20, Kind: KUint64, Card: CImp}, c.F, {Num: 1<<20 + 1, Kind: KUint64, Card: CImp}}}, {Fields: []Field{{Num: 1, Kind: KInt64, Card: CImp}}}}}
	f := &s.Msgs[0].Fields[1]
	model := s.newMV(0)
	model.F[0], model.F[2] = &Val{B: 1<<64 - 2}, &Val{B: 77}
	start := s.newMV(0)
	start.F[0], start.F[2] = model.F[0], model.F[2]
	all := &Val{}
	if c.Start+c.Spare > 0 {
		v := &Val{}
		for i := 0; i < c.Start; i++ {
			e := c.elem(i)
			v.L, all.L = append(v.L, e), append(all.L, e)
		}
		for i := 0; i < c.Spare; i++ {
			v.Spare = append(v.Spare, c.elem(i+11))
		}
		start.F[1] = v
	}
	dst := s.build(0, start)
	at := map[int]int{} // index of keys in all
	next := 0
	for k, st := range c.Steps {
		m := s.newMV(0)
		v := &Val{}
		for i := 0; i < st.N; i++ {
			e := c.elem(next + i*3 + k)
			v.L = append(v.L, e)
			if c.F.Card != CMap {
				all.L = append(all.L, e)
				continue
			}
			j := next + i
			if i < st.Merge {
				j = i % next
			}
			v.K = append(v.K, c.key(j))
			if o, ok := at[j]; ok {
				all.L[o] = e
				continue
			}
			at[j] = len(all.L)
			all.K, all.L = append(all.K, c.key(j)), append(all.L, e)
		}
		next += st.N
		var b []byte
		if st.Packed {
			var p []byte
			for _, e := range v.L {
				p = s.refBare(p, f, e)
			}
			b = append(uvarint(uvarint(nil, tagOf(f.Num, WLen)), uint64(len(p))), p...)
		} else {
			m.F[1] = v
			b = s.refEncode(nil, 0, m)
		}
		if err := unmarshal(b, dst); err != nil {
			return fmt.Errorf("decode %d, of %d elements: %v (%s)", k, st.N, err, s)
		}
		model.F[1] = all
		if d := s.diff(0, s.norm(0, model), s.get(dst)); d != "" {
			return fmt.Errorf("after decode %d, of %d elements: %s (%s)", k, st.N, d, s)
		}
	}
	b, err := marshal(dst)
	if err != nil {
		return fmt.Errorf("Marshal: %v", err)
	}
	if w, n := len(s.refEncode(nil, 0, model)), proto.Size(dst.Interface()); w != len(b) || n != len(b) {
		return fmt.Errorf("Marshal of %d elements gives %d bytes, Size %d, the reference %d (%s)", len(all.L), len(b), n, w, s)
	}
	var got *MV
	if c.F.Card == CMap { // the reference decoder is slow on large maps
		if got, err = s.decodeNew(b); err != nil {
			return fmt.Errorf("Unmarshal of own encoding of %d entries: %v", len(all.L), err)
		}
	} else {
		var e *derr
		if got, _, e = s.refDecode(b, nil); e != nil {
			return fmt.Errorf("Marshal of %d elements: %v", len(all.L), e)
		}
	}
	if d := s.diff(0, s.norm(0, model), got); d != "" {
		return fmt.Errorf("Marshal of %d elements: %s (%s)", len(all.L), d, s)
	}
	x.nontrivial = len(all.L) > 1000
	x.classIf(len(all.L) > 1<<15, "more than 32768 elements")
	x.classIf(len(all.L) > 1<<16, "more than 65536 elements")
	x.classIf(len(c.Steps) > 1, "huge, in several decodes")
	return nil
}
