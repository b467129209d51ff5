package hz

import (
	"fmt"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// C27: versions of a schema which differ in compatible ways read what the
// others write.

type EvolveCase struct {
	V    []*Schema `json:"s"` // versions, each derived from the first
	M    []*MV     `json:"m"` // values of the first version
	Hops []int     `json:"h"` // versions which decode and encode in turn
	Into bool      `json:"into,omitempty"`
}

var compatible = [][]Kind{
	{KBool, KInt32, KUint32, KInt64, KUint64, KEnum},
	{KSint32, KSint64},
	{KFixed32, KSfixed32, KFloat},
	{KFixed64, KSfixed64, KDouble},
	{KString, KBytes},
}

func compatKind(t *rapid.T, k Kind) Kind {
	for _, g := range compatible {
		for _, x := range g {
			if x == k {
				return pick(t, g)
			}
		}
	}
	return k
}

func genVersion(t *rapid.T, a *Schema) *Schema {
	b := &Schema{Msgs: make([]Msg, len(a.Msgs))}
	for mi := range a.Msgs {
		var fs []Field
		used := map[int]bool{}
		for i := range a.Msgs[mi].Fields {
			used[a.Msgs[mi].Fields[i].Num] = true
		}
		for _, f := range a.Msgs[mi].Fields {
			if chance(t, 8) {
				continue
			}
			if chance(t, 40) {
				switch {
				case f.Kind != KMessage:
					f.Kind = compatKind(t, f.Kind)
				case f.Card != CMap && chance(t, 25):
					f.Kind, f.Msg = pick(t, []Kind{KBytes, KString}), 0
				}
				if f.Card == CMap {
					for k := f.Key; ; {
						if f.Key = compatKind(t, k); f.Key != KBytes && f.Key != KEnum && f.Key != KFloat && f.Key != KDouble {
							break
						}
					}
				}
				f.Named = false
			}
			switch {
			case f.Card == CMap && chance(t, 30):
				card := func() string { return pick(t, []string{CImp, CImp, COpt, CPtr, CReq}) }
				b.Msgs = append(b.Msgs, Msg{Fields: []Field{{Num: 1, Kind: f.Key, Card: card()}, {Num: 2, Kind: f.Kind, Msg: f.Msg, Card: card()}}})
				f.Card, f.Kind, f.Msg, f.Key = CRep, KMessage, len(b.Msgs)-1, ""
			case f.Card != CMap && chance(t, 40):
				f.Card = pick(t, []string{CImp, COpt, CPtr, CReq, CRep})
				f.Named = false
			}
			f.Extra = ""
			fs = append(fs, f)
		}
		for n := weighted(t, 50, 30, 20); n > 0; n-- {
			f := genField(t, mi, len(a.Msgs), used, &genOpts{})
			fs = append(fs, f)
		}
		if chance(t, 30) {
			for i := range fs {
				j := intn(t, i, len(fs)-1)
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
		b.Msgs[mi].Fields = fs
	}
	return b
}

func genEvolve(t *rapid.T) EvolveCase {
	o := &genOpts{noStatic: true, big: 1, budget: 150}
	a := genSchema(t, o)
	c := EvolveCase{V: []*Schema{a}, Into: chance(t, 20)}
	for n := intn(t, 1, 3); n > 0; n-- {
		c.V = append(c.V, genVersion(t, a))
	}
	for n := intn(t, 1, 3); n > 0; n-- {
		c.M = append(c.M, genMV(t, a, 0, o))
	}
	for n := intn(t, 1, 5); n > 0; n-- {
		c.Hops = append(c.Hops, intn(t, 0, len(c.V)-1))
	}
	return c
}

func runEvolve(c EvolveCase, x *Ctx) error {
	for _, m := range c.M {
		cur, curS := c.V[0].norm(0, m), c.V[0]
		for n, h := range c.Hops {
			s := c.V[h]
			v := curS.build(0, cur)
			size := proto.Size(v.Interface())
			b, err := marshal(v)
			if err != nil {
				return fmt.Errorf("hop %d: Marshal: %v (%s)", n, err, curS)
			}
			if size != len(b) {
				return fmt.Errorf("hop %d: Size gives %d, Marshal %d bytes (%s)", n, size, len(b), curS)
			}
			if got, _, e := curS.refDecode(b, nil); e != nil {
				return fmt.Errorf("hop %d: Marshal gives %s: %v (%s)", n, hexs(b), e, curS)
			} else if d := curS.diff(0, cur, got); d != "" {
				return fmt.Errorf("hop %d: Marshal gives %s: %s (%s)", n, hexs(b), d, curS)
			}
			var into *MV
			dst := s.New()
			if c.Into && n > 0 && h == 0 { // over the first value
				into = s.norm(0, c.M[0])
				dst = s.build(0, into)
			}
			want, _, e := s.refDecode(b, into)
			if e != nil {
				panic(harnessError{fmt.Errorf("versions are not compatible: %v (%s, %s, %s)", e, hexs(b), curS, s)})
			}
			if err := unmarshal(b, dst); err != nil {
				return fmt.Errorf("hop %d: encoding of one version rejected by the other: %v (%s of %s, for %s)", n, err, hexs(b), curS, s)
			}
			got := s.get(dst)
			if d := s.diff(0, want, got); d != "" {
				return fmt.Errorf("hop %d: encoding of one version decoded wrongly by the other: %s (%s of %s, for %s)", n, d, hexs(b), curS, s)
			}
			x.classIf(h != 0, "read by another version")
			x.classIf(h != 0 && len(b) > 3, "with content")
			if h != 0 && len(b) > 3 {
				x.nontrivial = true
			}
			cur, curS = want, s
		}
	}
	x.classIf(len(c.Hops) > 2, "three or more hops")
	return nil
}

func init() {
	addProp(&Prop{ID: "C27", Rule: "cases are a random message type, one to three versions of it with compatible changes in every message (kinds of one wire type, singular and repeated, map and repeated entries, message and bytes, labels, declaration order, dropped and added fields), values, and a sequence of versions which decode what the one before encoded and encode it again; non-trivial: another version reads at least four bytes", Subs: []Sub{
		sub("hops", 6000, 180000, genEvolve, runEvolve),
	}})
}
