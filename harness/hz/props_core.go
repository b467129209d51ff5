package hz

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// ValCase is some values of a message type.
type ValCase struct {
	S *Schema `json:"s"`
	V []*MV   `json:"v"`
}

func genValCase(o genOpts, n int) func(t *rapid.T) ValCase {
	return func(t *rapid.T) ValCase {
		o := o
		c := ValCase{S: genSchema(t, &o)}
		for i := intn(t, 1, n); i > 0; i-- {
			c.V = append(c.V, genMV(t, c.S, 0, &o))
		}
		return c
	}
}

func (x *Ctx) value(s *Schema, m *MV) {
	n := m.count()
	if n >= 2 {
		x.nontrivial = true
	}
	if !x.counting {
		return
	}
	x.classes["messages"]++
	x.classIf(s.Static != "", "recursive type")
	x.classIf(m.depth() >= 2, "nested 2+")
	x.classIf(m.depth() >= 6, "nested 6+")
	x.classIf(n == 0, "empty message")
	x.classIf(n > 50, "50+ values")
	for i, v := range m.F {
		if v == nil {
			continue
		}
		f := &s.Msgs[0].Fields[i]
		if !f.proto() {
			continue
		}
		x.classes["card "+f.Card]++
		x.classes["kind "+string(f.Kind)]++
		x.classIf(len(v.L) > 10 && f.Card == CRep, "list 11+")
		x.classIf(len(v.L) > 100 && f.Card == CRep, "list 101+")
		x.classIf(len(v.L) > 8 && f.Card == CMap, "map 9+")
		x.classIf(v.R > 127, "long string")
		x.classIf(f.Num > 2047, "tag 3+ bytes")
	}
}

func marshal(v reflect.Value) ([]byte, error) { return proto.Marshal(v.Interface()) }
func unmarshal(b []byte, v reflect.Value) error {
	return proto.Unmarshal(b, v.Interface())
}

func (s *Schema) decodeNew(b []byte) (*MV, error) {
	v := s.New()
	if err := unmarshal(b, v); err != nil {
		return nil, err
	}
	return s.get(v), nil
}

// withoutGuards drops the fields which are not part of the message.
func (s *Schema) withoutGuards(mi int, m *MV) *MV {
	o := s.newMV(mi)
	for i, v := range m.F {
		f := &s.Msgs[mi].Fields[i]
		if v == nil || !f.proto() {
			continue
		}
		if f.Kind != KMessage {
			o.F[i] = v
			continue
		}
		n := &Val{K: v.K, Nil: v.Nil}
		if v.M != nil {
			n.M = s.withoutGuards(f.Msg, v.M)
		}
		for _, e := range v.L {
			n.L = append(n.L, &Val{Nil: e.Nil, M: s.withoutGuards(f.Msg, e.M)})
		}
		o.F[i] = n
	}
	return o
}

// C01

func runRoundTrip(c ValCase, x *Ctx) error {
	for _, v := range c.V {
		want := c.S.withoutGuards(0, c.S.norm(0, v))
		x.value(c.S, want)
		b, err := marshal(c.S.build(0, v))
		if err != nil {
			return fmt.Errorf("Marshal: %v (%s)", err, c.S)
		}
		got, err := c.S.decodeNew(b)
		if err != nil {
			return fmt.Errorf("Unmarshal of own encoding: %v (%s, %s)", err, c.S, hexs(b))
		}
		if d := c.S.diff(0, want, got); d != "" {
			return fmt.Errorf("round trip: %s (%s, %s)", d, c.S, hexs(b))
		}
	}
	return nil
}

// C02

func (s *Schema) eachMessage(mi int, v reflect.Value, depth int, f func(mi int, v reflect.Value) error) error {
	if v.IsNil() || depth > 40 {
		return nil
	}
	if err := f(mi, v); err != nil {
		return err
	}
	for i := range s.Msgs[mi].Fields {
		fd := &s.Msgs[mi].Fields[i]
		if fd.Kind != KMessage || !fd.proto() {
			continue
		}
		fv := s.goField(mi, i, v.UnsafePointer())
		switch fd.Card {
		case CRep:
			for j := 0; j < fv.Len(); j++ {
				if err := s.eachMessage(fd.Msg, fv.Index(j), depth+1, f); err != nil {
					return err
				}
			}
		case CMap:
			it := fv.MapRange()
			for it.Next() {
				if err := s.eachMessage(fd.Msg, it.Value(), depth+1, f); err != nil {
					return err
				}
			}
		default:
			if err := s.eachMessage(fd.Msg, fv, depth+1, f); err != nil {
				return err
			}
		}
	}
	return nil
}

func runSize(c ValCase, x *Ctx) error {
	for _, v := range c.V {
		n := c.S.norm(0, v)
		x.value(c.S, c.S.withoutGuards(0, n))
		p := c.S.build(0, v)
		err := c.S.eachMessage(0, p, 0, func(mi int, p reflect.Value) error {
			size := proto.Size(p.Interface())
			b, err := marshal(p)
			if err != nil {
				return fmt.Errorf("Marshal: %v", err)
			}
			if size != len(b) {
				return fmt.Errorf("Size is %d, Marshal gives %d bytes (M%d of %s, %s)", size, len(b), mi, c.S, hexs(b))
			}
			return nil
		})
		if err != nil {
			return err
		}
		if want, size := len(c.S.refEncode(nil, 0, n)), proto.Size(p.Interface()); size != want {
			return fmt.Errorf("Size is %d, the encoding has %d bytes (%s)", size, want, c.S)
		}
		// the length prefixes
		b, _ := marshal(p)
		got, _, e := c.S.refDecode(b, nil)
		if e != nil {
			return fmt.Errorf("the lengths in the encoding do not fit: %v (%s, %s)", e, c.S, hexs(b))
		}
		if d := c.S.diff(0, c.S.withoutGuards(0, n), got); d != "" {
			return fmt.Errorf("the lengths in the encoding delimit something else: %s (%s, %s)", d, c.S, hexs(b))
		}
	}
	nilp := reflect.Zero(reflect.PointerTo(c.S.Type(0)))
	if n := proto.Size(nilp.Interface()); n != 0 {
		return fmt.Errorf("Size of a nil message is %d", n)
	}
	return nil
}

// overwrite makes dst equal to src, in place as far as possible: messages,
// lists and maps of dst stay where they are in memory.
func overwrite(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Struct:
		if strings.HasPrefix(dst.Type().Name(), "Option[") {
			break
		}
		for i := 0; i < dst.NumField(); i++ {
			t := dst.Field(i).Type()
			overwrite(reflect.NewAt(t, dst.Field(i).Addr().UnsafePointer()).Elem(), reflect.NewAt(t, src.Field(i).Addr().UnsafePointer()).Elem())
		}
		return
	case reflect.Pointer:
		if dst.IsNil() || src.IsNil() {
			break
		}
		overwrite(dst.Elem(), src.Elem())
		return
	case reflect.Slice:
		if dst.IsNil() || src.IsNil() || dst.Cap() < src.Len() {
			break
		}
		dst.SetLen(src.Len())
		for i := 0; i < src.Len(); i++ {
			overwrite(dst.Index(i), src.Index(i))
		}
		return
	case reflect.Map:
		if dst.IsNil() || src.IsNil() {
			break
		}
		for _, k := range dst.MapKeys() {
			if !src.MapIndex(k).IsValid() {
				dst.SetMapIndex(k, reflect.Value{})
			}
		}
		for _, k := range src.MapKeys() {
			v := src.MapIndex(k)
			if d := dst.MapIndex(k); d.IsValid() && d.Kind() == reflect.Pointer && !d.IsNil() && !v.IsNil() {
				overwrite(d.Elem(), v.Elem())
			} else {
				dst.SetMapIndex(k, v)
			}
		}
		return
	}
	dst.Set(src)
}

// runChanged encodes a message, changes it in place, encodes it again, and so
// on.
func runChanged(c ValCase, x *Ctx) error {
	p := c.S.build(0, c.V[0])
	for i, v := range c.V {
		n := c.S.norm(0, v)
		if i > 0 {
			overwrite(p.Elem(), c.S.build(0, v).Elem())
			x.class("changes")
		}
		w := len(c.S.refEncode(nil, 0, n))
		x.nontrivial = x.nontrivial || i > 0 && w > 0
		if size := proto.Size(p.Interface()); size != w {
			return fmt.Errorf("after %d changes of the message Size is %d, its encoding has %d bytes (%s)", i, size, w, c.S)
		}
		b, err := marshal(p)
		if err != nil {
			return fmt.Errorf("after %d changes of the message: Marshal: %v", i, err)
		}
		got, _, e := c.S.refDecode(b, nil)
		if e != nil {
			return fmt.Errorf("after %d changes of the message: the lengths in the encoding do not fit: %v (%s, %s)", i, e, c.S, hexs(b))
		}
		if d := c.S.diff(0, c.S.withoutGuards(0, n), got); d != "" {
			return fmt.Errorf("after %d changes of the message the encoding is not that of its content: %s (%s, %s)", i, d, c.S, hexs(b))
		}
	}
	return nil
}

// C03

func runEncode(c ValCase, x *Ctx) error {
	for _, v := range c.V {
		n := c.S.norm(0, v)
		want := c.S.withoutGuards(0, n)
		x.value(c.S, want)
		b, err := marshal(c.S.build(0, v))
		if err != nil {
			return fmt.Errorf("Marshal: %v (%s)", err, c.S)
		}
		got, d, e := c.S.refDecode(b, nil)
		if e != nil {
			return fmt.Errorf("encoding is malformed: %v (%s, %s)", e, c.S, hexs(b))
		}
		if d.unknown > 0 || d.unspecified {
			return fmt.Errorf("encoding has undeclared fields (%s, %s)", c.S, hexs(b))
		}
		if d.packed > 0 {
			return fmt.Errorf("encoding has packed fields (%s, %s)", c.S, hexs(b))
		}
		if df := c.S.diff(0, want, got); df != "" {
			return fmt.Errorf("encoding read by the reference decoder: %s (%s, %s)", df, c.S, hexs(b))
		}
		if w := c.S.refEncode(nil, 0, n); len(w) != len(b) {
			return fmt.Errorf("encoding has %d bytes, the canonical one %d (%s, %s, canonical %s)", len(b), len(w), c.S, hexs(b), hexs(w))
		}
		cgot, unknown, err := c.S.canonDecode(b)
		if err != nil {
			return fmt.Errorf("google.golang.org/protobuf rejects the encoding: %v (%s, %s)", err, c.S, hexs(b))
		}
		if unknown {
			return fmt.Errorf("google.golang.org/protobuf finds unknown fields in the encoding (%s, %s)", c.S, hexs(b))
		}
		if df := c.S.diff(0, c.S.quiet(0, c.S.clone(0, want)), c.S.quiet(0, cgot)); df != "" {
			return fmt.Errorf("encoding read by google.golang.org/protobuf: %s (%s, %s)", df, c.S, hexs(b))
		}
	}
	return nil
}

// WireCase is some encodings of a message type.
type WireCase struct {
	S *Schema `json:"s"`
	W [][]Rec `json:"w"`
	E []Edit  `json:"e,omitempty"`
	// Start is the destination the first one is decoded into.
	Start *MV   `json:"start,omitempty"`
	Cuts  []int `json:"cuts,omitempty"`
}

func genWire(t *rapid.T, s *Schema, w *wireOpts) []Rec {
	b := &budget{n: 200}
	if w.budget > 0 {
		b.n = min(b.n, w.budget)
	}
	return genRecs(t, s, 0, w, b, 0)
}

func (x *Ctx) wire(d *refDecoder, n int) {
	if d.recs >= 2 {
		x.nontrivial = true
	}
	if !x.counting {
		return
	}
	x.classes["encodings"]++
	x.classIf(d.unknown > 0, "unknown fields")
	x.classIf(d.packed > 0, "packed")
	x.classIf(d.dup > 0, "field repeated")
	x.classIf(d.overlong > 0, "non-minimal varint")
	x.classIf(d.depth >= 2, "nested 2+")
	x.classIf(d.depth >= 5, "nested 5+")
	x.classIf(n > 127, "input 128+ bytes")
	x.classIf(n == 0, "empty input")
}

// C04

func genLegal(o genOpts, n int) func(t *rapid.T) WireCase {
	return func(t *rapid.T) WireCase {
		o := o
		c := WireCase{S: genSchema(t, &o)}
		for i := intn(t, 1, n); i > 0; i-- {
			w := &wireOpts{genOpts: &o, packed: true, unknown: chance(t, 40), pad: chance(t, 50), wide: chance(t, 60)}
			c.W = append(c.W, genWire(t, c.S, w))
		}
		return c
	}
}

func (s *Schema) checkCanon(b []byte, ref *MV, x *Ctx) {
	m, _, err := s.canonDecode(b)
	if err != nil {
		panic(harnessError{fmt.Errorf("google.golang.org/protobuf rejects what the reference accepts: %v (%s, %s)", err, s, hexs(b))})
	}
	if d := s.diff(0, s.quiet(0, s.clone(0, ref)), s.quiet(0, m)); d != "" {
		panic(harnessError{fmt.Errorf("reference and google.golang.org/protobuf differ: %s (%s, %s)", d, s, hexs(b))})
	}
	x.class("confirmed by google.golang.org/protobuf")
}

func runLegal(canon bool) func(c WireCase, x *Ctx) error {
	return func(c WireCase, x *Ctx) error {
		for _, rs := range c.W {
			b := encRecs(nil, rs)
			want, d, e := c.S.refDecode(b, nil)
			if e != nil {
				panic(harnessError{fmt.Errorf("generator made an illegal encoding: %v (%s, %s)", e, c.S, hexs(b))})
			}
			x.wire(d, len(b))
			if canon {
				c.S.checkCanon(b, want, x)
			}
			got, err := c.S.decodeNew(b)
			if err != nil {
				return fmt.Errorf("legal encoding rejected: %v (%s, %s)", err, c.S, hexs(b))
			}
			if df := c.S.diff(0, want, got); df != "" {
				return fmt.Errorf("legal encoding decoded wrongly: %s (%s, %s)", df, c.S, hexs(b))
			}
		}
		return nil
	}
}

// Encodings of values by google.golang.org/protobuf.
func runCanonEncoded(c ValCase, x *Ctx) error {
	for _, v := range c.V {
		want := c.S.withoutGuards(0, c.S.norm(0, v))
		x.value(c.S, want)
		b, err := c.S.canonEncode(want)
		must(err)
		got, err := c.S.decodeNew(b)
		if err != nil {
			return fmt.Errorf("encoding by google.golang.org/protobuf rejected: %v (%s, %s)", err, c.S, hexs(b))
		}
		if d := c.S.diff(0, c.S.quiet(0, c.S.clone(0, want)), c.S.quiet(0, got)); d != "" {
			return fmt.Errorf("encoding by google.golang.org/protobuf: %s (%s, %s)", d, c.S, hexs(b))
		}
	}
	return nil
}

// C05, C06: any bytes.

// BytesCase is an input made from an encoding by edits.
type BytesCase struct {
	S     *Schema `json:"s"`
	W     []Rec   `json:"w,omitempty"`
	E     []Edit  `json:"e,omitempty"`
	Raw   []byte  `json:"raw,omitempty"`
	Start *MV     `json:"start,omitempty"`
}

func (c *BytesCase) input() []byte {
	b := append([]byte{}, c.Raw...)
	b = encRecs(b, c.W)
	for i := range c.E {
		b = c.E[i].apply(b)
	}
	return b
}

// genWild draws records which need not be legal.
func genWild(t *rapid.T, s *Schema, mi int, depth int) []Rec {
	rs := []Rec{}
	fields := s.Msgs[mi].Fields
	for i := intn(t, 0, 5); i > 0; i-- {
		var f *Field
		r := Rec{N: uint64(intn(t, 0, 20)), W: intn(t, 0, 7)}
		if len(fields) > 0 && chance(t, 75) {
			f = &fields[intn(t, 0, len(fields)-1)]
			if f.proto() {
				r.N = uint64(f.Num)
				r.W = f.wire()
				if chance(t, 15) {
					r.W = intn(t, 0, 7)
				}
			} else {
				f = nil
			}
		} else if chance(t, 30) {
			r.N = pick(t, []uint64{0, 1<<29 - 1, 1 << 29, 1<<29 + 1, 1 << 32, 1<<32 + 1, 1<<61 - 1})
		}
		r.TP = []int{0, 0, 0, 0, 1, 4, 9}[intn(t, 0, 6)]
		r.VP = []int{0, 0, 0, 0, 1, 4, 9}[intn(t, 0, 6)]
		r.U = pick(t, boundaries)
		if r.W == WLen {
			switch {
			case f != nil && f.Kind == KMessage && f.Card != CMap && depth < 6:
				r.Sub = genWild(t, s, f.Msg, depth+1)
			case f != nil && f.Card == CMap && depth < 6:
				es, n := s.entrySchema(f)
				r.Sub = genWild(t, es, n, depth+1)
			default:
				r.S = rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "")
			}
			if chance(t, 10) {
				r.Cut = intn(t, 1, 3)
			}
			if chance(t, 6) {
				r.More = pick(t, []uint64{1, 2, 7, 100, 1 << 20, 1 << 31, 1 << 63, 1<<64 - 3})
			}
		}
		rs = append(rs, r)
	}
	return rs
}

func genBytes(o genOpts) func(t *rapid.T) BytesCase {
	return func(t *rapid.T) BytesCase {
		o := o
		c := BytesCase{S: genSchema(t, &o)}
		switch weighted(t, 55, 30, 15) {
		case 0:
			w := &wireOpts{genOpts: &o, packed: true, unknown: true, pad: chance(t, 40), wide: true}
			c.W = genWire(t, c.S, w)
			for i := intn(t, 0, 3); i > 0; i-- {
				c.E = append(c.E, genEdit(t))
			}
		case 1:
			c.W = genWild(t, c.S, 0, 0)
		default:
			c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "")
		}
		if chance(t, 25) {
			c.Start = genMV(t, c.S, 0, &o)
		}
		return c
	}
}

// typeCost bounds what one byte of input may make the decoder allocate. A
// record takes at least two bytes; it may make a message, a map with room for
// some entries, or room for some elements.
func (s *Schema) typeCost() uint64 {
	var m uint64
	for i := range s.Msgs {
		m = max(m, uint64(s.Type(i).Size()))
		for j := range s.Msgs[i].Fields {
			f := &s.Msgs[i].Fields[j]
			if f.Card == CMap || f.Card == CRep {
				t := s.Type(i).Field(j).Type
				n := uint64(t.Elem().Size())
				if f.Card == CMap {
					n += uint64(t.Key().Size())
				}
				m = max(m, n*100+500)
			}
		}
	}
	return m + 512
}

// genAmplify draws a short input that is to be repeated many times.
func genAmplify(o genOpts) func(t *rapid.T) AmplifyCase {
	return func(t *rapid.T) AmplifyCase {
		o := o
		c := AmplifyCase{S: genSchema(t, &o)}
		// records for few fields of messages, with little in them
		w := &wireOpts{genOpts: &o, packed: true, unknown: chance(t, 30), maxRecs: intn(t, 1, 6), density: pick(t, []int{20, 60, 100})}
		c.W = genWire(t, c.S, w)
		c.N = pick(t, []int{100, 1000, 5000, 20000})
		if d, ok := dictInt(t, 200, 1, 20000); ok {
			c.N = d
		}
		return c
	}
}

type AmplifyCase struct {
	S *Schema `json:"s"`
	W []Rec   `json:"w"`
	N int     `json:"n"`
}

func runAmplify(c AmplifyCase, x *Ctx) error {
	unit := encRecs(nil, c.W)
	if len(unit) == 0 {
		return nil
	}
	n := min(c.N, 1+200000/len(unit))
	size := uint64(1)
	for i := range c.S.Msgs {
		size = max(size, uint64(c.S.Type(i).Size()))
	}
	n = min(n, 1+int(100<<20/(size*uint64(len(c.W)+1)))) // not too much for a right decoder either
	b := bytes.Repeat(unit, n)
	p := c.S.New()
	proto.Size(p.Interface())
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	err := unmarshal(b, p)
	runtime.ReadMemStats(&m2)
	x.classIf(err == nil, "accepted")
	x.nontrivial = n > 10
	if n := m2.TotalAlloc - m1.TotalAlloc; n > uint64(1<<18)+uint64(len(b))*c.S.typeCost() {
		return fmt.Errorf("decoding %d bytes, %s repeated, allocated %d bytes (%s)", len(b), hexs(unit), n, c.S)
	}
	return nil
}

func runSafe(c BytesCase, x *Ctx) error {
	b := c.input()
	keep := append([]byte{}, b...)
	var p reflect.Value
	if c.Start != nil {
		p = c.S.build(0, c.Start)
	} else {
		p = c.S.New()
	}
	proto.Size(p.Interface()) // builds the codec
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	err := unmarshal(b[:len(b):len(b)], p)
	runtime.ReadMemStats(&m2)
	x.class("inputs")
	x.classIf(err != nil, "rejected")
	x.classIf(err == nil, "accepted")
	x.nontrivial = len(b) >= 4
	if !bytes.Equal(b, keep) {
		return fmt.Errorf("input was modified (%s, %s)", c.S, hexs(keep))
	}
	limit := uint64(1<<18) + uint64(len(b)+16)*c.S.typeCost()
	if c.Start != nil {
		limit += 64 << 20
	}
	if n := m2.TotalAlloc - m1.TotalAlloc; n > limit {
		return fmt.Errorf("decoding %d bytes allocated %d bytes (%s, %s)", len(b), n, c.S, hexs(keep))
	}
	// what came out must be usable
	c.S.get(p)
	if _, err := marshal(p); err != nil {
		return fmt.Errorf("Marshal of what was decoded: %v", err)
	}
	return nil
}

func runVerdict(c BytesCase, x *Ctx) error {
	b := c.input()
	want, d, e := c.S.refDecode(b, nil)
	got, err := c.S.decodeNew(b)
	x.nontrivial = d.recs >= 2
	x.class("inputs")
	x.classIf(d.unspecified, "unspecified field number")
	if e != nil {
		x.class("malformed: " + e.class)
		x.classIf(e.depth > 0, "malformed inside")
	} else {
		x.class("well formed")
	}
	switch {
	case e != nil && err == nil:
		if d.unspecified {
			return nil
		}
		return fmt.Errorf("malformed input accepted: %v (%s, %s)", e, c.S, hexs(b))
	case e == nil && err != nil:
		if d.unspecified {
			return nil
		}
		return fmt.Errorf("well formed input rejected: %v (%s, %s)", err, c.S, hexs(b))
	case e == nil:
		if df := c.S.diff(0, want, got); df != "" {
			return fmt.Errorf("accepted input decoded wrongly: %s (%s, %s)", df, c.S, hexs(b))
		}
	}
	return nil
}

// Every truncation of an encoding: rejected unless cut between records.
func runPrefixes(c WireCase, x *Ctx) error {
	b := encRecs(nil, c.W[0])
	if len(b) > 3000 {
		b = b[:3000]
	}
	step := 1 + len(b)/400
	x.nontrivial = len(b) > 8
	for i := 0; i <= len(b); i += step {
		want, d, e := c.S.refDecode(b[:i], nil)
		got, err := c.S.decodeNew(b[:i:i])
		x.class("prefixes")
		if (e == nil) != (err == nil) {
			if d.unspecified {
				continue
			}
			return fmt.Errorf("first %d of %d bytes: got error %v, want %v (%s, %s)", i, len(b), err, e, c.S, hexs(b[:i]))
		}
		if e == nil {
			x.class("well formed prefixes")
			if df := c.S.diff(0, want, got); df != "" {
				return fmt.Errorf("first %d of %d bytes: %s (%s, %s)", i, len(b), df, c.S, hexs(b[:i]))
			}
		}
	}
	return nil
}

// C07

type DefectCase struct {
	S *Schema `json:"s"`
	W []Rec   `json:"w"`
	// Trunc cuts the whole input, as a fraction of 1000.
	Trunc int `json:"trunc,omitempty"`
}

func genDefect(o genOpts) func(t *rapid.T) DefectCase {
	return func(t *rapid.T) DefectCase {
		o := o
		c := DefectCase{S: genSchema(t, &o)}
		w := &wireOpts{genOpts: &o, packed: true, unknown: chance(t, 50), pad: chance(t, 20)}
		c.W = genWire(t, c.S, w)
		if chance(t, 35) {
			c.Trunc = intn(t, 1, 999)
			return c
		}
		c.W = plant(t, c.S, 0, c.W)
		return c
	}
}

// plant puts one defect somewhere into the records of message mi.
func plant(t *rapid.T, s *Schema, mi int, rs []Rec) []Rec {
	var inner []int
	for i := range rs {
		if j := s.Msgs[mi].byNum(rs[i].N); j >= 0 && rs[i].W == WLen {
			f := &s.Msgs[mi].Fields[j]
			if f.Card == CMap || f.Kind == KMessage {
				inner = append(inner, i)
			}
		}
	}
	if len(inner) > 0 && chance(t, 70) {
		i := pick(t, inner)
		f := &s.Msgs[mi].Fields[s.Msgs[mi].byNum(rs[i].N)]
		r := rs[i]
		if r.Sub == nil {
			r.Sub = []Rec{}
		}
		if f.Card == CMap {
			es, n := s.entrySchema(f)
			r.Sub = plant(t, es, n, r.Sub)
		} else {
			r.Sub = plant(t, s, f.Msg, r.Sub)
		}
		out := append([]Rec{}, rs...)
		out[i] = r
		return out
	}
	fields := s.Msgs[mi].Fields
	var d Rec
	switch weighted(t, 25, 25, 25, 25) {
	case 0: // unsupported wire type on an undeclared field
		d = genUnknown(t, fields, &wireOpts{genOpts: &genOpts{}}, 2)
		d = Rec{N: d.N, W: pick(t, []int{3, 4, 6, 7})}
	case 1: // wrong wire type on a declared field
		d = genUnknown(t, nil, &wireOpts{genOpts: &genOpts{}}, 2)
		var k []*Field
		for i := range fields {
			if fields[i].proto() {
				k = append(k, &fields[i])
			}
		}
		if len(k) > 0 {
			f := pick(t, k)
			d.N = uint64(f.Num)
			d.W = (f.wire() + intn(t, 1, 7)) % 8
			if d.W == WLen && f.packable() {
				d.W = WSGroup
			}
		}
	case 2: // a record which is cut short, at the end of its message
		if len(rs) > 0 {
			d = rs[len(rs)-1]
			rs = rs[:len(rs)-1]
		} else {
			d = genUnknown(t, fields, &wireOpts{genOpts: &genOpts{}}, 2)
		}
		n := len(d.enc(nil))
		if n > 1 {
			n = intn(t, 1, n-1)
		}
		// raw bytes as a record: a bare length-delimited record has a
		// length, so use fixed width pieces instead
		return append(append([]Rec{}, rs...), rawRecs(d.enc(nil)[:n])...)
	default: // a length which exceeds the message
		d = genUnknown(t, fields, &wireOpts{genOpts: &genOpts{}}, 2)
		var k []*Field
		for i := range fields {
			if fields[i].proto() && (fields[i].wire() == WLen || fields[i].packable()) {
				k = append(k, &fields[i])
			}
		}
		if len(k) > 0 && chance(t, 70) {
			d.N = uint64(pick(t, k).Num)
		}
		d.W, d.Sub = WLen, nil
		d.More = pick(t, []uint64{1, 2, 100, 1 << 20, 1 << 31, 1 << 40})
		return append(append([]Rec{}, rs...), d)
	}
	i := intn(t, 0, len(rs))
	return append(append(append([]Rec{}, rs[:i]...), d), rs[i:]...)
}

// rawRecs makes records which encode to exactly the given bytes.
func rawRecs(b []byte) []Rec {
	var rs []Rec
	for _, c := range b {
		rs = append(rs, Rec{W: wRaw, U: uint64(c), Bare: true})
	}
	return rs
}

func runErrors(c DefectCase, x *Ctx) error {
	b := encRecs(nil, c.W)
	if c.Trunc > 0 {
		b = b[:len(b)*c.Trunc/1000]
	}
	_, d, e := c.S.refDecode(b, nil)
	if e == nil || d.unspecified {
		x.class("no defect")
		return nil
	}
	err := unmarshal(b, c.S.New())
	if err == nil {
		return fmt.Errorf("malformed input accepted: %v (%s, %s)", e, c.S, hexs(b))
	}
	x.nontrivial = len(e.path) > 0
	x.class(e.class)
	x.class(fmt.Sprintf("path of %d", len(e.path)))
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s; the error is %v, the defect %v (%s, %s)", fmt.Sprintf(f, a...), err, e, c.S, hexs(b))
	}
	var chain []pathElem
	for u := err; u != nil; u = errors.Unwrap(u) {
		if fe, ok := u.(*proto.UnmarshalFieldError); ok {
			chain = append(chain, pathElem{fe.FieldNumber, fe.WireType})
		}
	}
	var fe *proto.UnmarshalFieldError
	if len(e.path) > 0 && !errors.As(err, &fe) {
		return fail("the error names no field")
	}
	if fmt.Sprint(chain) != fmt.Sprint(e.path) {
		return fail("the error names the fields %v, the path to the defect is %v", chain, e.path)
	}
	switch e.class {
	case eEOF:
		if !errors.Is(err, io.ErrUnexpectedEOF) {
			return fail("the error is not io.ErrUnexpectedEOF")
		}
		if errors.Is(err, proto.ErrWireTypeUnknown) {
			return fail("the error is ErrWireTypeUnknown")
		}
	case eWire:
		if !errors.Is(err, proto.ErrWireTypeUnknown) {
			return fail("the error is not ErrWireTypeUnknown")
		}
		if errors.Is(err, io.ErrUnexpectedEOF) {
			return fail("the error is io.ErrUnexpectedEOF")
		}
	case eMismatch:
		if errors.Is(err, io.ErrUnexpectedEOF) {
			return fail("the error is io.ErrUnexpectedEOF")
		}
	}
	text := err.Error()
	for _, f := range e.path {
		if !strings.Contains(text, strconv.Itoa(f.Num)) {
			return fail("the text does not name field %d", f.Num)
		}
	}
	cause := err
	for u := err; u != nil; u = errors.Unwrap(u) {
		cause = u
	}
	if cause.Error() == "" || !strings.Contains(text, cause.Error()) {
		return fail("the text %q does not name the cause %q", text, cause)
	}
	return nil
}

// C08

func genMerge(o genOpts, n int) func(t *rapid.T) WireCase {
	return func(t *rapid.T) WireCase {
		o := o
		c := WireCase{S: genSchema(t, &o)}
		if chance(t, 60) {
			c.Start = genMV(t, c.S, 0, &o)
			addSpare(t, c.S, 0, c.Start, &o)
		}
		for i := intn(t, 1, n); i > 0; i-- {
			w := &wireOpts{genOpts: &o, packed: true, unknown: chance(t, 20), pad: chance(t, 20), wide: chance(t, 30)}
			c.W = append(c.W, genWire(t, c.S, w))
		}
		return c
	}
}

// addSpare puts elements into the spare capacity of lists.
func addSpare(t *rapid.T, s *Schema, mi int, m *MV, o *genOpts) {
	for i, v := range m.F {
		if v == nil {
			continue
		}
		f := &s.Msgs[mi].Fields[i]
		if f.Card == CRep && chance(t, 60) {
			for k := intn(t, 1, 3); k > 0; k-- {
				v.Spare = append(v.Spare, genElem(t, s, f, o, &budget{n: 20}, 10, 70, 1))
			}
		}
		if f.Kind == KMessage && v.M != nil {
			addSpare(t, s, f.Msg, v.M, o)
		}
	}
}

func runMerge(c WireCase, x *Ctx) error {
	newDst := func() (reflect.Value, *MV) {
		if c.Start == nil {
			return c.S.New(), c.S.newMV(0)
		}
		return c.S.build(0, c.Start), c.S.norm(0, c.Start)
	}
	dst, model := newDst()
	var all []byte
	for i, rs := range c.W {
		b := encRecs(nil, rs)
		all = append(all, b...)
		var d *refDecoder
		var e *derr
		model, d, e = c.S.refDecode(b, model)
		if e != nil {
			panic(harnessError{fmt.Errorf("generator made an illegal encoding: %v", e)})
		}
		x.wire(d, len(b))
		if err := unmarshal(b, dst); err != nil {
			return fmt.Errorf("decode %d: %v (%s, %s)", i, err, c.S, hexs(b))
		}
		if df := c.S.diff(0, model, c.S.get(dst)); df != "" {
			return fmt.Errorf("after decode %d into the same message: %s (%s, %s)", i, df, c.S, hexs(b))
		}
	}
	x.nontrivial = len(c.W) > 1 || c.Start != nil
	x.classIf(c.Start != nil, "into a populated message")
	x.classIf(len(c.W) > 1, "several decodes")
	one, _ := newDst()
	if err := unmarshal(all, one); err != nil {
		return fmt.Errorf("decode of the concatenation: %v (%s, %s)", err, c.S, hexs(all))
	}
	if df := c.S.diff(0, model, c.S.get(one)); df != "" {
		return fmt.Errorf("concatenation and sequence differ: %s (%s, %s)", df, c.S, hexs(all))
	}
	// cut at every record boundary
	if len(c.W) > 0 {
		two, _ := newDst()
		for i := range c.W {
			for j := range c.W[i] {
				b := c.W[i][j].enc(nil)
				if err := unmarshal(b, two); err != nil {
					return fmt.Errorf("decode of one record: %v (%s, %s)", err, c.S, hexs(b))
				}
			}
		}
		if df := c.S.diff(0, model, c.S.get(two)); df != "" {
			return fmt.Errorf("decoding record by record differs: %s (%s, %s)", df, c.S, hexs(all))
		}
	}
	return nil
}

// C09

type UnknownCase struct {
	S    *Schema `json:"s"`
	W    []Rec   `json:"w"`    // with unknown fields
	Drop [][]int `json:"drop"` // per message, fields dropped from the schema
}

func genUnknownCase(o genOpts) func(t *rapid.T) UnknownCase {
	return func(t *rapid.T) UnknownCase {
		o := o
		c := UnknownCase{S: genSchema(t, &o)}
		w := &wireOpts{genOpts: &o, packed: chance(t, 50), unknown: true, pad: chance(t, 40)}
		c.W = genWire(t, c.S, w)
		if c.S.Static == "" {
			for i := range c.S.Msgs {
				var d []int
				for j := range c.S.Msgs[i].Fields {
					if chance(t, 25) {
						d = append(d, j)
					}
				}
				c.Drop = append(c.Drop, d)
			}
		}
		return c
	}
}

// stripUnknown removes the undeclared records.
func stripUnknown(s *Schema, mi int, rs []Rec) []Rec {
	out := []Rec{}
	for _, r := range rs {
		i := s.Msgs[mi].byNum(r.N)
		if i < 0 {
			continue
		}
		f := &s.Msgs[mi].Fields[i]
		if r.Sub != nil && r.W == WLen {
			if f.Card == CMap {
				es, n := s.entrySchema(f)
				r.Sub = stripUnknown(es, n, r.Sub)
			} else if f.Kind == KMessage {
				r.Sub = stripUnknown(s, f.Msg, r.Sub)
			}
		}
		out = append(out, r)
	}
	return out
}

func runUnknown(c UnknownCase, x *Ctx) error {
	b := encRecs(nil, c.W)
	p := encRecs(nil, stripUnknown(c.S, 0, c.W))
	want, d, e := c.S.refDecode(b, nil)
	if e != nil {
		panic(harnessError{fmt.Errorf("generator made an illegal encoding: %v", e)})
	}
	x.wire(d, len(b))
	x.nontrivial = d.unknown > 0
	plain, err := c.S.decodeNew(p)
	if err != nil {
		return fmt.Errorf("without unknown fields: %v (%s, %s)", err, c.S, hexs(p))
	}
	full, err := c.S.decodeNew(b)
	if err != nil {
		return fmt.Errorf("with unknown fields: %v (%s, %s)", err, c.S, hexs(b))
	}
	if df := c.S.diff(0, plain, full); df != "" {
		return fmt.Errorf("unknown fields change the result: %s (%s, %s, without %s)", df, c.S, hexs(b), hexs(p))
	}
	if df := c.S.diff(0, want, full); df != "" {
		return fmt.Errorf("with unknown fields: %s (%s, %s)", df, c.S, hexs(b))
	}
	if c.Drop == nil {
		return nil
	}
	// a schema which declares only some of the fields
	s2 := &Schema{}
	keep := make([][]int, len(c.S.Msgs))
	dropped := 0
	for i := range c.S.Msgs {
		m := Msg{}
		drop := map[int]bool{}
		for _, j := range c.Drop[i] {
			drop[j] = true
		}
		for j, f := range c.S.Msgs[i].Fields {
			if drop[j] {
				dropped++
				continue
			}
			keep[i] = append(keep[i], j)
			m.Fields = append(m.Fields, f)
		}
		s2.Msgs = append(s2.Msgs, m)
	}
	got, err := s2.decodeNew(b)
	if err != nil {
		return fmt.Errorf("decoding with a smaller schema: %v (%s, %s)", err, s2, hexs(b))
	}
	if df := s2.diff(0, project(c.S, keep, 0, full), got); df != "" {
		return fmt.Errorf("decoding with a smaller schema: %s (%s of %s, %s)", df, s2, c.S, hexs(b))
	}
	x.classIf(dropped > 0, "smaller schema")
	return nil
}

func project(s *Schema, keep [][]int, mi int, m *MV) *MV {
	o := &MV{}
	for _, j := range keep[mi] {
		v := m.F[j]
		f := &s.Msgs[mi].Fields[j]
		if v != nil && f.Kind == KMessage {
			n := &Val{K: v.K}
			if v.M != nil {
				n.M = project(s, keep, f.Msg, v.M)
			}
			for _, e := range v.L {
				n.L = append(n.L, &Val{M: project(s, keep, f.Msg, e.M)})
			}
			v = n
		}
		o.F = append(o.F, v)
	}
	return o
}

var _ = unsafe.Pointer(nil)

func init() {
	const valRule = "cases are a random message type (static recursive ones included) and random values of it, biased to boundary values, lengths and sizes; a case is non-trivial if a value has at least two present fields or elements, or lengths are beyond 31 bits"
	const wireRule = "cases are a random message type and encodings drawn record by record from the grammar of legal encodings (unordered, repeated, split, packed, non-minimal, with unknown fields); non-trivial: at least two records, or lengths beyond 31 bits"
	addProp(&Prop{ID: "C01", Rule: valRule, Subs: []Sub{
		sub("roundtrip", 18000, 360000, genValCase(genOpts{guards: true, big: 4}, 4), runRoundTrip),
		sub("giant", 1, 3, genGiant("encode"), runGiant),
		sub("far", 1, 5, genGiant("far"), runGiant),
	}})
	addProp(&Prop{ID: "C02", Rule: valRule, Subs: []Sub{
		sub("size", 9000, 270000, genValCase(genOpts{guards: true, big: 4}, 3), runSize),
		sub("giant", 40, 400, genGiant("size"), runGiant),
		sub("changed", 4000, 120000, genValCase(genOpts{zero: 15}, 4), runChanged),
	}})
	addProp(&Prop{ID: "C03", Rule: valRule, Subs: []Sub{
		sub("encode", 10000, 300000, genValCase(genOpts{canon: true, utf8: true, big: 4}, 3), runEncode),
	}})
	addProp(&Prop{ID: "C04", Rule: wireRule, Subs: []Sub{
		sub("legal", 10000, 300000, genLegal(genOpts{big: 2}, 4), runLegal(false)),
		sub("giant", 1, 4, genGiant("decode"), runGiant),
		sub("canonical", 6000, 180000, genLegal(genOpts{canon: true, utf8: true, big: 2}, 3), runLegal(true)),
		sub("canonenc", 2800, 84000, genValCase(genOpts{canon: true, utf8: true, big: 3}, 2), runCanonEncoded),
	}})
	addProp(&Prop{ID: "C05", Rule: "cases are a random message type and an input made of legal records with edits (truncation, bit changes, insertions, huge lengths), of wild records, or of random bytes (non-trivial: at least four bytes), or a short legal encoding repeated up to 20000 times (non-trivial: more than 10 times), or up to 5000 nested messages with a defect somewhere (non-trivial: at least 100 bytes)", Subs: []Sub{
		sub("bytes", 30000, 900000, genBytes(genOpts{big: 1}), runSafe),
		sub("edge", 6000, 180000, genEdgeBytes, runEdgeDecode),
		sub("repeated", 300, 9000, genAmplify(genOpts{}), runAmplify),
		sub("deep", 300, 9000, genDeepBad, runDeepBad),
	}})
	addProp(&Prop{ID: "C06", Rule: "cases are a random message type and an input made of legal records with edits, of wild records, or of random bytes, and all truncations of legal encodings; non-trivial: the parser gets to a second record", Subs: []Sub{
		sub("verdict", 20000, 600000, genBytes(genOpts{big: 1}), runVerdict),
		sub("prefixes", 2000, 60000, genLegal(genOpts{}, 1), runPrefixes),
	}})
	addProp(&Prop{ID: "C07", Rule: "cases are a random message type and a legal encoding with one planted defect at any depth; non-trivial: the defect is inside a field", Subs: []Sub{
		sub("errors", 30000, 900000, genDefect(genOpts{}), runErrors),
	}})
	addProp(&Prop{ID: "C08", Rule: wireRule + "; here: more than one decode into the same message, or a populated destination", Subs: []Sub{
		sub("merge", 9000, 270000, genMerge(genOpts{guards: true, big: 1}, 5), runMerge),
	}})
	addProp(&Prop{ID: "C09", Rule: wireRule + "; here: at least one unknown field", Subs: []Sub{
		sub("unknown", 24000, 720000, genUnknownCase(genOpts{}), runUnknown),
		sub("giant", 60, 600, genGiant("skip"), runGiant),
	}})
}
