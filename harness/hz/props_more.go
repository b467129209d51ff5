package hz

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// rawRec is one record of an encoding.
type rawRec struct {
	num, wire int
	data      []byte // content of a length-delimited one
	u         uint64
}

func splitRecs(b []byte) (rs []rawRec, err error) {
	for len(b) > 0 {
		tag, n, class := getVarint(b)
		if class != "" {
			return nil, errors.New("tag: " + class)
		}
		b = b[n:]
		r := rawRec{num: int(tag >> 3), wire: int(tag & 7)}
		switch r.wire {
		case WVarint:
			if r.u, n, class = getVarint(b); class != "" {
				return nil, errors.New("varint: " + class)
			}
		case WI32, WI64:
			n = 4
			if r.wire == WI64 {
				n = 8
			}
			if len(b) < n {
				return nil, errors.New("truncated")
			}
			r.u = fromLE(b[:n])
		case WLen:
			u, k, class := getVarint(b)
			if class != "" || u > uint64(len(b)-k) {
				return nil, errors.New("length")
			}
			r.data = b[k : k+int(u)]
			n = k + int(u)
		default:
			return nil, errors.New("wire type")
		}
		b = b[n:]
		rs = append(rs, r)
	}
	return
}

// presenceErr checks that exactly the present fields of a normal message have
// records: one for each singular field, element and entry, and that each entry
// has exactly a key and a value.
func (s *Schema) presenceErr(mi int, b []byte, m *MV) error {
	rs, err := splitRecs(b)
	if err != nil {
		return err
	}
	by := map[int][]rawRec{}
	for _, r := range rs {
		if s.Msgs[mi].byNum(uint64(r.num)) < 0 {
			return fmt.Errorf("undeclared field %d in the encoding", r.num)
		}
		by[r.num] = append(by[r.num], r)
	}
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		if !f.proto() {
			continue
		}
		v := m.F[i]
		got := by[f.Num]
		want := 0
		if v != nil {
			want = 1
			if f.Card == CRep || f.Card == CMap {
				want = len(v.L)
			}
		}
		if len(got) != want {
			return fmt.Errorf("M%d.%d(%s %s) is %s, and the encoding has %d records of it", mi, f.Num, f.Card, f.Kind, s.valStr(f, v), len(got))
		}
		if v == nil {
			continue
		}
		if f.Card == CMap {
			if err := s.entriesErr(mi, f, v, got); err != nil {
				return err
			}
			continue
		}
		if f.Kind != KMessage {
			continue
		}
		for j, r := range got {
			e := v
			if f.Card == CRep {
				e = v.L[j]
			}
			if err := s.presenceErr(f.Msg, r.data, e.M); err != nil {
				return err
			}
		}
	}
	return nil
}

// entriesErr checks the entries of a map.
func (s *Schema) entriesErr(mi int, f *Field, v *Val, got []rawRec) error {
	name := fmt.Sprintf("M%d.%d(map %s %s)", mi, f.Num, f.Key, f.Kind)
	index := map[string]int{}
	for j := range v.K {
		index[v.K[j].keyString(f.Key)] = j
	}
	for _, r := range got {
		parts, err := splitRecs(r.data)
		if err != nil {
			return fmt.Errorf("%s: entry: %v", name, err)
		}
		var key, val *rawRec
		for i := range parts {
			switch p := &parts[i]; {
			case p.num == 1 && p.wire == f.Key.wire() && key == nil:
				key = p
			case p.num == 2 && p.wire == f.Kind.wire() && val == nil:
				val = p
			default:
				return fmt.Errorf("%s: entry with a second or wrong field %d (wire type %d): %s", name, p.num, p.wire, hexs(r.data))
			}
		}
		if key == nil {
			return fmt.Errorf("%s: entry without key: %s", name, hexs(r.data))
		}
		k := &Val{B: ofVarint(f.Key, key.u), S: key.data}
		if f.Key.wire() != WVarint {
			k.B = key.u
		}
		j, ok := index[k.keyString(f.Key)]
		if !ok {
			return fmt.Errorf("%s: key %s is not in the map, or has a second entry", name, s.valStr(&Field{Kind: f.Key}, k))
		}
		delete(index, k.keyString(f.Key))
		e := v.L[j]
		if val == nil {
			if f.Kind == KMessage && e.Nil {
				continue
			}
			return fmt.Errorf("%s: entry without value: %s", name, hexs(r.data))
		}
		switch {
		case f.Kind == KMessage:
			if err := s.presenceErr(f.Msg, val.data, e.M); err != nil {
				return err
			}
		case f.Kind.wire() == WLen:
			if !bytes.Equal(val.data, e.S) {
				return fmt.Errorf("%s: value is %s, want %s", name, hexs(val.data), hexs(e.S))
			}
		default:
			u := val.u
			if f.Kind.wire() == WVarint {
				u = ofVarint(f.Kind, u)
			}
			if u != e.B {
				return fmt.Errorf("%s: value of key %s is %#x, want %#x", name, s.valStr(&Field{Kind: f.Key}, k), u, e.B)
			}
		}
	}
	return nil
}

// runRecords: encode, look at the records, decode again.
func runRecords(c ValCase, x *Ctx) error {
	for _, v := range c.V {
		n := c.S.norm(0, v)
		want := c.S.withoutGuards(0, n)
		x.value(c.S, want)
		x.presence(c.S, 0, v)
		b, err := marshal(c.S.build(0, v))
		if err != nil {
			return fmt.Errorf("Marshal: %v (%s)", err, c.S)
		}
		if err := c.S.presenceErr(0, b, n); err != nil {
			return fmt.Errorf("%v (%s, %s)", err, c.S, hexs(b))
		}
		got, err := c.S.decodeNew(b)
		if err != nil {
			return fmt.Errorf("Unmarshal: %v (%s, %s)", err, c.S, hexs(b))
		}
		if d := c.S.diff(0, want, got); d != "" {
			return fmt.Errorf("after encoding and decoding: %s (%s, %s)", d, c.S, hexs(b))
		}
	}
	return nil
}

// presence counts zero values with and without presence.
func (x *Ctx) presence(s *Schema, mi int, m *MV) {
	if !x.counting {
		return
	}
	for i, v := range m.F {
		f := &s.Msgs[mi].Fields[i]
		if !f.proto() || f.Card == CRep || f.Card == CMap {
			continue
		}
		switch {
		case v == nil:
			x.class("absent")
		case f.Kind == KMessage:
			if v.M != nil {
				x.presence(s, f.Msg, v.M)
			}
		case v.B == 0 && len(v.bytes()) == 0:
			if f.presence() {
				x.class("present zero")
			} else {
				x.class("zero without presence")
			}
		case f.Kind == KFloat && v.B == 1<<31, f.Kind == KDouble && v.B == 1<<63:
			x.class("negative zero")
		default:
			x.class("not zero")
		}
	}
}

// genOf is genMerge with other options.
func genOf(o genOpts, n, start int, w wireOpts) func(t *rapid.T) WireCase {
	return func(t *rapid.T) WireCase {
		o := o
		c := WireCase{S: genSchema(t, &o)}
		if chance(t, start) {
			c.Start = genMV(t, c.S, 0, &o)
			addSpare(t, c.S, 0, c.Start, &o)
		}
		for i := intn(t, 1, n); i > 0; i-- {
			w := w
			w.genOpts = &o
			c.W = append(c.W, genWire(t, c.S, &w))
		}
		return c
	}
}

// C12: identity of list elements.

func runListIdentity(c WireCase, x *Ctx) error {
	if c.Start == nil {
		c.Start = c.S.newMV(0)
	}
	dst := c.S.build(0, c.Start)
	type held struct {
		i    int
		ptrs []unsafe.Pointer
	}
	p := dst.UnsafePointer()
	var before []held
	for i := range c.S.Msgs[0].Fields {
		f := &c.S.Msgs[0].Fields[i]
		if f.Card != CRep || f.Kind != KMessage {
			continue
		}
		h := held{i: i}
		fv := c.S.goField(0, i, p)
		for j := 0; j < fv.Len(); j++ {
			h.ptrs = append(h.ptrs, fv.Index(j).UnsafePointer())
		}
		before = append(before, h)
	}
	model := c.S.norm(0, c.Start)
	for i, rs := range c.W {
		b := encRecs(nil, rs)
		var d *refDecoder
		var e *derr
		model, d, e = c.S.refDecode(b, model)
		if e != nil {
			panic(harnessError{fmt.Errorf("generator made an illegal encoding: %v", e)})
		}
		x.wire(d, len(b))
		if err := unmarshal(b, dst); err != nil {
			return fmt.Errorf("decode %d: %v (%s, %s)", i, err, c.S, hexs(b))
		}
		if df := c.S.diff(0, model, c.S.get(dst)); df != "" {
			return fmt.Errorf("after decode %d: %s (%s, %s)", i, df, c.S, hexs(b))
		}
		for _, h := range before {
			fv := c.S.goField(0, h.i, p)
			for j, q := range h.ptrs {
				if fv.Index(j).UnsafePointer() != q {
					return fmt.Errorf("after decode %d: element %d of M0.%d was replaced by another message (%s, %s)",
						i, j, c.S.Msgs[0].Fields[h.i].Num, c.S, hexs(b))
				}
			}
		}
	}
	for i, v := range model.F {
		if v == nil || c.S.Msgs[0].Fields[i].Card != CRep {
			continue
		}
		f := &c.S.Msgs[0].Fields[i]
		x.classIf(len(v.L) > 10, "list 11+")
		x.classIf(len(v.L) > 40, "list 41+")
		x.classIf(len(v.L) > 200, "list 201+")
		x.classIf(c.Start.F[i] != nil && len(c.Start.F[i].Spare) > 0 && len(v.L) > len(c.Start.F[i].L), "grows into spare capacity")
		fv := c.S.goField(0, i, p)
		x.classIf(c.Start.F[i] != nil && len(c.Start.F[i].L) > 0 && fv.Len() > len(c.Start.F[i].L), "appends to a populated list")
		// the elements must be distinct messages
		if f.Kind == KMessage {
			seen := map[unsafe.Pointer]int{}
			for j := 0; j < fv.Len(); j++ {
				q := fv.Index(j).UnsafePointer()
				if q == nil || fv.Type().Elem().Elem().Size() == 0 {
					continue
				}
				if k, ok := seen[q]; ok {
					return fmt.Errorf("elements %d and %d of M0.%d are one message (%s)", k, j, f.Num, c.S)
				}
				seen[q] = j
			}
		}
	}
	x.nontrivial = len(c.W) > 1 || c.Start.count() > 0
	return nil
}

// C15: purity.

type span struct {
	lo, hi uintptr
	what   string
	str    bool // immutable
	ref    string
}

// spans lists the memory reachable from message mi at p, without p itself.
func (s *Schema) spans(mi int, p unsafe.Pointer, path string, out []span) []span {
	add := func(q unsafe.Pointer, n uintptr, what string, str bool) {
		if n > 0 && q != nil {
			out = append(out, span{uintptr(q), uintptr(q) + n, path + what, str, ""})
		}
	}
	var elem func(f *Field, fv reflect.Value, what string)
	elem = func(f *Field, fv reflect.Value, what string) {
		switch f.Kind {
		case KString:
			str := fv.String()
			if add(unsafe.Pointer(unsafe.StringData(str)), uintptr(len(str)), what, true); len(str) > 0 {
				out[len(out)-1].ref = str
			}
		case KBytes:
			b := fv.Bytes()
			add(unsafe.Pointer(unsafe.SliceData(b)), uintptr(cap(b)), what, false)
		case KMessage:
			if !fv.IsNil() {
				q := fv.UnsafePointer()
				add(q, fv.Type().Elem().Size(), what, false)
				out = s.spans(f.Msg, q, path+what, out)
			}
		}
	}
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		if !f.proto() {
			continue
		}
		fv := s.goField(mi, i, p)
		what := fmt.Sprintf(".%d", f.Num)
		switch f.Card {
		case CRep:
			if fv.Cap() > 0 {
				add(fv.UnsafePointer(), uintptr(fv.Cap())*fv.Type().Elem().Size(), what, false)
			}
			for j := 0; j < fv.Len(); j++ {
				elem(f, fv.Index(j), fmt.Sprintf("%s[%d]", what, j))
			}
		case CMap:
			kf := &Field{Kind: f.Key}
			it := fv.MapRange()
			for it.Next() {
				elem(kf, it.Key(), what+"[key]")
				elem(f, it.Value(), what+"[value]")
			}
			if fv.Len() > 0 {
				add(fv.UnsafePointer(), 1, what, false)
			}
		case CPtr, COpt, CReq:
			if f.Kind == KBytes || f.Kind == KMessage {
				elem(f, fv, what)
				break
			}
			if f.Card == CPtr {
				if fv.IsNil() {
					break
				}
				add(fv.UnsafePointer(), fv.Type().Elem().Size(), what, false)
				elem(f, fv.Elem(), what)
				break
			}
			if f.Kind == KString {
				o := *(*proto.Option[string])(fv.Addr().UnsafePointer())
				elem(f, reflect.ValueOf(o.Unwrap()), what)
			}
		default:
			elem(f, fv, what)
		}
	}
	return out
}

// overlap finds two overlapping ranges; two strings may share memory, as they
// cannot be changed.
func overlap(sp []span) string {
	sort.Slice(sp, func(i, j int) bool {
		if sp[i].lo != sp[j].lo {
			return sp[i].lo < sp[j].lo
		}
		return sp[i].hi > sp[j].hi
	})
	var end, mend span // the furthest range, and the furthest mutable one
	for _, x := range sp {
		if x.lo < mend.hi {
			return mend.what + " and " + x.what
		}
		if !x.str && x.lo < end.hi {
			return end.what + " and " + x.what
		}
		if x.hi > end.hi {
			end = x
		}
		if !x.str && x.hi > mend.hi {
			mend = x
		}
	}
	return ""
}

func bytesSpan(b []byte, what string) span {
	p := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return span{p, p + uintptr(cap(b)), what, false, ""}
}

func (s *Schema) mapFree(mi int, seen map[int]bool) bool {
	if seen[mi] {
		return true
	}
	seen[mi] = true
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		if !f.proto() {
			continue
		}
		if f.Card == CMap || f.Kind == KMessage && !s.mapFree(f.Msg, seen) {
			return false
		}
	}
	return true
}

func raw(p unsafe.Pointer, t reflect.Type) []byte {
	return unsafe.Slice((*byte)(p), t.Size())
}

func runEncodePure(c ValCase, x *Ctx) error {
	for _, v := range c.V {
		x.value(c.S, c.S.withoutGuards(0, c.S.norm(0, v)))
		p := c.S.build(0, v)
		before := c.S.get(p)
		ptr := p.UnsafePointer()
		mem := append([]byte{}, raw(ptr, c.S.Type(0))...)
		spans := c.S.spans(0, ptr, "", nil)
		same := func(what string) error {
			if !bytes.Equal(mem, raw(ptr, c.S.Type(0))) {
				return fmt.Errorf("%s changed the message (%s)", what, c.S)
			}
			if d := c.S.diff(0, before, c.S.get(p)); d != "" {
				return fmt.Errorf("%s changed the message: %s (%s)", what, d, c.S)
			}
			after := c.S.spans(0, ptr, "", nil)
			if len(after) != len(spans) {
				return fmt.Errorf("%s changed the memory of the message (%s)", what, c.S)
			}
			if err := c.S.spareErr(0, v, ptr); err != nil {
				return fmt.Errorf("%s: %v (%s)", what, err, c.S)
			}
			return nil
		}
		n := proto.Size(p.Interface())
		if err := same("Size"); err != nil {
			return err
		}
		a, err := marshal(p)
		if err != nil {
			return err
		}
		if err := same("Marshal"); err != nil {
			return err
		}
		keep := append([]byte{}, a...)
		if o := overlap(append(c.S.spans(0, ptr, "", nil), bytesSpan(a, "the encoding"))); o != "" {
			return fmt.Errorf("%s share memory (%s)", o, c.S)
		}
		b, err := marshal(p)
		if err != nil {
			return err
		}
		if len(a) > 0 && len(b) > 0 && &a[0] == &b[0] {
			return fmt.Errorf("two encodings share memory (%s)", c.S)
		}
		if c.S.mapFree(0, map[int]bool{}) {
			x.class("deterministic")
			if !bytes.Equal(a, b) {
				return fmt.Errorf("two encodings differ: %s and %s (%s)", hexs(a), hexs(b), c.S)
			}
		} else if len(a) != len(b) {
			return fmt.Errorf("two encodings differ in length: %s and %s (%s)", hexs(a), hexs(b), c.S)
		}
		if proto.Size(p.Interface()) != n {
			return fmt.Errorf("two calls of Size differ (%s)", c.S)
		}
		// another message of the type is encoded, the result stays
		for i := range b {
			b[i] = 0xa5
		}
		if _, err := marshal(c.S.build(0, c.V[0])); err != nil {
			return err
		}
		if !bytes.Equal(a, keep) {
			return fmt.Errorf("an encoding changed later: %s, was %s (%s)", hexs(a), hexs(keep), c.S)
		}
		if err := same("overwriting the encoding"); err != nil {
			return err
		}
	}
	return nil
}

// spareErr checks the content of the spare capacity of lists.
func (s *Schema) spareErr(mi int, m *MV, p unsafe.Pointer) error {
	for i, v := range m.F {
		f := &s.Msgs[mi].Fields[i]
		if v == nil || !f.proto() {
			continue
		}
		fv := s.goField(mi, i, p)
		switch {
		case f.Card == CRep && len(v.Spare) > 0:
			full := fv.Slice(0, fv.Cap())
			for j, e := range v.Spare {
				if d := s.diffElem(f, s.normElem(f, e), s.getElem(f, full.Index(len(v.L)+j))); d != "" {
					return fmt.Errorf("element in the spare capacity of M%d.%d changed: %s", mi, f.Num, d)
				}
			}
		case f.Card != CRep && f.Card != CMap && f.Kind == KMessage && v.M != nil:
			if err := s.spareErr(f.Msg, v.M, fv.UnsafePointer()); err != nil {
				return err
			}
		}
	}
	return nil
}

func genPureVal(t *rapid.T) ValCase {
	o := &genOpts{guards: true, big: 2}
	c := ValCase{S: genSchema(t, o)}
	for i := intn(t, 1, 2); i > 0; i-- {
		v := genMV(t, c.S, 0, o)
		if chance(t, 40) {
			addSpare(t, c.S, 0, v, o)
		}
		c.V = append(c.V, v)
	}
	return c
}

// Decoding into one element of an array: the neighbours must stay as they are.
func runDecodePure(c WireCase, x *Ctx) error {
	t := c.S.Type(0)
	arr := reflect.New(reflect.ArrayOf(3, t)).Elem()
	start := c.Start
	if start == nil {
		start = c.S.newMV(0)
	}
	for i := 0; i < 3; i++ {
		c.S.fill(0, start, arr.Index(i).Addr().UnsafePointer())
	}
	dst := arr.Index(1).Addr()
	mem0 := append([]byte{}, raw(arr.Index(0).Addr().UnsafePointer(), t)...)
	mem2 := append([]byte{}, raw(arr.Index(2).Addr().UnsafePointer(), t)...)
	model := c.S.norm(0, start)
	var results []*MV
	var inputs [][]byte
	for i, rs := range c.W {
		b := encRecs(nil, rs)
		keep := append([]byte{}, b...)
		b = append(make([]byte, 0, len(b)+16), b...)
		tail := b[len(b):cap(b)]
		for j := range tail {
			tail[j] = 0xee
		}
		var d *refDecoder
		var e *derr
		model, d, e = c.S.refDecode(b, model)
		if e != nil {
			panic(harnessError{fmt.Errorf("generator made an illegal encoding: %v", e)})
		}
		x.wire(d, len(b))
		type oldString struct{ ref, copy, what string }
		var old []oldString // somebody else may hold them
		for _, q := range c.S.spans(0, dst.UnsafePointer(), "", nil) {
			if q.str {
				old = append(old, oldString{q.ref, strings.Clone(q.ref), q.what})
			}
		}
		if err := unmarshal(b, dst); err != nil {
			return fmt.Errorf("decode %d: %v (%s, %s)", i, err, c.S, hexs(b))
		}
		for _, o := range old {
			if o.ref != o.copy {
				return fmt.Errorf("decode %d changed the contents of the string that %s held (%s, %s)", i, o.what, c.S, hexs(keep))
			}
		}
		x.classIf(len(old) > 0, "strings held before")
		if !bytes.Equal(b, keep) {
			return fmt.Errorf("decode %d modified the input (%s, %s)", i, c.S, hexs(keep))
		}
		for j := range tail {
			if tail[j] != 0xee {
				return fmt.Errorf("decode %d wrote behind the input (%s, %s)", i, c.S, hexs(keep))
			}
		}
		inputs = append(inputs, b)
		sp := c.S.spans(0, dst.UnsafePointer(), "", nil)
		for _, in := range inputs {
			sp = append(sp, bytesSpan(in, "the input"))
		}
		sp = append(sp, span{uintptr(dst.UnsafePointer()), uintptr(dst.UnsafePointer()) + t.Size(), "the destination", false, ""})
		if o := overlap(sp); o != "" {
			return fmt.Errorf("after decode %d: %s share memory (%s, %s)", i, o, c.S, hexs(keep))
		}
		for j := range b {
			b[j] = 0xaa
		}
		got := c.S.get(dst)
		if df := c.S.diff(0, model, got); df != "" {
			return fmt.Errorf("after decode %d and overwriting the input: %s (%s, %s)", i, df, c.S, hexs(keep))
		}
		results = append(results, got)
	}
	for _, i := range []int{0, 2} {
		keep := mem0
		if i == 2 {
			keep = mem2
		}
		p := arr.Index(i).Addr()
		if !bytes.Equal(keep, raw(p.UnsafePointer(), t)) {
			return fmt.Errorf("memory next to the destination was written (%s)", c.S)
		}
		if df := c.S.diff(0, c.S.norm(0, start), c.S.get(p)); df != "" {
			return fmt.Errorf("a message next to the destination changed: %s (%s)", df, c.S)
		}
	}
	// two messages decoded from one input have nothing in common
	in := encRecs(nil, c.W[0])
	var sp []span
	for i := 0; i < 2; i++ {
		v := c.S.New()
		if err := unmarshal(in, v); err != nil {
			return err
		}
		sp = c.S.spans(0, v.UnsafePointer(), fmt.Sprint("message ", i), sp)
	}
	if o := overlap(append(sp, bytesSpan(in, "the input"))); o != "" {
		return fmt.Errorf("decoding one input twice: %s share memory (%s, %s)", o, c.S, hexs(in))
	}
	x.nontrivial = len(in) > 3
	return nil
}

// C16: arguments.

type ArgCase struct {
	S     *Schema `json:"s"`
	Kind  int     `json:"kind"`
	Input []byte  `json:"input"`
	V     *MV     `json:"v"`
	First bool    `json:"first"` // no use of the type before
}

var argKinds = []string{"nil", "nil message", "struct", "pointer to pointer", "nil pointer to pointer", "pointer to int", "nil pointer to int",
	"pointer to string", "pointer to map", "pointer to slice", "map", "slice", "string", "int", "func", "chan", "pointer to interface",
	"nil func", "struct with one pointer", "pointer to array", "uintptr", "unsafe.Pointer", "pointer to func", "array with one pointer", "empty struct", "float", "bytes"}

func (c *ArgCase) arg() any {
	m := c.S.build(0, c.V)
	switch argKinds[c.Kind] {
	case "nil message":
		return reflect.Zero(m.Type()).Interface()
	case "struct":
		return m.Elem().Interface()
	case "pointer to pointer":
		p := reflect.New(m.Type())
		p.Elem().Set(m)
		return p.Interface()
	case "nil pointer to pointer":
		return reflect.Zero(reflect.PointerTo(m.Type())).Interface()
	case "pointer to int":
		return new(int64)
	case "nil pointer to int":
		return (*int64)(nil)
	case "pointer to string":
		s := "hello"
		return &s
	case "pointer to map":
		return &map[string]int{"a": 1}
	case "pointer to slice":
		return &[]byte{1, 2, 3}
	case "map":
		return map[string]int{"a": 1}
	case "slice":
		s := reflect.MakeSlice(reflect.SliceOf(m.Type()), 1, 1)
		s.Index(0).Set(m)
		return s.Interface()
	case "string":
		return "hello"
	case "int":
		return 5
	case "func":
		return func() {}
	case "chan":
		return make(chan int)
	case "pointer to interface":
		var a any = m.Interface()
		return &a
	case "nil func":
		return (func())(nil)
	case "struct with one pointer":
		return struct{ P any }{m.Interface()}
	case "pointer to array":
		return &[4]int64{1, 2, 3, 4}
	case "uintptr":
		return uintptr(4096)
	case "unsafe.Pointer":
		return m.UnsafePointer()
	case "pointer to func":
		f := func() {}
		return &f
	case "array with one pointer":
		return [1]*int64{new(int64)}
	case "empty struct":
		return struct{}{}
	case "float":
		return 1.5
	case "bytes":
		return []byte("abc")
	}
	return nil
}

func genArg(t *rapid.T) ArgCase {
	o := &genOpts{big: 0}
	c := ArgCase{S: genSchema(t, o), Kind: intn(t, 0, len(argKinds)-1), First: chance(t, 50)}
	c.V = genMV(t, c.S, 0, o)
	switch weighted(t, 20, 50, 30) {
	case 1:
		w := &wireOpts{genOpts: o}
		c.Input = encRecs(nil, genWire(t, c.S, w))
	case 2:
		c.Input = rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "")
	}
	return c
}

func runArg(c ArgCase, x *Ctx) error {
	arg := c.arg()
	name := argKinds[c.Kind]
	x.class(name)
	x.nontrivial = len(c.Input) > 0
	if !c.First {
		proto.Size(c.S.New().Interface())
	}
	var before []byte
	rv := reflect.ValueOf(arg)
	deref := rv.IsValid() && rv.Kind() == reflect.Pointer && !rv.IsNil() && rv.Type().Elem().Size() > 0
	if deref {
		before = append(before, raw(rv.UnsafePointer(), rv.Type().Elem())...)
	}
	same := func(what string) error {
		if deref && !bytes.Equal(before, raw(rv.UnsafePointer(), rv.Type().Elem())) {
			return fmt.Errorf("%s wrote to a %s", what, name)
		}
		return nil
	}
	err := proto.Unmarshal(c.Input, arg)
	if len(c.Input) > 0 {
		var ie *proto.InvalidUnmarshalError
		if !errors.As(err, &ie) {
			return fmt.Errorf("Unmarshal of %s into %s (%T) gives %v", hexs(c.Input), name, arg, err)
		}
		if ie.Type != reflect.TypeOf(arg) {
			return fmt.Errorf("Unmarshal into %s (%T): the error names type %v", name, arg, ie.Type)
		}
		if !strings.Contains(ie.Error(), fmt.Sprint(reflect.TypeOf(arg))) && !(arg == nil && strings.Contains(ie.Error(), "nil")) {
			return fmt.Errorf("Unmarshal into %s: the error text %q does not name the type %T", name, ie, arg)
		}
	}
	if err := same("Unmarshal"); err != nil {
		return err
	}
	switch {
	case name == "nil message":
		b, err := proto.Marshal(arg)
		if err != nil || len(b) != 0 {
			return fmt.Errorf("Marshal of a nil message gives %s, %v", hexs(b), err)
		}
		if n := proto.Size(arg); n != 0 {
			return fmt.Errorf("Size of a nil message is %d", n)
		}
	case !rv.IsValid() || rv.Kind() != reflect.Pointer:
		b, err := proto.Marshal(arg)
		if err == nil {
			return fmt.Errorf("Marshal of %s (%T) gives no error", name, arg)
		}
		if len(b) > 0 {
			return fmt.Errorf("Marshal of %s gives an error and %s", name, hexs(b))
		}
		n := -1
		if panics(func() { n = proto.Size(arg) }) == nil {
			return fmt.Errorf("Size of %s (%T) gives %d", name, arg, n)
		}
	}
	if err := same("Marshal"); err != nil {
		return err
	}
	// a valid destination: empty input changes nothing, and the type works
	v := c.S.build(0, c.V)
	mem := append([]byte{}, raw(v.UnsafePointer(), v.Type().Elem())...)
	for _, in := range [][]byte{nil, {}, make([]byte, 0, 8)} {
		if err := unmarshal(in, v); err != nil {
			return fmt.Errorf("Unmarshal of empty input: %v", err)
		}
		if !bytes.Equal(mem, raw(v.UnsafePointer(), v.Type().Elem())) {
			return fmt.Errorf("Unmarshal of empty input changed the message (%s)", c.S)
		}
	}
	n := c.S.norm(0, c.V)
	if d := c.S.diff(0, n, c.S.get(v)); d != "" {
		return fmt.Errorf("Unmarshal of empty input changed the message: %s (%s)", d, c.S)
	}
	b, err := marshal(v)
	if err != nil {
		return fmt.Errorf("Marshal afterwards: %v", err)
	}
	got, err := c.S.decodeNew(b)
	if err != nil {
		return fmt.Errorf("Unmarshal afterwards: %v", err)
	}
	if d := c.S.diff(0, c.S.withoutGuards(0, n), got); d != "" {
		return fmt.Errorf("round trip afterwards: %s (%s)", d, c.S)
	}
	return nil
}

// C20: Option.

// OptCase is a program over four option variables.
type OptCase struct {
	Kind int     `json:"kind"`
	Ops  []OptOp `json:"ops"`
}

type OptOp struct {
	Op   int    `json:"op"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	Bits uint64 `json:"bits,omitempty"`
	S    []byte `json:"s,omitempty"`
	Imp  bool   `json:"imp,omitempty"` // through the generated code's labels: required
}

const (
	opSome = iota
	opNone
	opHelper
	opCopy
	opZero
	opDecode
	opFailDecode
	opEncode
	opLast
)

type optOps struct {
	run func(c OptCase, x *Ctx) error
}

// OptMsg is decoded into; the fields around the option are sentinels.
type optMsg[T any] struct {
	Before uint64
	O      proto.Option[T]
	After  uint64
}

func optKind[T any](k Kind, helper func(T) proto.Option[T], conv func(bits uint64, s []byte) T, back func(T) *Val) optOps {
	s := &Schema{Msgs: []Msg{{Fields: []Field{{Num: 1, Kind: k, Card: COpt}}}}}
	t := reflect.StructOf([]reflect.StructField{
		{Name: "Before", Type: reflect.TypeFor[uint64]()},
		{Name: "O", Type: reflect.TypeFor[proto.Option[T]](), Tag: s.Msgs[0].Fields[0].tag()},
		{Name: "After", Type: reflect.TypeFor[uint64]()},
	})
	f := &s.Msgs[0].Fields[0]
	eq := func(a, b *Val) bool {
		if k == KString {
			return bytes.Equal(a.S, b.S)
		}
		return a.B == b.B
	}
	zero := &Val{}
	return optOps{run: func(c OptCase, x *Ctx) error {
		var real [4]proto.Option[T]
		var model [4]*Val
		x.class("kind " + string(k))
		for step, op := range c.Ops {
			if op.Op == opHelper && helper == nil {
				op.Op = opSome
			}
			v := conv(op.Bits, op.S)
			mv := back(v)
			switch op.Op {
			case opSome:
				real[op.A], model[op.A] = proto.Some(v), mv
			case opNone:
				real[op.A], model[op.A] = proto.None[T](), nil
			case opHelper:
				real[op.A], model[op.A] = helper(v), mv
			case opCopy:
				real[op.A], model[op.A] = real[op.B], model[op.B]
			case opZero:
				real[op.A], model[op.A] = proto.Option[T]{}, nil
			case opDecode, opFailDecode, opEncode:
				p := reflect.New(t)
				m := (*optMsg[T])(p.UnsafePointer())
				m.Before, m.After = 0x1122334455667788, 0x99aabbccddeeff00
				m.O = real[op.A]
				if op.Op == opEncode {
					b, err := proto.Marshal(p.Interface())
					if err != nil {
						return err
					}
					want := s.refEncode(nil, 0, &MV{F: []*Val{model[op.A]}})
					if !bytes.Equal(b, want) {
						return fmt.Errorf("step %d: option of %s encodes to %s, want %s", step, k, hexs(b), hexs(want))
					}
				} else {
					in := s.refEncode(nil, 0, &MV{F: []*Val{mv}})
					if op.Op == opFailDecode {
						in = in[:len(in)-1]
					}
					err := proto.Unmarshal(in, p.Interface())
					if (err != nil) != (op.Op == opFailDecode) {
						return fmt.Errorf("step %d: decoding %s: %v", step, hexs(in), err)
					}
					if err == nil {
						// the variable it was copied from must not see it
						if d := optState(f, s, real[op.A], model[op.A], eq, back, v); d != "" {
							return fmt.Errorf("step %d: decoding into a copy changed the original: %s", step, d)
						}
						real[op.A], model[op.A] = m.O, mv
						x.class("decoded")
					} else {
						// only what it held or what was sent
						if d := optState(f, s, m.O, model[op.A], eq, back, v); d != "" {
							return fmt.Errorf("step %d: after a failed decode: %s", step, d)
						}
					}
				}
				if m.Before != 0x1122334455667788 || m.After != 0x99aabbccddeeff00 {
					return fmt.Errorf("step %d: fields next to an option of %s were written", step, k)
				}
			}
			for i := range real {
				if d := optState(f, s, real[i], model[i], eq, back, v); d != "" {
					return fmt.Errorf("step %d, option %d of %s: %s", step, i, k, d)
				}
				x.classIf(model[i] != nil && eq(model[i], zero), "some zero")
			}
		}
		x.nontrivial = len(c.Ops) >= 3
		return nil
	}}
}

func optState[T any](f *Field, s *Schema, o proto.Option[T], m *Val, eq func(a, b *Val) bool, back func(T) *Val, def T) string {
	zero := &Val{}
	if o.IsSome() == o.IsNone() {
		return "IsSome equals IsNone"
	}
	if o.IsSome() != (m != nil) {
		return fmt.Sprintf("IsSome is %v, want %v", o.IsSome(), m != nil)
	}
	un, or := back(o.Unwrap()), back(o.UnwrapOr(def))
	if m != nil {
		if !eq(un, m) {
			return fmt.Sprintf("Unwrap gives %s, want %s", s.valStr(f, un), s.valStr(f, m))
		}
		if !eq(or, m) {
			return fmt.Sprintf("UnwrapOr gives %s, want %s", s.valStr(f, or), s.valStr(f, m))
		}
		return ""
	}
	if !eq(un, zero) {
		return fmt.Sprintf("Unwrap of none gives %s", s.valStr(f, un))
	}
	if !eq(or, back(def)) {
		return fmt.Sprintf("UnwrapOr of none gives %s, want %s", s.valStr(f, or), s.valStr(f, back(def)))
	}
	return ""
}

func scalarOpt[T any](k Kind, helper func(T) proto.Option[T]) optOps {
	return optKind(k, helper, func(bits uint64, s []byte) (v T) {
		switch p := any(&v).(type) {
		case *bool:
			*p = bits&1 != 0
		case *string:
			*p = string(s)
		case *int32:
			*p = int32(bits)
		case *uint32:
			*p = uint32(bits)
		case *int64:
			*p = int64(bits)
		case *uint64:
			*p = bits
		case *float32:
			*p = math.Float32frombits(uint32(bits))
		case *float64:
			*p = math.Float64frombits(bits)
		}
		return
	}, func(v T) *Val {
		switch v := any(v).(type) {
		case bool:
			if v {
				return &Val{B: 1}
			}
			return &Val{}
		case string:
			return &Val{S: []byte(v)}
		case int32:
			return &Val{B: uint64(uint32(v))}
		case uint32:
			return &Val{B: uint64(v)}
		case int64:
			return &Val{B: uint64(v)}
		case uint64:
			return &Val{B: v}
		case float32:
			return &Val{B: uint64(math.Float32bits(v))}
		case float64:
			return &Val{B: math.Float64bits(v)}
		}
		panic("option")
	})
}

var optionOps = []optOps{
	scalarOpt(KBool, proto.Bool),
	scalarOpt(KInt32, proto.Int32),
	scalarOpt(KSint32, proto.Int32),
	scalarOpt(KSfixed32, proto.Int32),
	scalarOpt(KEnum, proto.Int32),
	scalarOpt(KUint32, proto.Uint32),
	scalarOpt(KFixed32, proto.Uint32),
	scalarOpt(KInt64, proto.Int64),
	scalarOpt(KSint64, proto.Int64),
	scalarOpt(KSfixed64, proto.Int64),
	scalarOpt(KUint64, proto.Uint64),
	scalarOpt(KFixed64, proto.Uint64),
	scalarOpt(KFloat, proto.Float32),
	scalarOpt(KDouble, proto.Float64),
	scalarOpt(KString, proto.String),
}

func genOpt(t *rapid.T) OptCase {
	c := OptCase{Kind: intn(t, 0, len(optionOps)-1)}
	if chance(t, 15) {
		c.Kind = len(optionOps) - 1 // strings
	}
	var held [][]byte
	for i := intn(t, 1, 14); i > 0; i-- {
		op := OptOp{Op: intn(t, 0, opLast-1), A: intn(t, 0, 3), B: intn(t, 0, 3)}
		if chance(t, 70) {
			op.Bits = genBits(t, pick(t, []Kind{KUint64, KDouble, KFloat}), nil)
			op.S = genContent(t, KString, &genOpts{}).bytes()
			if len(held) > 0 && chance(t, 40) { // as long as one before
				op.S = bytes.Repeat([]byte{byte(intn(t, 'a', 'z'))}, len(pick(t, held)))
			}
			if len(op.S) > 0 {
				held = append(held, op.S)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// Options of types which are not fields: structs, slices, pointers.
type OptAnyCase struct {
	A, B []int
	Nil  bool
}

func genOptAny(t *rapid.T) OptAnyCase {
	return OptAnyCase{A: rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, ""), B: rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, ""), Nil: chance(t, 30)}
}

func runOptAny(c OptAnyCase, x *Ctx) error {
	type st struct {
		A []int
		M map[int]int
		P *int
		F any
	}
	n := len(c.A)
	v := st{A: c.A, P: &n, F: c.B}
	if c.Nil {
		v = st{}
	}
	x.nontrivial = !c.Nil
	if err := optLaws(v, st{A: c.B}); err != nil {
		return err
	}
	if err := optLaws(c.A, c.B); err != nil {
		return err
	}
	if err := optLaws([3]int{n}, [3]int{1, 2, 3}); err != nil {
		return err
	}
	if err := optLaws(&n, nil); err != nil {
		return err
	}
	return optLaws(any(c.A), any(n))
}

func optLaws[T any](v, def T) error {
	var zero T
	o := proto.Some(v)
	if !o.IsSome() || o.IsNone() || !reflect.DeepEqual(o.Unwrap(), v) || !reflect.DeepEqual(o.UnwrapOr(def), v) {
		return fmt.Errorf("Some(%#v) is some %v, Unwrap %#v, UnwrapOr %#v", v, o.IsSome(), o.Unwrap(), o.UnwrapOr(def))
	}
	for i, e := range []proto.Option[T]{proto.None[T](), {}} {
		if e.IsSome() || !e.IsNone() || !reflect.DeepEqual(e.Unwrap(), zero) || !reflect.DeepEqual(e.UnwrapOr(def), def) {
			return fmt.Errorf("none %d of %T: is some %v, Unwrap %#v, UnwrapOr %#v", i, v, e.IsSome(), e.Unwrap(), e.UnwrapOr(def))
		}
	}
	c := o
	o = proto.None[T]()
	if !c.IsSome() || !reflect.DeepEqual(c.Unwrap(), v) {
		return fmt.Errorf("overwriting an option of %T changed its copy", v)
	}
	return nil
}

// C23: exact bytes.

type ScalarCase struct {
	Kind   Kind   `json:"kind"`
	Key    Kind   `json:"key,omitempty"`
	Card   string `json:"card"`
	AsKey  bool   `json:"askey,omitempty"`
	Num    int    `json:"num"`
	Named  bool   `json:"named,omitempty"`
	V      []*Val `json:"v"`
	Packed bool   `json:"packed,omitempty"`
}

func allValues(t *rapid.T, k Kind) []*Val {
	var vs []*Val
	switch k {
	case KBool:
		return []*Val{{B: 0}, {B: 1}}
	case KString, KBytes:
		for i := 0; i < 6; i++ {
			vs = append(vs, genContent(t, k, &genOpts{}))
		}
		return append(vs, &Val{})
	case KFloat:
		for _, b := range float32s {
			vs = append(vs, &Val{B: b})
		}
	case KDouble:
		for _, b := range float64s {
			vs = append(vs, &Val{B: b})
		}
	default:
		bs := boundaries
		if k.is32() {
			for _, b := range bs {
				vs = append(vs, &Val{B: uint64(uint32(b))})
			}
		} else {
			for _, b := range bs {
				vs = append(vs, &Val{B: b})
			}
		}
		// powers of two of both signs, and their neighbours
		for i := 0; i < 12; i++ {
			vs = append(vs, &Val{B: genBits(t, k, nil)})
		}
		n := uint(intn(t, 0, 63))
		for d := uint64(0); d < 3; d++ {
			for _, b := range []uint64{1<<n - 1 + d, -(1 << n) - 1 + d} {
				if k.is32() {
					b = uint64(uint32(b))
				}
				vs = append(vs, &Val{B: b})
			}
		}
	}
	for i := 0; i < 8; i++ {
		b := u64(t)
		if k.is32() {
			b = uint64(uint32(b))
		}
		vs = append(vs, &Val{B: b})
	}
	return vs
}

func genScalarCase(t *rapid.T) ScalarCase {
	c := ScalarCase{Kind: pick(t, scalarKinds), Card: pick(t, []string{CImp, COpt, CReq, CPtr, CRep, CRep, CMap, CMap})}
	c.Num = genNum(t, map[int]bool{}, false)
	if c.Card == CMap {
		c.Key = pick(t, mapKeyKinds)
		if c.Kind != KFloat && c.Kind != KDouble && c.Kind != KBytes && c.Kind != KEnum && chance(t, 50) {
			c.AsKey, c.Key, c.Kind = true, c.Kind, pick(t, scalarKinds)
		}
	}
	if c.Card != COpt && c.Card != CReq && !(c.Card == CPtr && c.Kind == KBytes) && chance(t, 8) {
		c.Named = true
	}
	k := c.Kind
	if c.AsKey {
		k = c.Key
	}
	c.V = allValues(t, k)
	c.Packed = c.Card == CRep && chance(t, 40)
	return c
}

func runScalar(c ScalarCase, x *Ctx) error {
	s := &Schema{Msgs: []Msg{{Fields: []Field{{Num: c.Num, Kind: c.Kind, Card: c.Card, Key: c.Key, Named: c.Named}}}}}
	f := &s.Msgs[0].Fields[0]
	x.nontrivial = true
	x.class(fmt.Sprintf("%s %s", c.Card, c.Kind))
	x.classIf(c.AsKey, "map key "+string(c.Key))
	check := func(v *Val) error {
		m := &MV{F: []*Val{v}}
		n := s.norm(0, m)
		want := s.refEncode(nil, 0, n)
		p := s.build(0, m)
		got, err := marshal(p)
		if err != nil {
			return err
		}
		if size := proto.Size(p.Interface()); size != len(want) {
			return fmt.Errorf("Size is %d, want %d (%s, %s)", size, len(want), s, hexs(want))
		}
		switch {
		case bytes.Equal(got, want):
		case c.Card == CMap && len(v.K) == 1 && len(got) == len(want):
			// the parts of an entry have no prescribed order
			if err := s.presenceErr(0, got, n); err != nil {
				return fmt.Errorf("%v (%s, %s)", err, s, hexs(got))
			}
			if d, _, e := s.refDecode(got, nil); e != nil || s.diff(0, n, d) != "" {
				return fmt.Errorf("encoded as %s, want %s (%s)", hexs(got), hexs(want), s)
			}
		default:
			return fmt.Errorf("encoded as %s, want %s (%s)", hexs(got), hexs(want), s)
		}
		back, err := s.decodeNew(want)
		if err != nil {
			return fmt.Errorf("decoding %s: %v (%s)", hexs(want), err, s)
		}
		if d := s.diff(0, n, back); d != "" {
			return fmt.Errorf("decoding %s: %s (%s)", hexs(want), d, s)
		}
		return nil
	}
	if c.Card == CRep {
		if err := check(&Val{L: c.V}); err != nil {
			return err
		}
		if c.Packed && f.packable() {
			var b []byte
			for _, v := range c.V {
				b = s.refBare(b, f, v)
			}
			in := append(uvarint(uvarint(nil, tagOf(c.Num, WLen)), uint64(len(b))), b...)
			got, err := s.decodeNew(in)
			if err != nil {
				return fmt.Errorf("decoding packed %s: %v (%s)", hexs(in), err, s)
			}
			if d := s.diff(0, s.norm(0, &MV{F: []*Val{{L: c.V}}}), got); d != "" {
				return fmt.Errorf("decoding packed %s: %s (%s)", hexs(in), d, s)
			}
			x.class("packed")
		}
	}
	for i, v := range c.V {
		x.class("values")
		e := v
		switch {
		case c.Card == CRep:
			e = &Val{L: []*Val{v}}
		case c.AsKey:
			e = &Val{K: []*Val{v}, L: []*Val{{B: uint64(i & 1), S: []byte{'x'}}}}
		case c.Card == CMap:
			e = &Val{K: []*Val{{B: uint64(i & 1), S: []byte{'k'}}}, L: []*Val{v}}
		}
		if err := check(e); err != nil {
			return err
		}
	}
	return nil
}

// C24: failed calls.

type FailOp struct {
	T int `json:"t"` // which type
	// Op: 0 decode of W into a fresh message, 1 decode of W into the shared
	// message of the type, 2 encode of V, 3 invalid argument
	Op int    `json:"op"`
	W  []Rec  `json:"w,omitempty"`
	E  []Edit `json:"e,omitempty"`
	V  *MV    `json:"v,omitempty"`
}

type FailCase struct {
	Ss  []*Schema `json:"ss"`
	Ops []FailOp  `json:"ops"`
}

func genFail(t *rapid.T) FailCase {
	o := &genOpts{same: 25, cards: []int{20, 12, 25, 33, 6, 4}}
	c := FailCase{}
	for i := intn(t, 1, 2); i > 0; i-- {
		c.Ss = append(c.Ss, genSchema(t, o))
	}
	for i := intn(t, 2, 9); i > 0; i-- {
		op := FailOp{T: intn(t, 0, len(c.Ss)-1)}
		s := c.Ss[op.T]
		op.Op = weighted(t, 45, 30, 22, 3)
		switch op.Op {
		case 0, 1:
			w := &wireOpts{genOpts: o, packed: true, unknown: chance(t, 30), pad: chance(t, 20)}
			op.W = genWire(t, s, w)
			switch weighted(t, 35, 40, 25) {
			case 1:
				op.W = plant(t, s, 0, op.W)
			case 2:
				op.E = append(op.E, genEdit(t))
			}
		case 2:
			op.V = genMV(t, s, 0, o)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// refPartial decodes with the given treatment of the construct with the error.
func (s *Schema) refPartial(b []byte, into *MV, keep int, dropPacked bool) (*MV, *derr) {
	d := &refDecoder{s: s, keep: keep, dropPacked: dropPacked}
	m := s.clone(0, into)
	e := d.decode(0, b, m, 0)
	return s.norm(0, m), e
}

func runFail(c FailCase, x *Ctx) error {
	dst := make([]reflect.Value, len(c.Ss))
	model := make([]*MV, len(c.Ss))
	for i, s := range c.Ss {
		dst[i], model[i] = s.New(), s.newMV(0)
	}
	fails, after := 0, 0
	for i, op := range c.Ops {
		s := c.Ss[op.T]
		at := func(f string, a ...any) error {
			return fmt.Errorf("operation %d (%d calls failed before): %s (%s)", i, fails, fmt.Sprintf(f, a...), s)
		}
		switch op.Op {
		case 2:
			n := s.norm(0, op.V)
			b, err := marshal(s.build(0, op.V))
			if err != nil {
				return at("Marshal: %v", err)
			}
			if err := s.presenceErr(0, b, n); err != nil {
				return at("Marshal: %v, %s", err, hexs(b))
			}
			got, _, e := s.refDecode(b, nil)
			if e != nil {
				return at("Marshal gives %s: %v", hexs(b), e)
			}
			if d := s.diff(0, s.withoutGuards(0, n), got); d != "" {
				return at("Marshal gives %s: %s", hexs(b), d)
			}
			if fails > 0 {
				after++
			}
			continue
		case 3:
			if err := proto.Unmarshal([]byte{8, 1}, 3); err == nil {
				return at("Unmarshal into an int succeeds")
			}
			if _, err := proto.Marshal(3); err == nil {
				return at("Marshal of an int succeeds")
			}
			fails++
			continue
		}
		bc := BytesCase{W: op.W, E: op.E}
		b := bc.input()
		into := s.newMV(0)
		v := s.New()
		if op.Op == 1 {
			into, v = model[op.T], dst[op.T]
		}
		want, d, e := s.refDecode(b, into)
		if d.unspecified {
			if op.Op == 0 {
				unmarshal(b, v)
			}
			continue
		}
		err := unmarshal(b, v)
		if (err != nil) != (e != nil) {
			return at("decoding %s: got %v, want %v", hexs(b), err, e)
		}
		got := s.get(v)
		if e == nil {
			if df := s.diff(0, want, got); df != "" {
				return at("decoding %s: %s", hexs(b), df)
			}
			if fails > 0 {
				after++
			}
		} else {
			fails++
			x.class("failed decodes")
			x.classIf(e.depth > 0, "failed inside")
			ok := s.diff(0, into, got) == ""
			for keep := 0; keep <= e.depth+1 && !ok; keep++ {
				for _, dp := range []bool{false, true} {
					m, _ := s.refPartial(b, into, keep, dp)
					ok = ok || s.diff(0, m, got) == ""
				}
			}
			if !ok {
				m, _ := s.refPartial(b, into, 1<<30, false)
				return at("failed decode of %s (%v): the message holds something which is neither old nor from the input before the error; compared to the values before the error: %s",
					hexs(b), e, s.diff(0, m, got))
			}
			// the destination stays usable
			enc, err := marshal(v)
			if err != nil {
				return at("Marshal of the destination of a failed decode: %v", err)
			}
			if n := proto.Size(v.Interface()); n != len(enc) {
				return at("after a failed decode Size is %d, Marshal gives %d bytes", n, len(enc))
			}
			back, _, e := s.refDecode(enc, nil)
			if e != nil {
				return at("after a failed decode Marshal gives %s: %v", hexs(enc), e)
			}
			if df := s.diff(0, s.withoutGuards(0, got), back); df != "" {
				return at("after a failed decode Marshal gives %s: %s", hexs(enc), df)
			}
		}
		if op.Op == 1 {
			model[op.T] = got
		}
	}
	x.nontrivial = fails > 0 && after > 0
	x.classIf(x.nontrivial, "success after failure")
	return nil
}

// C24: many failed calls.

type RepeatCase struct {
	S    *Schema `json:"s"`
	Bad  []Rec   `json:"bad"`  // decoded many times
	Good []Rec   `json:"good"` // decoded in between, and at the end
	V    *MV     `json:"v"`    // encoded at the end
	N    int     `json:"n"`
	Mix  int     `json:"mix"` // every how many failures a success follows; 0: never
	Enc  int     `json:"enc"` // how many times V is measured and encoded
}

func genRepeat(t *rapid.T) RepeatCase {
	o := &genOpts{same: 20, cards: []int{20, 12, 25, 33, 6, 4}, maxMsgs: 3}
	c := RepeatCase{S: genSchema(t, o)}
	w := &wireOpts{genOpts: o, packed: true}
	c.Bad = genWire(t, c.S, w)
	if chance(t, 85) {
		c.Bad = plant(t, c.S, 0, c.Bad)
	}
	c.Good = genWire(t, c.S, w)
	c.V = genMV(t, c.S, 0, o)
	c.N = pick(t, []int{1, 40, 300, 1100, 11000, 70000, 140000, 1100000})
	c.Mix = pick(t, []int{0, 1, 2, 100})
	c.Enc = pick(t, []int{1, 40, 300, 1100, 11000, 70000, 140000, 1100000})
	if d, ok := dictInt(t, 200, 1, 1100000); ok {
		c.N, c.Enc = d, d
	}
	return c
}

func runRepeat(c RepeatCase, x *Ctx) error {
	bad, good := encRecs(nil, c.Bad), encRecs(nil, c.Good)
	_, d, e := c.S.refDecode(bad, nil)
	want, dg, eg := c.S.refDecode(good, nil)
	if d.unspecified || dg.unspecified || eg != nil {
		return nil
	}
	cost := len(bad) + int(c.S.Type(0).Size()) + 50
	if c.Mix == 1 || c.Mix == 2 {
		cost += len(good) + int(c.S.Type(0).Size())
	}
	n := min(c.N, 1<<28/cost)
	check := func(i int) error {
		v := c.S.New()
		if err := unmarshal(good, v); err != nil {
			return fmt.Errorf("after %d decodes of %s (%v) decoding %s fails: %v (%s)", i, hexs(bad), e, hexs(good), err, c.S)
		}
		if df := c.S.diff(0, want, c.S.get(v)); df != "" {
			return fmt.Errorf("after %d decodes of %s (%v) decoding %s: %s (%s)", i, hexs(bad), e, hexs(good), df, c.S)
		}
		return nil
	}
	if err := check(0); err != nil {
		return err
	}
	for i, start := 0, cpuNow(); i < n; i++ {
		if i%256 == 0 && cpuNow()-start > int64(6*time.Second) {
			n = i
			break
		}
		v := c.S.New()
		if err := unmarshal(bad, v); (err != nil) != (e != nil) {
			return fmt.Errorf("decode %d of the same bytes %s: got %v, want %v (%s)", i+1, hexs(bad), err, e, c.S)
		}
		if c.Mix > 0 && (i+1)%c.Mix == 0 {
			if c.Mix > 2 || i < 200 || i%1024 == 0 {
				if err := check(i + 1); err != nil {
					return err
				}
			} else if err := unmarshal(good, c.S.New()); err != nil {
				return fmt.Errorf("after %d decodes of %s (%v) decoding %s fails: %v (%s)", i+1, hexs(bad), e, hexs(good), err, c.S)
			}
		}
	}
	x.nontrivial = n >= 10 && len(good) > 0 && len(bad) > 0
	x.classIf(e != nil, "failures repeated")
	x.classIf(e == nil, "successes repeated")
	x.classIf(n >= 1000, "1000 or more calls")
	x.classIf(n >= 65536, "65536 or more calls")
	x.classIf(n >= 1000000, "1000000 or more calls")
	if err := check(n); err != nil {
		return err
	}
	nv := c.S.withoutGuards(0, c.S.norm(0, c.V))
	gv := c.S.build(0, c.V)
	var first []byte
	sum := func(b []byte) (n uint64) { // the entries of a map come in any order
		for _, c := range b {
			n += uint64(c) * (uint64(c) | 0x100)
		}
		return n
	}
	encode := func(i int) error {
		b, err := marshal(gv)
		if err != nil {
			return fmt.Errorf("after %d decodes of %s (%v) and %d encodings: Marshal: %v (%s)", n, hexs(bad), e, i, err, c.S)
		}
		if size := proto.Size(gv.Interface()); size != len(b) {
			return fmt.Errorf("after %d decodes of %s (%v) and %d encodings: Size is %d, Marshal gives %s (%s)", n, hexs(bad), e, i, size, hexs(b), c.S)
		}
		if i > 0 && bytes.Equal(b, first) {
			return nil
		}
		if i > 0 && len(b) != len(first) {
			return fmt.Errorf("after %d decodes of %s (%v) and %d encodings Marshal gives %s, at first %s (%s)", n, hexs(bad), e, i, hexs(b), hexs(first), c.S)
		}
		if i > 200 && i%1024 != 0 && sum(b) == sum(first) {
			return nil
		}
		first = append(first[:0], b...)
		got, _, e2 := c.S.refDecode(b, nil)
		if e2 != nil {
			return fmt.Errorf("after %d decodes of %s (%v) and %d encodings: Marshal gives %s: %v (%s)", n, hexs(bad), e, i, hexs(b), e2, c.S)
		}
		if df := c.S.diff(0, nv, got); df != "" {
			return fmt.Errorf("after %d decodes of %s (%v) and %d encodings: Marshal gives %s: %s (%s)", n, hexs(bad), e, i, hexs(b), df, c.S)
		}
		return nil
	}
	if err := encode(0); err != nil {
		return err
	}
	m := min(c.Enc, 1<<28/(10*len(first)+200))
	for i, start := 1, cpuNow(); i <= m; i++ {
		if i%256 == 0 && cpuNow()-start > int64(6*time.Second) {
			m = i
			break
		}
		if err := encode(i); err != nil {
			return err
		}
	}
	x.classIf(m >= 65536, "65536 or more encodings")
	x.classIf(m >= 1000000, "1000000 or more encodings")
	return nil
}

func init() {
	addProp(&Prop{ID: "C10", Rule: "cases are a random message type made mostly of fields with presence and values which are zero, negative zero or absent half of the time, at any nesting; encodings of such values in raw form, also into populated messages; non-trivial: at least two present fields or two records", Subs: []Sub{
		sub("encode", 12000, 360000, genValCase(genOpts{zero: 50, cards: []int{24, 26, 14, 12, 16, 8}, guards: true}, 3), runRecords),
		sub("decode", 9000, 270000, genOf(genOpts{zero: 55, cards: []int{24, 26, 10, 12, 18, 10}}, 4, 50, wireOpts{packed: true, wide: false}), runMerge),
	}})
	addProp(&Prop{ID: "C11", Rule: "cases are a random message type made of map fields, often of one Go type with different tags, and maps of all sizes, some of up to 100000 entries; encodings made of entries with missing, repeated, reordered and unknown parts, also into populated maps; non-trivial: at least two entries or records", Subs: []Sub{
		sub("encode", 4000, 120000, genValCase(genOpts{cards: []int{5, 0, 5, 90, 0, 0}, long: 12, big: 6, same: 40, zero: 15}, 2), runRecords),
		sub("decode", 4800, 144000, genOf(genOpts{cards: []int{5, 0, 5, 90, 0, 0}, long: 6, same: 40, zero: 25, big: 2}, 4, 50, wireOpts{packed: true, unknown: true, pad: true, wide: true}), runMerge),
		sub("huge", 24, 1500, genHuge(CMap), runHuge),
	}})
	addProp(&Prop{ID: "C12", Rule: "cases are a random message type made of lists, often of one Go type with different tags; lists of lengths around the growth steps, some of up to 200000 elements, populated destinations with spare capacity, packed and unpacked and mixed input; non-trivial: at least two decodes or a populated destination", Subs: []Sub{
		sub("encode", 5000, 150000, genValCase(genOpts{cards: []int{5, 0, 90, 5, 0, 0}, long: 15, big: 8, same: 40, zero: 15}, 2), runRecords),
		sub("decode", 6000, 180000, genOf(genOpts{cards: []int{5, 0, 90, 5, 0, 0}, long: 12, big: 4, same: 40, zero: 15}, 5, 60, wireOpts{packed: true}), runListIdentity),
		sub("huge", 40, 2400, genHuge(CRep), runHuge),
	}})
	addProp(&Prop{ID: "C15", Rule: "cases are a random message type with untagged and unexported fields, values with spare capacity, encodings, and a populated destination between two neighbours in an array; all memory reachable from the results is compared pairwise; non-trivial: at least two values, or an input of four bytes", Subs: []Sub{
		sub("encode", 6000, 180000, genPureVal, runEncodePure),
		sub("edge", 4000, 120000, genEdgeVal, runEdgeEncode),
		sub("readonly", 4000, 120000, genEdgeBytes, runEdgeDecode),
		sub("decode", 6000, 180000, genOf(genOpts{guards: true, big: 1, echo: 15}, 3, 40, wireOpts{packed: true, unknown: true, pad: true, wide: true}), runDecodePure),
	}})
	addProp(&Prop{ID: "C16", Rule: "cases are one of 27 kinds of invalid argument built from a random message type which may never have been used before, and an input which is empty, legal or random; non-trivial: the input is not empty", Subs: []Sub{
		sub("args", 20000, 600000, genArg, runArg),
	}})
	addProp(&Prop{ID: "C20", Rule: "cases are a scalar kind and a program over four option variables (Some, None, helpers, copies, decoding into a copy, failing decodes, encoding), compared with a model after every step; non-trivial: at least three steps", Subs: []Sub{
		sub("laws", 60000, 1800000, genOpt, func(c OptCase, x *Ctx) error { return optionOps[c.Kind].run(c, x) }),
		sub("types", 5000, 150000, genOptAny, runOptAny),
	}})
	addProp(&Prop{ID: "C23", Rule: "cases are a scalar kind, a position, a field number and all boundary values of the kind with further random ones, each compared with the exact bytes; every case is non-trivial", Subs: []Sub{
		sub("exact", 16000, 270000, genScalarCase, runScalar),
	}})
	addProp(&Prop{ID: "C24", Rule: "cases are a history of decodes (legal, with a planted defect, or edited) into fresh and shared messages, encodes and invalid calls on one or two message types (non-trivial: a call succeeds after one failed), or up to 1.1 million decodes of the same, mostly malformed bytes with valid decodes among and after them (non-trivial: at least 10 decodes)", Subs: []Sub{
		sub("history", 8000, 240000, genFail, runFail),
		sub("repeats", 30, 450, genRepeat, runRepeat),
	}})
}
