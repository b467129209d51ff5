package hz

import (
	"fmt"
	"math/bits"
)

// Reference wire codec, written from the protobuf encoding documentation.

func uvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func uvarintLen(v uint64) int {
	if v == 0 {
		return 1
	}
	return (bits.Len64(v) + 6) / 7
}

// uvarintPad encodes v in pad more bytes than needed, at most ten in all.
func uvarintPad(b []byte, v uint64, pad int) []byte {
	n := uvarintLen(v)
	if n+pad > 10 {
		pad = 10 - n
	}
	if pad <= 0 {
		return uvarint(b, v)
	}
	b = uvarint(b, v)
	b[len(b)-1] |= 0x80
	for ; pad > 1; pad-- {
		b = append(b, 0x80)
	}
	return append(b, 0)
}

func le(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

// varintOf gives the number sent for the bits of a scalar of varint type.
func varintOf(k Kind, v uint64) uint64 {
	switch k {
	case KInt32, KEnum:
		return uint64(int64(int32(v)))
	case KSint32:
		x := int32(v)
		return uint64(uint32(x<<1) ^ uint32(x>>31))
	case KSint64:
		x := int64(v)
		return uint64(x<<1) ^ uint64(x>>63)
	}
	return v
}

// ofVarint is the inverse, for any number which may be sent for the kind.
func ofVarint(k Kind, u uint64) uint64 {
	switch k {
	case KBool:
		if u != 0 {
			return 1
		}
		return 0
	case KInt32, KUint32, KEnum:
		return uint64(uint32(u))
	case KSint32:
		x := uint32(u)
		return uint64(x>>1 ^ -(x & 1))
	case KSint64:
		return u>>1 ^ -(u & 1)
	}
	return u
}

func tagOf(num int, wire int) uint64 { return uint64(num)<<3 | uint64(wire) }

// refBare encodes one value without tag (length-delimited ones with length).
func (s *Schema) refBare(b []byte, f *Field, v *Val) []byte {
	switch f.Kind.wire() {
	case WVarint:
		return uvarint(b, varintOf(f.Kind, v.B))
	case WI32:
		return le(b, v.B, 4)
	case WI64:
		return le(b, v.B, 8)
	}
	c := v.bytes()
	if f.Kind == KMessage {
		c = s.refEncode(nil, f.Msg, v.M)
	}
	return append(uvarint(b, uint64(len(c))), c...)
}

// refEncode appends the canonical encoding, lists unpacked. Nil message values
// of maps are sent as missing.
func (s *Schema) refEncode(b []byte, mi int, m *MV) []byte {
	if m == nil {
		return b
	}
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		v := m.F[i]
		if v == nil || !f.proto() {
			continue
		}
		tag := tagOf(f.Num, f.wire())
		switch f.Card {
		case CRep:
			for _, e := range v.L {
				b = s.refBare(uvarint(b, tag), f, e)
			}
		case CMap:
			kf := &Field{Kind: f.Key}
			for j := range v.K {
				e := s.refBare(uvarint(nil, tagOf(1, f.Key.wire())), kf, v.K[j])
				if !(f.Kind == KMessage && v.L[j].Nil) {
					e = s.refBare(uvarint(e, tagOf(2, f.Kind.wire())), f, v.L[j])
				}
				b = append(uvarint(uvarint(b, tag), uint64(len(e))), e...)
			}
		default:
			b = s.refBare(uvarint(b, tag), f, v)
		}
	}
	return b
}

// Error classes of the reference decoder.
const (
	eEOF      = "truncated"
	eOverflow = "varint overflow"
	eMismatch = "wire type mismatch"
	eWire     = "unsupported wire type"
)

type pathElem struct{ Num, Wire int }

type derr struct {
	class string
	path  []pathElem // outermost first
	depth int        // nesting level of the message it was found in
}

func (e *derr) Error() string { return fmt.Sprintf("%s at %v", e.class, e.path) }

type refDecoder struct {
	s *Schema
	// unspecified is set when a field number outside 1..2^29-1 was seen.
	unspecified bool
	// keep is the nesting depth from which on constructs (messages, list
	// elements, map entries) in which an error occurs are dropped.
	keep int
	// dropPacked makes a packed list with an error contribute nothing.
	dropPacked bool
	// sawPacked etc. classify the input.
	unknown, packed, dup, overlong, depth, recs int

	index map[*Val]map[string]int // of long maps
}

func getVarint(b []byte) (v uint64, n int, class string) {
	for n < len(b) {
		c := b[n]
		if n == 9 && c > 1 {
			// ten bytes which do not fit or do not end
			return 0, 0, eOverflow
		}
		v |= uint64(c&0x7f) << (7 * uint(n))
		n++
		if c < 0x80 {
			return v, n, ""
		}
	}
	return 0, 0, eEOF
}

// decode merges b into m.
func (d *refDecoder) decode(mi int, b []byte, m *MV, depth int) *derr {
	s := d.s
	d.depth = max(d.depth, depth)
	for len(b) > 0 {
		d.recs++
		tag, n, class := getVarint(b)
		if class != "" {
			return &derr{class: class, depth: depth}
		}
		if n > uvarintLen(tag) {
			d.overlong++
		}
		b = b[n:]
		num, wire := tag>>3, int(tag&7)
		if num == 0 || num > 1<<29-1 {
			d.unspecified = true
		}
		fail := func(class string) *derr {
			return &derr{class: class, path: []pathElem{{int(num), wire}}, depth: depth}
		}
		i := s.Msgs[mi].byNum(num)
		var f *Field
		if i >= 0 {
			f = &s.Msgs[mi].Fields[i]
		}
		packed := f != nil && f.packable() && wire == WLen
		if f != nil && wire != f.wire() && !packed {
			return fail(eMismatch)
		}
		var u uint64
		var data []byte
		switch wire {
		case WVarint:
			if u, n, class = getVarint(b); class != "" {
				return fail(class)
			}
			if n > uvarintLen(u) {
				d.overlong++
			}
			b = b[n:]
		case WI32, WI64:
			k := 4
			if wire == WI64 {
				k = 8
			}
			if len(b) < k {
				return fail(eEOF)
			}
			u = fromLE(b[:k])
			b = b[k:]
		case WLen:
			if u, n, class = getVarint(b); class != "" {
				return fail(class)
			}
			if n > uvarintLen(u) {
				d.overlong++
			}
			b = b[n:]
			if u > uint64(len(b)) {
				return fail(eEOF)
			}
			data, b = b[:u:u], b[u:]
		default:
			return fail(eWire)
		}
		if f == nil {
			d.unknown++
			continue
		}
		nest := func(e *derr) *derr {
			e.path = append([]pathElem{{int(num), wire}}, e.path...)
			return e
		}
		if m.F[i] != nil {
			d.dup++
		}
		if packed {
			d.packed++
			var l []*Val
			var e *derr
			for len(data) > 0 && e == nil {
				switch f.Kind.wire() {
				case WVarint:
					if u, n, class = getVarint(data); class != "" {
						e = &derr{class: class, depth: depth}
						continue
					}
					if n > uvarintLen(u) {
						d.overlong++
					}
					l = append(l, &Val{B: ofVarint(f.Kind, u)})
				case WI32, WI64:
					n = 4
					if f.Kind.wire() == WI64 {
						n = 8
					}
					if len(data) < n {
						e = &derr{class: eEOF, depth: depth}
						continue
					}
					l = append(l, &Val{B: fromLE(data[:n])})
				}
				data = data[n:]
			}
			if e != nil && d.dropPacked {
				l = nil
			}
			if len(l) > 0 {
				if m.F[i] == nil {
					m.F[i] = &Val{}
				}
				m.F[i].L = append(m.F[i].L, l...)
			}
			if e != nil {
				return nest(e)
			}
			continue
		}
		if f.Card == CMap {
			key, val := &Val{}, &Val{}
			if f.Kind == KMessage {
				val.M = s.newMV(f.Msg)
			}
			e, whole := d.decodeEntry(f, data, key, val, depth+1)
			if e == nil || whole && depth < d.keep {
				if m.F[i] == nil {
					m.F[i] = &Val{}
				}
				d.put(m.F[i], f.Key, key, val)
			}
			if e != nil {
				return nest(e)
			}
			continue
		}
		var v *Val
		switch f.Kind.wire() {
		case WVarint:
			v = &Val{B: ofVarint(f.Kind, u)}
		case WI32, WI64:
			v = &Val{B: u}
		default:
			if f.Kind != KMessage {
				v = &Val{S: append([]byte(nil), data...)}
				break
			}
			var sub *MV
			if f.Card != CRep && m.F[i] != nil {
				sub = s.clone(f.Msg, m.F[i].M)
			} else {
				sub = s.newMV(f.Msg)
			}
			if e := d.decode(f.Msg, data, sub, depth+1); e != nil {
				if depth < d.keep {
					s.store(f, m, i, &Val{M: sub})
				}
				return nest(e)
			}
			v = &Val{M: sub}
		}
		s.store(f, m, i, v)
	}
	return nil
}

// store sets field i of m to a value from the input.
func (s *Schema) store(f *Field, m *MV, i int, v *Val) {
	if f.Card == CRep {
		if m.F[i] == nil {
			m.F[i] = &Val{}
		}
		m.F[i].L = append(m.F[i].L, v)
		return
	}
	if !f.presence() && v.B == 0 && len(v.S) == 0 {
		v = nil
	}
	m.F[i] = v
}

// put sets a map's entry. The decoder indexes long maps, which nothing else
// changes until it is done.
func (d *refDecoder) put(v *Val, k Kind, key, val *Val) {
	ks := key.keyString(k)
	if len(v.K) < 16 {
		for j := range v.K {
			if v.K[j].keyString(k) == ks {
				v.L[j] = val
				return
			}
		}
	} else {
		index := d.index[v]
		if index == nil {
			index = map[string]int{}
			for j := range v.K {
				index[v.K[j].keyString(k)] = j
			}
			if d.index == nil {
				d.index = map[*Val]map[string]int{}
			}
			d.index[v] = index
		}
		if j, ok := index[ks]; ok {
			v.L[j] = val
			return
		}
		index[ks] = len(v.K)
	}
	v.K = append(v.K, key)
	v.L = append(v.L, val)
}

// entrySchema is s with a further message, which describes the entries of f.
func (s *Schema) entrySchema(f *Field) (*Schema, int) {
	n := len(s.Msgs)
	if e := s.entries[f]; e != nil {
		return e, n
	}
	e := &Schema{Msgs: append(append(make([]Msg, 0, n+1), s.Msgs...), Msg{Fields: []Field{
		{Num: 1, Kind: f.Key, Card: COpt}, {Num: 2, Kind: f.Kind, Card: COpt, Msg: f.Msg}}})}
	if s.entries == nil {
		s.entries = map[*Field]*Schema{}
	}
	s.entries[f] = e
	return e, n
}

// decodeEntry decodes a map entry as the message {1: key, 2: value}. It tells
// whether both were there, also before an error.
func (d *refDecoder) decodeEntry(f *Field, b []byte, key, val *Val, depth int) (*derr, bool) {
	es, mi := d.s.entrySchema(f)
	em := es.newMV(mi)
	old := d.s
	d.s = es
	e := d.decode(mi, b, em, depth)
	d.s = old
	if em.F[0] != nil {
		*key = *em.F[0]
	}
	if em.F[1] != nil {
		*val = *em.F[1]
	}
	return e, em.F[0] != nil && em.F[1] != nil
}

func fromLE(b []byte) (v uint64) {
	for i := range b {
		v |= uint64(b[i]) << (8 * i)
	}
	return v
}

// refDecode decodes b into a copy of the normalised message into (nil: empty).
// The message it returns is normal.
func (s *Schema) refDecode(b []byte, into *MV) (*MV, *refDecoder, *derr) {
	d := &refDecoder{s: s, keep: 1 << 30}
	var m *MV
	if into != nil {
		m = s.clone(0, into)
	} else {
		m = s.newMV(0)
	}
	e := d.decode(0, b, m, 0)
	return s.norm(0, m), d, e
}

// Rec is one record of a wire encoding, in a form which can be generated,
// changed and shrunk.
type Rec struct {
	N    uint64 `json:"n,omitempty"` // field number
	W    int    `json:"w"`           // wire type
	TP   int    `json:"tp,omitempty"`
	U    uint64 `json:"u,omitempty"`
	VP   int    `json:"vp,omitempty"` // padding of the varint or length
	S    []byte `json:"s,omitempty"`
	R    int    `json:"r,omitempty"`
	Sub  []Rec  `json:"sub,omitempty"`
	Bare bool   `json:"bare,omitempty"` // no tag: element of a packed list
	Cut  int    `json:"cut,omitempty"`  // bytes dropped from the end of the content
	More uint64 `json:"more,omitempty"` // added to the length
}

// wRaw is not a wire type: the record is one byte of raw input.
const wRaw = 100

func encRecs(b []byte, rs []Rec) []byte {
	for i := range rs {
		b = rs[i].enc(b)
	}
	return b
}

func (r *Rec) enc(b []byte) []byte {
	if !r.Bare {
		b = uvarintPad(b, r.N<<3|uint64(r.W), r.TP)
	}
	switch r.W {
	case WVarint:
		return uvarintPad(b, r.U, r.VP)
	case wRaw:
		return append(b, byte(r.U))
	case WI32:
		return le(b, r.U, 4)
	case WI64:
		return le(b, r.U, 8)
	case WLen:
		c := r.S
		if r.R > 0 {
			c = (&Val{S: r.S, R: r.R}).bytes()
		}
		if r.Sub != nil {
			c = encRecs(nil, r.Sub)
		}
		c = c[:max(0, len(c)-r.Cut)]
		return append(uvarintPad(b, uint64(len(c))+r.More, r.VP), c...)
	}
	return b
}
