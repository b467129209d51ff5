package hz

import (
	"fmt"
	"math/bits"
	"unicode"

	"pgregory.net/rapid"
)

// Small drawing helpers. All randomness goes through rapid.

// rapid's integer generators prefer small values strongly, so that one of four
// equal alternatives would be drawn ten times as often as another. The choice
// of a table by RuneFrom is uniform, and shrinks to the first.
var uniform = func() *rapid.Generator[rune] {
	ts := make([]*unicode.RangeTable, 4096)
	for i := range ts {
		r := uint32(0x20000 + i)
		ts[i] = &unicode.RangeTable{R32: []unicode.Range32{{Lo: r, Hi: r, Stride: 1}}}
	}
	return rapid.RuneFrom(nil, ts...)
}()

func bits12(t *rapid.T) uint64 { return uint64(uniform.Draw(t, "") - 0x20000) }

// intn draws uniformly from [lo, hi] and shrinks to lo.
func intn(t *rapid.T, lo, hi int) int {
	n := uint64(hi-lo) + 1
	switch {
	case n == 1:
		return lo
	case n <= 64:
		return lo + int(bits12(t)*n>>12)
	case n <= 1<<18:
		h := bits12(t)
		return lo + int((h<<12|bits12(t))*n>>24)
	case n <= 1<<28:
		h := bits12(t)
		h = h<<12 | bits12(t)
		return lo + int((h<<12|bits12(t))*n>>36)
	}
	v := uint64(0)
	for i := 0; i < 6; i++ {
		v = v<<12 | bits12(t)
	}
	hi64, _ := bits.Mul64(v, n)
	return lo + int(hi64)
}

// chance is true in about n of 100 draws, and shrinks to false.
func chance(t *rapid.T, n int) bool { return int(bits12(t)*100>>12) >= 100-n }

func pick[T any](t *rapid.T, xs []T) T { return xs[intn(t, 0, len(xs)-1)] }

// weighted draws an index with the given weights.
func weighted(t *rapid.T, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := int(bits12(t) * uint64(sum) >> 12)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	panic("weighted")
}

func u64(t *rapid.T) uint64 {
	if chance(t, 40) {
		return rapid.Uint64().Draw(t, "")
	}
	v := uint64(0)
	for i := 0; i < 6; i++ {
		v = v<<12 | bits12(t)
	}
	return v
}

// boundary values, for any number of bits

var boundaries = func() (bs []uint64) {
	add := func(v uint64) {
		for d := -2; d <= 2; d++ {
			bs = append(bs, v+uint64(d), -(v + uint64(d)))
		}
	}
	add(0)
	for k := uint(1); k < 64; k++ {
		if k%7 == 0 || k%7 == 6 || k%8 == 0 || k%8 == 7 || k == 31 || k == 33 || k == 30 {
			add(1 << k)
		}
	}
	return
}()

var float32s = []uint64{0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001,
	0x7f800001, 0xffc12345, 0xff812345, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3dcccccd}

var float64s = []uint64{0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
	0x7ff8000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0xfff8123456789abc, 0xfff0123456789abc, 1, 1<<63 | 1,
	0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3fb999999999999a, 0x00000000ffffffff, 0x0000000080000000, 0x8000000000000000}

// genBits draws the bits of a scalar.
func genBits(t *rapid.T, k Kind, o *genOpts) uint64 {
	if o != nil && o.zero > 0 && chance(t, o.zero) {
		if (k == KFloat || k == KDouble) && chance(t, 40) {
			return map[Kind]uint64{KFloat: 1 << 31, KDouble: 1 << 63}[k]
		}
		return 0
	}
	var v uint64
	switch k {
	case KBool:
		return uint64(intn(t, 0, 1))
	case KFloat, KDouble:
		if chance(t, 50) {
			if k == KFloat {
				return pick(t, float32s)
			}
			return pick(t, float64s)
		}
		v = u64(t)
	default:
		switch weighted(t, 25, 45, 30) {
		case 0:
			v = uint64(intn(t, 0, 3))
		case 1:
			v = pick(t, boundaries)
		default:
			v = u64(t)
		}
	}
	if k != KBool {
		if d, ok := dictBits(t, k); ok {
			v = d
		}
	}
	if k.is32() {
		v = uint64(uint32(v))
	}
	return v
}

type genOpts struct {
	utf8     bool // only valid UTF-8 in strings
	canon    bool // a descriptor must exist for the schema
	guards   bool
	noStatic bool
	maxMsgs  int
	big      int  // chance in 1000 of a big string or list
	noNilMap bool // no nil message values in maps
	flat     bool
	zero     int   // chance in 100 of a zero
	cards    []int // weights of CImp, COpt, CRep, CMap, CPtr, CReq
	long     int   // chance in 100 of a length where containers grow
	scalars  bool  // no message fields
	same     int   // chance in 100 that a field has the Go type of the one before
	budget   int   // limit on the number of values, 0 for the default
	echo     int   // chance in 100 of a content as long as one before
	lens     []int // of the contents before
}

// genContent draws the content of a string or bytes value.
func genContent(t *rapid.T, k Kind, o *genOpts) *Val {
	v := &Val{}
	if o.zero > 0 && chance(t, o.zero) {
		return v
	}
	if o.echo > 0 {
		if len(o.lens) > 0 && chance(t, o.echo) {
			v.S = []byte(pick(t, []string{"a", "z", "0", "\x00"}))
			v.R = pick(t, o.lens)
			return v
		}
		defer func() {
			if n := len(v.bytes()); n > 1 && n < 500 {
				o.lens = append(o.lens, n)
			}
		}()
	}
	fill := func(n int) {
		if n == 0 {
			return
		}
		v.S = []byte(pick(t, []string{"a", "z", "0", "\x00"}))
		v.R = n
	}
	if n, ok := dictInt(t, 50, 6, 20000); ok {
		fill(n - pick(t, []int{0, 0, 0, 0, 1, 2, 3, 4, 5, 6}))
		return v
	}
	if n, ok := dictInt(t, 4, 20001, 1<<22); ok && o.big > 0 {
		fill(n - pick(t, []int{0, 0, 0, 0, 1, 2, 3, 4, 5, 6}))
		return v
	}
	if n, ok := dictInt(t, 20, 6, 255); ok {
		v.S = []byte{'a', byte(n), 'b'}[intn(t, 0, 1):intn(t, 2, 3)]
		if k == KString && n >= 128 {
			v.S = []byte(string(rune(n)))
		}
		return v
	}
	if s, ok := dictStr(t, 8); ok {
		v.S = []byte(pick(t, []string{"", "", "", "x", "日"}) + s + pick(t, []string{"", "", "", "x", "日"}))
		return v
	}
	c := intn(t, 0, 999)
	switch {
	case c >= 1000-o.big:
		if chance(t, 40) {
			fill(1<<pick(t, []int{13, 14, 15, 16, 16, 17, 18, 20}) - intn(t, -1, 1))
		} else {
			fill(pick(t, []int{16383, 16384, 16385, 2097151, 2097152, 70000}) + intn(t, -12, 2))
		}
	case c >= 920:
		if chance(t, 35) {
			fill(1<<intn(t, 4, 12) - intn(t, -1, 1))
		} else {
			fill(pick(t, []int{127, 128, 255, 256, 1000, 4096}) + intn(t, -12, 2))
		}
	case c >= 700:
		v.S = []byte(rapid.StringN(0, 8, 40).Draw(t, ""))
	case c >= 500 && (k == KBytes || !o.utf8):
		v.S = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "")
	case c >= 300:
		v.S = []byte(fmt.Sprint("s", intn(t, 0, 99)))
	case c >= 250:
		v.S = []byte(pick(t, []string{"\x00", "\x08\x01", "\x0a\x00", "é", "日本", "\n\r\t\"'`"}))
	}
	return v
}

func genScalar(t *rapid.T, k Kind, o *genOpts) *Val {
	if k == KString || k == KBytes {
		return genContent(t, k, o)
	}
	return &Val{B: genBits(t, k, o)}
}

// Field numbers: every tag length and its boundaries.
var numBounds = []int{1, 2, 15, 16, 17, 127, 128, 255, 256, 2047, 2048, 2049, 16383, 16384, 18999, 20000, 65535, 65536, 262143, 262144,
	1<<24 - 1, 1 << 24, 33554431, 33554432, 1<<28 - 1, 1 << 28, 1<<29 - 2, 1<<29 - 1}

func genNum(t *rapid.T, used map[int]bool, canon bool) int {
	var n int
	switch weighted(t, 60, 20, 12, 8) {
	case 0:
		n = intn(t, 1, 18)
	case 1:
		n = pick(t, numBounds)
	case 2:
		n = intn(t, 1, 5000)
	default:
		n = intn(t, 1, 1<<29-1)
	}
	if d, ok := dictInt(t, 150, 1, 1<<29-1); ok {
		n = d
	}
	for used[n] || canon && n >= 19000 && n <= 19999 {
		n++
		if n > 1<<29-1 {
			n = 1
		}
	}
	used[n] = true
	return n
}

var extras = []string{"", "", "", ",name=foo", ",name=foo,json=fooBar,proto3", ",proto3", ",json=x,proto3,oneof", ",packed", ",def=1,2"}

func genField(t *rapid.T, mi, nmsgs int, used map[int]bool, o *genOpts) Field {
	f := Field{}
	cards := o.cards
	if cards == nil {
		cards = []int{30, 17, 22, 18, 8, 5}
	}
	f.Card = []string{CImp, COpt, CRep, CMap, CPtr, CReq}[weighted(t, cards...)]
	pickKind := func() {
		f.Kind = pick(t, scalarKinds)
		if mi+1 < nmsgs && !o.scalars && chance(t, 35) {
			f.Kind = KMessage
			f.Msg = intn(t, mi+1, nmsgs-1)
		}
	}
	pickKind()
	if f.Card == CMap {
		f.Key = pick(t, mapKeyKinds)
	}
	if f.Kind != KMessage && f.Card != COpt && f.Card != CReq && chance(t, 6) {
		f.Named = true
	}
	if (f.Card == CPtr || f.Card == COpt || f.Card == CReq) && f.Kind == KBytes {
		f.Named = false
	}
	f.Num = genNum(t, used, o.canon)
	if chance(t, 15) {
		f.Extra = pick(t, extras)
	}
	return f
}

// kinds with the same Go type
var sameGo = [][]Kind{{KInt32, KSint32, KSfixed32, KEnum}, {KInt64, KSint64, KSfixed64}, {KUint32, KFixed32}, {KUint64, KFixed64}}

func twinKind(t *rapid.T, k Kind) Kind {
	for _, g := range sameGo {
		for _, x := range g {
			if x == k {
				return pick(t, g)
			}
		}
	}
	return k
}

// twin gives g the Go type of f, with other tags.
func twin(t *rapid.T, f, g Field) Field {
	g.Card, g.Named, g.Msg = f.Card, f.Named, f.Msg
	g.Kind = twinKind(t, f.Kind)
	g.Key = ""
	if f.Card == CMap {
		g.Key = twinKind(t, f.Key)
	}
	return g
}

func genMsgType(t *rapid.T, mi, nmsgs int, o *genOpts) Msg {
	used := map[int]bool{}
	n := 0
	switch weighted(t, 3, 70, 20, 7) {
	case 0:
		n = 0
	case 1:
		n = intn(t, 1, 6)
	case 2:
		n = intn(t, 5, 14)
	default:
		n = pick(t, []int{15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 290})
	}
	if d, ok := dictInt(t, 60, 1, 300); ok {
		n = d
	}
	if mi > 0 {
		n = min(n, 20)
	}
	m := Msg{}
	mkGuard := func() {
		c := CGuard
		if chance(t, 50) {
			c = CUnexp
		}
		m.Fields = append(m.Fields, Field{Card: c, Kind: pick(t, scalarKinds), Num: intn(t, 1, 20)})
	}
	if n > 14 { // many similar fields, little drawing
		base, step := intn(t, 1, 200), pick(t, []int{1, 1, 1, 2, 16, 97})
		proto := make([]Field, intn(t, 1, 4))
		for i := range proto {
			proto[i] = genField(t, mi, nmsgs, used, o)
		}
		for i := 0; i < n; i++ {
			f := proto[i%len(proto)]
			if f.Num = base + i*step; o.canon && f.Num >= 19000 {
				f.Num += 1000 // past the reserved numbers
			}
			m.Fields = append(m.Fields, f)
			used[f.Num] = true
		}
		if chance(t, 50) { // and a few others among them
			for k := intn(t, 1, 5); k > 0; k-- {
				i := intn(t, 0, len(m.Fields))
				f := genField(t, mi, nmsgs, used, o)
				m.Fields = append(m.Fields[:i:i], append([]Field{f}, m.Fields[i:]...)...)
			}
		}
		return m
	}
	for i := 0; i < n; i++ {
		if o.guards && chance(t, 25) {
			mkGuard()
		}
		f := genField(t, mi, nmsgs, used, o)
		if n := len(m.Fields); n > 0 && m.Fields[n-1].proto() && chance(t, o.same) {
			f = twin(t, m.Fields[n-1], f)
		}
		m.Fields = append(m.Fields, f)
	}
	if o.guards && chance(t, 50) {
		mkGuard()
	}
	return m
}

// genSchema draws a message type: one of the static (recursive) ones or one
// built at run time.
func genSchema(t *rapid.T, o *genOpts) *Schema {
	if !o.noStatic && chance(t, 12) {
		return staticSchemaOf(pick(t, staticNames))
	}
	mm := o.maxMsgs
	if mm == 0 {
		mm = 4
	}
	n := 1
	if !o.flat {
		n = 1 + min(weighted(t, 30, 35, 20, 15, 5, 3), mm-1)
	}
	s := &Schema{}
	for i := 0; i < n; i++ {
		s.Msgs = append(s.Msgs, genMsgType(t, i, n, o))
	}
	return s
}

func staticSchemaOf(name string) *Schema {
	st := statics[name]
	return &Schema{Msgs: st.schema.Msgs, Static: name}
}

// budget limits the size of a value.
type budget struct {
	n     int
	mult  int  // how many messages what is drawn stands for, less one
	bytes *int // in long strings so far, of all messages together
}

// clip bounds the memory which a case needs.
func (b *budget) clip(v *Val, n int) *Val {
	if b.bytes == nil {
		b.bytes = new(int)
	}
	if n *= (b.mult + 1) * len(v.S) * v.R; n > 0 {
		if *b.bytes+n > 12<<20 {
			v.R = 1
		} else {
			*b.bytes += n
		}
	}
	return v
}

// room tells whether n more elements, of whatever the message stands for, are
// acceptable.
func (b *budget) room(n int) bool {
	if b.bytes == nil {
		b.bytes = new(int)
	}
	if n *= (b.mult + 1) * 200; *b.bytes+n > 12<<20 {
		return false
	}
	*b.bytes += n
	return true
}

func (b *budget) take(n int) { b.n -= n }

// msgVal draws a message inside of another one, with a part of the budget. It
// stands for n equal ones.
func (b *budget) msgVal(t *rapid.T, s *Schema, mi int, o *genOpts, depth, density, n int) *MV {
	if depth > 12 || b.n <= n {
		return s.newMV(mi)
	}
	part := b.n / 2
	if depth < 8 && chance(t, 40) {
		part = b.n * 7 / 8
	}
	if b.bytes == nil {
		b.bytes = new(int)
	}
	in := &budget{n: part / n, mult: (b.mult+1)*n - 1, bytes: b.bytes}
	before := in.n
	m := genMsgVal(t, s, mi, o, in, depth, density)
	b.n -= (before - in.n) * n
	return m
}

func genMV(t *rapid.T, s *Schema, mi int, o *genOpts) *MV {
	b := &budget{n: 400}
	if chance(t, 10) {
		b.n = 3000
	}
	if o.budget > 0 {
		b.n = min(b.n, o.budget)
	}
	density := []int{70, 30, 100, 5}[weighted(t, 50, 20, 20, 10)]
	return genMsgVal(t, s, mi, o, b, 0, density)
}

func genMsgVal(t *rapid.T, s *Schema, mi int, o *genOpts, b *budget, depth, density int) *MV {
	m := s.newMV(mi)
	fields := s.Msgs[mi].Fields
	if len(fields) > 14 && chance(t, 50) {
		// sparse or uniform, to save draws
		mod := intn(t, 1, 5)
		protoVals := map[Kind]*Val{}
		for i := range fields {
			f := &fields[i]
			if f.Name == "_" || i%mod != 0 || f.Card == CRep || f.Card == CMap || f.Kind == KMessage {
				continue
			}
			if protoVals[f.Kind] == nil {
				protoVals[f.Kind] = genScalar(t, f.Kind, o)
			}
			m.F[i] = derive(f.Kind, protoVals[f.Kind], i)
		}
		return m
	}
	for i := range fields {
		f := &fields[i]
		if f.Name == "_" || f.Card == CGuard && f.Name != "" && f.Kind == "" {
			continue
		}
		if b.n <= 0 {
			break
		}
		if !chance(t, density) {
			continue
		}
		m.F[i] = genFieldVal(t, s, f, o, b, depth, density)
	}
	return m
}

func genFieldVal(t *rapid.T, s *Schema, f *Field, o *genOpts, b *budget, depth, density int) *Val {
	b.take(1)
	switch f.Card {
	case CRep:
		return genList(t, s, f, o, b, depth, density)
	case CMap:
		return genMap(t, s, f, o, b, depth, density)
	}
	if f.Kind == KMessage {
		if depth > 12 || b.n <= 0 {
			return nil
		}
		return &Val{M: b.msgVal(t, s, f.Msg, o, depth+1, density, 1)}
	}
	return b.clip(genScalar(t, f.Kind, o), 1)
}

// genElem draws an element which stands for n equal ones.
func genElem(t *rapid.T, s *Schema, f *Field, o *genOpts, b *budget, depth, density, n int) *Val {
	b.take(n)
	if f.Kind == KMessage {
		if !(f.Card == CMap && o.noNilMap) && chance(t, 8) {
			return &Val{Nil: true}
		}
		return &Val{M: b.msgVal(t, s, f.Msg, o, depth+1, density, n)}
	}
	if f.Kind == KBytes && chance(t, 8) {
		return &Val{Nil: true}
	}
	return b.clip(genScalar(t, f.Kind, o), n)
}

// derive makes the i-th variation of a scalar.
func derive(k Kind, v *Val, i int) *Val {
	switch k {
	case KString, KBytes:
		if i%5 == 4 {
			return &Val{}
		}
		var p []byte
		if v.R == 0 && len(v.S) <= 20 {
			p = v.S
		}
		return &Val{S: []byte(fmt.Sprintf("%s%d", p, i))}
	case KBool:
		return &Val{B: (v.B + uint64(i*i/3)) & 1}
	case KMessage:
		return v
	}
	if i%7 == 3 {
		return &Val{}
	}
	x := v.B + uint64(i)*0x9e3779b97f4a7c15
	if i%2 == 0 {
		x = v.B + uint64(i)
	}
	if k.is32() {
		x = uint64(uint32(x))
	}
	return &Val{B: x}
}

var listLens = []int{9, 10, 11, 19, 20, 21, 22, 39, 40, 41, 42, 79, 80, 81, 127, 128, 129, 160, 161}

func genLen(t *rapid.T, o *genOpts, b *budget) int {
	n := 0
	c := intn(t, 0, 999)
	switch {
	case o.long > 0 && chance(t, o.long):
		n = pick(t, listLens)
	case c >= 1000-o.big:
		n = pick(t, []int{320, 321, 640, 1000, 1281, 3000, 5121})
	case c >= 880:
		n = pick(t, listLens)
	case c >= 100:
		n = intn(t, 1, 4)
	}
	if b.n < 0 {
		n = min(n, 1)
	} else if d, ok := dictInt(t, 40, 1, 200); ok && b.room(d) {
		n = d
	} else if d, ok := dictInt(t, 4, 201, 6000); ok && o.big > 0 && b.room(d) {
		n = d
	}
	return n
}

func genList(t *rapid.T, s *Schema, f *Field, o *genOpts, b *budget, depth, density int) *Val {
	v := &Val{L: []*Val{}}
	n := genLen(t, o, b)
	if f.Kind == KMessage && depth > 1 {
		n = min(n, 22)
	}
	if n <= 5 {
		for i := 0; i < n; i++ {
			v.L = append(v.L, genElem(t, s, f, o, b, depth, density, 1))
		}
		return v
	}
	base := make([]*Val, intn(t, 1, 4))
	for i := range base {
		base[i] = genElem(t, s, f, o, b, depth, density, (n+len(base)-1)/len(base))
	}
	step := intn(t, 1, 3)
	for i := 0; i < n; i++ {
		v.L = append(v.L, derive(f.Kind, base[(i/step)%len(base)], i))
	}
	return v
}

func genMap(t *rapid.T, s *Schema, f *Field, o *genOpts, b *budget, depth, density int) *Val {
	v := &Val{K: []*Val{}, L: []*Val{}}
	n := 0
	c := intn(t, 0, 999)
	switch {
	case o.long > 0 && chance(t, o.long):
		n = pick(t, []int{6, 7, 8, 9, 13, 14, 15, 16, 17, 28, 29, 33, 56, 57, 60, 112, 113})
	case c >= 1000-o.big:
		n = pick(t, []int{100, 200, 500, 1100})
	case c >= 860:
		n = pick(t, []int{7, 8, 9, 13, 14, 15, 16, 17, 28, 29, 33, 60})
	case c >= 150:
		n = intn(t, 1, 3)
	}
	if b.n < 0 {
		n = min(n, 1)
	} else if d, ok := dictInt(t, 40, 1, 200); ok && b.room(d) {
		n = d
	} else if d, ok := dictInt(t, 4, 201, 2000); ok && o.big > 0 && b.room(d) {
		n = d
	}
	if f.Kind == KMessage && depth > 1 {
		n = min(n, 9)
	}
	seen := map[string]bool{}
	add := func(k, e *Val) {
		ks := k.keyString(f.Key)
		if !seen[ks] {
			seen[ks] = true
			v.K = append(v.K, k)
			v.L = append(v.L, e)
		}
	}
	ko := &genOpts{utf8: o.utf8, zero: o.zero}
	if n <= 5 {
		for i := 0; i < n; i++ {
			add(genScalar(t, f.Key, ko), genElem(t, s, f, o, b, depth, density, 1))
		}
		return v
	}
	kb := genScalar(t, f.Key, ko)
	base := make([]*Val, intn(t, 1, 3))
	for i := range base {
		base[i] = genElem(t, s, f, o, b, depth, density, (n+len(base)-1)/len(base))
	}
	for i := 0; i < n; i++ {
		add(derive(f.Key, kb, i), derive(f.Kind, base[i%len(base)], i))
	}
	return v
}

// Wire encodings.

type wireOpts struct {
	*genOpts
	unknown  bool // unknown fields
	pad      bool // non-minimal varints
	packed   bool
	wide     bool // varints wider than the field
	maxRecs  int
	density  int
	noSplits bool
}

func (w *wireOpts) padding(t *rapid.T) int {
	if !w.pad || !chance(t, 12) {
		return 0
	}
	return intn(t, 1, 9)
}

// genRecs draws a legal encoding of some value of message mi.
func genRecs(t *rapid.T, s *Schema, mi int, w *wireOpts, b *budget, depth int) []Rec {
	fields := s.Msgs[mi].Fields
	var known []int
	for i := range fields {
		if fields[i].proto() {
			known = append(known, i)
		}
	}
	n := 0
	switch weighted(t, 8, 60, 25, 7) {
	case 1:
		n = intn(t, 1, 4)
	case 2:
		n = intn(t, 3, 12)
	case 3:
		n = intn(t, 10, 30)
	}
	if d, ok := dictInt(t, 30, 1, 200); ok {
		n = d
	}
	if depth > 3 {
		n = min(n, 4)
	}
	if depth > 12 || b.n <= 0 {
		n = 0
	}
	rs := []Rec{}
	var focus int
	if len(known) > 0 {
		focus = pick(t, known)
	}
	for i := 0; i < n && b.n > 0; i++ {
		b.take(1)
		if len(known) == 0 || w.unknown && chance(t, 15) {
			if w.unknown {
				rs = append(rs, genUnknown(t, fields, w, 0))
			}
			continue
		}
		j := focus
		if chance(t, 65) {
			j = pick(t, known)
		}
		rs = append(rs, genFieldRecs(t, s, &fields[j], w, b, depth)...)
	}
	return rs
}

func (w *wireOpts) tp(t *rapid.T, num int) int {
	if !w.pad || !chance(t, 6) {
		return 0
	}
	return intn(t, 1, 9)
}

// genU draws the number to send for a varint field.
func genU(t *rapid.T, k Kind, w *wireOpts) uint64 {
	if w.wide && chance(t, 20) {
		if v, ok := dictBits(t, KUint64); ok {
			return v
		}
		if chance(t, 50) {
			return pick(t, boundaries)
		}
		return u64(t)
	}
	return varintOf(k, genBits(t, k, w.genOpts))
}

func genBare(t *rapid.T, k Kind, w *wireOpts) Rec {
	switch k.wire() {
	case WVarint:
		return Rec{W: WVarint, U: genU(t, k, w), VP: w.padding(t), Bare: true}
	}
	return Rec{W: k.wire(), U: genBits(t, k, w.genOpts), Bare: true}
}

func genValueRec(t *rapid.T, s *Schema, f *Field, w *wireOpts, b *budget, depth int) Rec {
	k := f.Kind
	switch k.wire() {
	case WVarint, WI32, WI64:
		r := genBare(t, k, w)
		r.Bare = false
		return r
	}
	r := Rec{W: WLen, VP: w.padding(t)}
	if k == KMessage {
		in := &budget{n: b.n / 2}
		if depth < 8 && chance(t, 40) {
			in.n = b.n * 7 / 8
		}
		before := in.n
		r.Sub = genRecs(t, s, f.Msg, w, in, depth+1)
		b.n -= before - in.n
		return r
	}
	v := genContent(t, k, w.genOpts)
	r.S, r.R = v.S, v.R
	return r
}

func genFieldRecs(t *rapid.T, s *Schema, f *Field, w *wireOpts, b *budget, depth int) []Rec {
	num := func(r Rec) Rec {
		r.N, r.TP = uint64(f.Num), w.tp(t, f.Num)
		return r
	}
	switch f.Card {
	case CMap:
		var out []Rec
		n := 1
		if chance(t, 15) {
			n = intn(t, 2, 20)
		}
		for i := 0; i < n; i++ {
			out = append(out, num(genEntry(t, s, f, w, b, depth)))
		}
		return out
	case CRep:
		if w.packed && f.packable() && chance(t, 40) {
			n := intn(t, 0, 5)
			if chance(t, 12) {
				n = pick(t, listLens)
			}
			r := Rec{W: WLen, VP: w.padding(t), Sub: []Rec{}}
			if n > 5 {
				base := genBare(t, f.Kind, w)
				for i := 0; i < n; i++ {
					e := base
					e.U = varintOf(f.Kind, derive(f.Kind, &Val{B: base.U}, i).B)
					r.Sub = append(r.Sub, e)
				}
			} else {
				for i := 0; i < n; i++ {
					r.Sub = append(r.Sub, genBare(t, f.Kind, w))
				}
			}
			return []Rec{num(r)}
		}
		n := 1
		if chance(t, 10) {
			n = pick(t, listLens[:14])
		}
		if n > 5 {
			in := &budget{n: b.n / n}
			base := genValueRec(t, s, f, w, in, depth)
			b.n -= n
			var out []Rec
			for i := 0; i < n; i++ {
				e := base
				if f.Kind.wire() != WLen {
					e.U = varintOf(f.Kind, derive(f.Kind, &Val{B: base.U}, i).B)
				} else if f.Kind != KMessage {
					d := derive(f.Kind, &Val{S: base.S, R: base.R}, i)
					e.S, e.R = d.S, d.R
				}
				out = append(out, num(e))
			}
			return out
		}
	}
	return []Rec{num(genValueRec(t, s, f, w, b, depth))}
}

func genEntry(t *rapid.T, s *Schema, f *Field, w *wireOpts, b *budget, depth int) Rec {
	r := Rec{W: WLen, VP: w.padding(t), Sub: []Rec{}}
	kf := &Field{Kind: f.Key, Num: 1}
	ko := *w
	ko.genOpts = &genOpts{utf8: w.utf8, zero: w.zero}
	key := func() {
		k := genValueRec(t, s, kf, &ko, b, depth)
		if k.W == WVarint && chance(t, 60) {
			k.U = uint64(intn(t, 0, 3))
		}
		k.N, k.TP = 1, w.tp(t, 1)
		r.Sub = append(r.Sub, k)
	}
	val := func() {
		v := genValueRec(t, s, f, w, b, depth)
		v.N, v.TP = 2, w.tp(t, 2)
		r.Sub = append(r.Sub, v)
	}
	unk := func() {
		if w.unknown {
			r.Sub = append(r.Sub, genUnknown(t, entryFields, w, 0))
		}
	}
	switch weighted(t, 50, 10, 8, 8, 4, 8, 6, 6) {
	case 0:
		key()
		val()
	case 1:
		val()
		key()
	case 2:
		key()
	case 3:
		val()
	case 4:
	case 5: // repeated parts
		n := intn(t, 2, 5)
		for i := 0; i < n; i++ {
			if chance(t, 50) {
				key()
			} else {
				val()
			}
		}
	case 6:
		unk()
		key()
		unk()
		val()
		unk()
	case 7:
		val()
		val()
		key()
	}
	return r
}

var entryFields = []Field{{Num: 1, Kind: KBool}, {Num: 2, Kind: KBool}}

// genUnknown draws a record of an undeclared field number.
func genUnknown(t *rapid.T, fields []Field, w *wireOpts, depth int) Rec {
	m := Msg{Fields: fields}
	var n int
	switch weighted(t, 45, 35, 20) {
	case 0: // next to a known one
		n = intn(t, 1, 20)
		if len(fields) > 0 {
			n = fields[intn(t, 0, len(fields)-1)].Num + intn(t, -1, 2)
			if chance(t, 20) {
				n += pick(t, []int{64, 128, 256, 65536, 1 << 24})
			}
		}
	case 1:
		n = pick(t, numBounds)
	default:
		n = intn(t, 1, 1<<29-1)
	}
	if d, ok := dictInt(t, 150, 1, 1<<29-1); ok {
		n = d
	}
	n = max(n, 1)
	for n > 1<<29-1 || m.byNum(uint64(n)) >= 0 {
		n++
		if n > 1<<29-1 {
			n = 1
		}
	}
	r := Rec{N: uint64(n), TP: w.tp(t, n), W: pick(t, []int{WVarint, WI64, WLen, WI32})}
	switch r.W {
	case WVarint:
		r.U = genBits(t, KUint64, nil)
		r.VP = w.padding(t)
	case WI32, WI64:
		r.U = u64(t)
		if r.W == WI32 {
			r.U = uint64(uint32(r.U))
		}
	case WLen:
		r.VP = w.padding(t)
		if depth < 2 && chance(t, 30) {
			r.Sub = []Rec{}
			for i := intn(t, 0, 3); i > 0; i-- {
				r.Sub = append(r.Sub, genUnknown(t, fields, w, depth+1))
			}
			break
		}
		v := genContent(t, KBytes, &genOpts{big: 2})
		r.S, r.R = v.S, v.R
	}
	return r
}

// Edit is a change to an encoding.
type Edit struct {
	Op  int    `json:"op"`
	Pos int    `json:"pos"`
	B   []byte `json:"b,omitempty"`
	N   int    `json:"n,omitempty"`
}

const (
	edTrunc = iota
	edSet
	edInsert
	edDelete
	edDup
	edHugeLen
	edOps
)

func genEdit(t *rapid.T) Edit {
	e := Edit{Op: intn(t, 0, edOps-1), Pos: intn(t, 0, 1000)}
	if chance(t, 50) {
		e.Pos = intn(t, 0, 30)
	}
	switch e.Op {
	case edSet:
		e.B = []byte{rapid.Byte().Draw(t, "")}
		if chance(t, 40) {
			e.B[0] = pick(t, []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 3, 4, 5, 6, 7, 0x0b, 0x0c, 0x0a, 0x10, 0x12})
		}
	case edInsert:
		e.B = rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "")
	case edDelete, edDup:
		e.N = intn(t, 1, 8)
	case edHugeLen:
		e.B = uvarint(nil, pick(t, []uint64{1 << 16, 1 << 24, 1 << 27, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<64 - 9, 1<<63 + 5}))
	}
	return e
}

func (e *Edit) apply(b []byte) []byte {
	if len(b) == 0 {
		if e.Op == edInsert || e.Op == edHugeLen {
			return append([]byte{}, e.B...)
		}
		return b
	}
	p := e.Pos % (len(b) + 1)
	b = append([]byte{}, b...)
	switch e.Op {
	case edTrunc:
		return b[:p]
	case edSet:
		if p < len(b) {
			b[p] = e.B[0]
		}
	case edInsert, edHugeLen:
		if e.Op == edHugeLen && p < len(b) { // replaces a byte
			return append(append(append([]byte{}, b[:p]...), e.B...), b[p+1:]...)
		}
		return append(append(append([]byte{}, b[:p]...), e.B...), b[p:]...)
	case edDelete:
		q := min(len(b), p+e.N)
		return append(b[:p], b[q:]...)
	case edDup:
		q := min(len(b), p+e.N)
		return append(append(append([]byte{}, b[:q]...), b[p:q]...), b[q:]...)
	}
	return b
}
