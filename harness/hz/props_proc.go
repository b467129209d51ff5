package hz

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
	"pgregory.net/rapid"
)

// HistOp is one operation on one of several types.
type HistOp struct {
	T int `json:"t"`
	// Op: 0 Marshal, 1 Size, 2 Unmarshal of W, 3 Unmarshal of a truncated W
	Op    int   `json:"op"`
	V     *MV   `json:"v,omitempty"`
	W     []Rec `json:"w,omitempty"`
	Trunc int   `json:"trunc,omitempty"`
}

// HistCase is a history of operations on several types.
type HistCase struct {
	Ss  []*Schema `json:"ss"`
	Ops []HistOp  `json:"ops"`
}

// twinSchema has the Go types of s, with other tags.
func twinSchema(t *rapid.T, s *Schema) *Schema {
	o := &Schema{}
	for _, m := range s.Msgs {
		n := Msg{}
		used := map[int]bool{}
		for _, f := range m.Fields {
			if f.proto() {
				f.Kind = twinKind(t, f.Kind)
				if f.Card == CMap {
					f.Key = twinKind(t, f.Key)
				}
				if used[f.Num] || chance(t, 30) {
					f.Num = genNum(t, used, false)
				}
				used[f.Num] = true
			}
			n.Fields = append(n.Fields, f)
		}
		o.Msgs = append(o.Msgs, n)
	}
	return o
}

func genHistOp(t *rapid.T, ss []*Schema, o *genOpts) HistOp {
	op := HistOp{T: intn(t, 0, len(ss)-1), Op: weighted(t, 40, 15, 35, 10)}
	s := ss[op.T]
	if op.Op <= 1 {
		op.V = genMV(t, s, 0, o)
		return op
	}
	w := &wireOpts{genOpts: o, packed: true, unknown: chance(t, 20), pad: chance(t, 20)}
	op.W = genWire(t, s, w)
	if op.Op == 3 {
		op.Trunc = intn(t, 1, 999)
	}
	return op
}

func genHist(t *rapid.T) HistCase {
	o := &genOpts{same: 45, maxMsgs: 3, budget: 200}
	c := HistCase{}
	if chance(t, 35) { // the types of recursive families
		fam := families[pick(t, familyNames)]
		for i := intn(t, 1, 3); i > 0; i-- {
			c.Ss = append(c.Ss, staticSchemaOf(pick(t, fam)))
		}
	}
	for i := intn(t, 0, 3); i > 0 || len(c.Ss) == 0; i-- {
		if len(c.Ss) > 0 && c.Ss[len(c.Ss)-1].Static == "" && chance(t, 60) {
			c.Ss = append(c.Ss, twinSchema(t, c.Ss[len(c.Ss)-1]))
			continue
		}
		o := *o
		o.noStatic = true
		c.Ss = append(c.Ss, genSchema(t, &o))
	}
	for i := intn(t, 1, 10); i > 0; i-- {
		c.Ops = append(c.Ops, genHistOp(t, c.Ss, o))
	}
	return c
}

var familyNames = []string{"self", "mut", "ring", "twin", "alike"}

// prepared is an operation ready to run.
type prepared struct {
	op  *HistOp
	s   *Schema
	in  []byte
	msg reflect.Value
	// results
	b    []byte
	size int
	err  error
}

func prepare(s *Schema, op *HistOp) *prepared {
	p := &prepared{op: op, s: s}
	if op.Op <= 1 {
		p.msg = s.build(0, op.V)
		return p
	}
	p.in = encRecs(nil, op.W)
	if op.Op == 3 {
		p.in = p.in[:len(p.in)*op.Trunc/1000]
	}
	p.msg = s.New()
	return p
}

func (p *prepared) run() {
	switch p.op.Op {
	case 0:
		p.b, p.err = proto.Marshal(p.msg.Interface())
	case 1:
		p.size = proto.Size(p.msg.Interface())
	default:
		p.err = proto.Unmarshal(p.in, p.msg.Interface())
	}
}

// check compares the result with the reference, which knows only the
// declaration of the type.
func (p *prepared) check() error {
	s := p.s
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%s: %s (%s)", []string{"Marshal", "Size", "Unmarshal", "Unmarshal"}[p.op.Op], fmt.Sprintf(f, a...), s)
	}
	switch p.op.Op {
	case 0, 1:
		n := s.norm(0, p.op.V)
		want := s.refEncode(nil, 0, n)
		if p.op.Op == 1 {
			if p.size != len(want) {
				return fail("%d, want %d", p.size, len(want))
			}
			return nil
		}
		if p.err != nil {
			return fail("%v", p.err)
		}
		if len(p.b) != len(want) {
			return fail("%s, want %s", hexs(p.b), hexs(want))
		}
		if err := s.presenceErr(0, p.b, n); err != nil {
			return fail("%v, %s", err, hexs(p.b))
		}
		got, _, e := s.refDecode(p.b, nil)
		if e != nil {
			return fail("%s: %v", hexs(p.b), e)
		}
		if d := s.diff(0, s.withoutGuards(0, n), got); d != "" {
			return fail("%s: %s", hexs(p.b), d)
		}
	default:
		want, d, e := s.refDecode(p.in, nil)
		if d.unspecified {
			return nil
		}
		if (e != nil) != (p.err != nil) {
			return fail("%s: got %v, want %v", hexs(p.in), p.err, e)
		}
		if e == nil {
			if df := s.diff(0, want, s.get(p.msg)); df != "" {
				return fail("%s: %s", hexs(p.in), df)
			}
		}
	}
	return nil
}

func noteHist(c HistCase, x *Ctx) {
	used := map[int]bool{}
	for _, op := range c.Ops {
		used[op.T] = true
	}
	x.nontrivial = len(c.Ops) >= 2
	x.classIf(len(used) > 1, "several types used")
	x.class(fmt.Sprintf("%d types", len(c.Ss)))
	for _, s := range c.Ss {
		x.classIf(s.Static != "", "recursive type")
	}
}

func runHist(c HistCase, x *Ctx) error {
	for i := range c.Ops {
		p := prepare(c.Ss[c.Ops[i].T], &c.Ops[i])
		p.run()
		if err := p.check(); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}
	}
	return nil
}

// C14

// ConcCase: goroutines, each with operations, started at once; several rounds,
// each with types of its own.
type ConcCase struct {
	Ss     []*Schema  `json:"ss"`
	G      [][]HistOp `json:"g"`
	Shared []int      `json:"shared"` // operations of the first goroutine run by all, on one message
	Rounds int        `json:"rounds"`
	Procs  int        `json:"procs"`
}

// salted gives the schema Go types which no other salt has.
func (s *Schema) salted(n int) *Schema {
	if s.Static != "" {
		if fresh := saltedStatic(s.Static, n); fresh != nil {
			return fresh
		}
		return s
	}
	o := &Schema{}
	for _, m := range s.Msgs {
		c := Msg{}
		for j, f := range m.Fields {
			if j == 0 {
				f.Extra += fmt.Sprintf(",json=salt%d", n)
			}
			c.Fields = append(c.Fields, f)
		}
		if len(m.Fields) == 0 {
			c = m
		}
		o.Msgs = append(o.Msgs, c)
	}
	return o
}

func genConc(t *rapid.T) ConcCase {
	o := &genOpts{same: 40, maxMsgs: 4, budget: 60}
	c := ConcCase{Rounds: intn(t, 8, 40), Procs: intn(t, 2, 8)}
	if chance(t, 60) {
		fam := append([]string{"RecG", "RecH"}, families[pick(t, familyNames)]...)
		for i := intn(t, 1, 3); i > 0; i-- {
			c.Ss = append(c.Ss, staticSchemaOf(pick(t, fam)))
		}
	}
	for i := intn(t, 0, 2); i > 0 || len(c.Ss) == 0; i-- {
		o := *o
		o.noStatic = true
		c.Ss = append(c.Ss, genSchema(t, &o))
	}
	// goroutines share a few distinct programs
	progs := make([][]HistOp, intn(t, 1, 3))
	for i := range progs {
		for j := intn(t, 1, 3); j > 0; j-- {
			progs[i] = append(progs[i], genHistOp(t, c.Ss, o))
		}
	}
	n := intn(t, 2, 12)
	if chance(t, 8) {
		n, c.Rounds = pick(t, []int{33, 65, 130, 260}), min(c.Rounds, 12)
	}
	for i := n; i > 0; i-- {
		c.G = append(c.G, pick(t, progs))
	}
	for i, op := range c.G[0] {
		if op.Op <= 1 && chance(t, 50) {
			c.Shared = append(c.Shared, i)
		}
	}
	return c
}

func noteConc(c ConcCase, x *Ctx) {
	x.nontrivial = len(c.G) >= 2
	x.class(fmt.Sprintf("%d goroutines", len(c.G)))
	x.classIf(len(c.G) > 12, "many goroutines")
	x.classIf(len(c.Shared) > 0, "shared message")
	x.classIf(len(c.Ss) > 1, "several types")
	for _, s := range c.Ss {
		x.classIf(s.Static != "", "recursive type")
	}
	if x.counting {
		x.classes["rounds of first use"] += c.Rounds
	}
}

func runConc(c ConcCase, x *Ctx) error {
	runtime.GOMAXPROCS(max(1, c.Procs))
	for r := 0; r < c.Rounds; r++ {
		ss := make([]*Schema, len(c.Ss))
		for i, s := range c.Ss {
			ss[i] = s.salted(r)
		}
		var all [][]*prepared
		shared := make([]*prepared, 0)
		for _, i := range c.Shared {
			shared = append(shared, prepare(ss[c.G[0][i].T], &c.G[0][i]))
		}
		for _, ops := range c.G {
			var ps []*prepared
			for i := range ops {
				ps = append(ps, prepare(ss[ops[i].T], &ops[i]))
			}
			for _, sh := range shared { // the same message
				ps = append(ps, &prepared{op: sh.op, s: sh.s, msg: sh.msg})
			}
			all = append(all, ps)
		}
		var wg sync.WaitGroup
		var ready, goNow atomic.Int32
		for _, ps := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for n := 0; goNow.Load() == 0; n++ {
					if n > 200 {
						runtime.Gosched()
					}
				}
				for _, p := range ps {
					p.run()
				}
			}()
		}
		for int(ready.Load()) < len(all) {
			runtime.Gosched()
		}
		goNow.Store(1)
		wg.Wait()
		for g, ps := range all {
			for i, p := range ps {
				if err := p.check(); err != nil {
					return fmt.Errorf("round %d, goroutine %d of %d, operation %d: %w", r, g, len(all), i, err)
				}
			}
		}
	}
	return nil
}

// FlightCase: so many calls at once, each of them so long that all are under way
// at the same time.
type FlightCase struct {
	F  Field  `json:"f"`
	V  []*Val `json:"v"` // elements, in turn
	N  int    `json:"n"` // number of elements
	G  int    `json:"g"`
	Op []int  `json:"op"` // of the goroutines, in turn: 0 decode, 1 encode
}

func genFlight(t *rapid.T) FlightCase {
	c := FlightCase{F: Field{Num: pick(t, []int{1, 16, 2048}), Kind: pick(t, scalarKinds), Card: CRep}}
	for i := intn(t, 1, 5); i > 0; i-- {
		v := genScalar(t, c.F.Kind, &genOpts{})
		if v.R = 0; len(v.S) > 20 {
			v.S = v.S[:20]
		}
		c.V = append(c.V, v)
	}
	c.N = pick(t, []int{1, 2, 3}) * 100000
	c.G = pick(t, []int{17, 33, 65, 100, 129, 160})
	limit := 12000000 // memory
	if c.F.Kind == KString || c.F.Kind == KBytes {
		limit = 3000000
	}
	c.N = min(c.N, limit/c.G)
	for i := intn(t, 1, 4); i > 0; i-- {
		c.Op = append(c.Op, intn(t, 0, 1))
	}
	return c
}

func noteFlight(c FlightCase, x *Ctx) {
	x.nontrivial = c.G > 1
	x.class(fmt.Sprintf("%d long calls at once", c.G))
}

func runFlight(c FlightCase, x *Ctx) error {
	s := &Schema{Msgs: []Msg{{Fields: []Field{c.F}}}}
	m := s.newMV(0)
	m.F[0] = &Val{}
	for i := 0; i < c.N; i++ {
		m.F[0].L = append(m.F[0].L, c.V[i%len(c.V)])
	}
	want := s.refEncode(nil, 0, m)
	src := s.build(0, m).Interface()
	errs := make([]error, c.G)
	dsts := make([]reflect.Value, c.G)
	var wg sync.WaitGroup
	var goNow atomic.Bool
	for g := range errs {
		wg.Add(1)
		dsts[g] = s.New()
		go func() {
			defer wg.Done()
			for !goNow.Load() {
				runtime.Gosched()
			}
			if c.Op[g%len(c.Op)] == 0 {
				errs[g] = proto.Unmarshal(want, dsts[g].Interface())
			} else if b, err := proto.Marshal(src); err != nil {
				errs[g] = err
			} else if !bytes.Equal(b, want) {
				errs[g] = fmt.Errorf("Marshal gives %s", hexs(b))
			}
		}()
	}
	goNow.Store(true)
	wg.Wait()
	for g, err := range errs {
		if err == nil && c.Op[g%len(c.Op)] == 0 {
			var b []byte
			if b, err = proto.Marshal(dsts[g].Interface()); err == nil && !bytes.Equal(b, want) {
				err = fmt.Errorf("Unmarshal of %s gives %s", hexs(want), hexs(b))
			}
			dsts[g] = reflect.Value{}
		}
		if err != nil {
			return fmt.Errorf("%d calls at once, goroutine %d: %w (%s)", c.G, g, err, s)
		}
	}
	return nil
}

// C17

// churn allocates and drops memory of many sizes, to reuse what was freed.
func churn() {
	var keep [][]byte
	var ptrs []*[4]uintptr
	for _, n := range []int{8, 16, 24, 32, 48, 64, 96, 128, 160, 192, 256, 384, 512, 1024, 2048, 4096} {
		for i := 0; i < 6; i++ {
			b := make([]byte, n)
			for j := range b {
				b[j] = 0x5a
			}
			keep = append(keep, b)
			ptrs = append(ptrs, &[4]uintptr{0x5a5a5a5a, ^uintptr(0) / 255 * 0x5a})
		}
	}
	runtime.KeepAlive(keep)
	runtime.KeepAlive(ptrs)
}

var gcOnce sync.Once
var gcMu sync.Mutex // held while no case wants collections

// collector runs the garbage collector all the time, until what it returns is
// called.
func collector() (stop func()) {
	gcOnce.Do(func() {
		gcMu.Lock()
		go func() {
			for {
				gcMu.Lock()
				gcMu.Unlock()
				runtime.GC()
				runtime.Gosched()
			}
		}()
	})
	gcMu.Unlock()
	return func() { gcMu.Lock() }
}

func runGC(c WireCase, x *Ctx) error {
	defer collector()()
	start := c.Start
	if start == nil {
		start = c.S.newMV(0)
	}
	dst := c.S.build(0, start)
	model := c.S.norm(0, start)
	var kept []reflect.Value
	var keptModel []*MV
	for i, rs := range c.W {
		b := encRecs(nil, rs)
		var d *refDecoder
		var e *derr
		model, d, e = c.S.refDecode(b, model)
		if e != nil {
			panic(harnessError{fmt.Errorf("generator made an illegal encoding: %v", e)})
		}
		x.wire(d, len(b))
		if err := unmarshal(b, dst); err != nil {
			return fmt.Errorf("decode %d: %v (%s, %s)", i, err, c.S, hexs(b))
		}
		fresh := c.S.New()
		if err := unmarshal(b, fresh); err != nil {
			return fmt.Errorf("decode %d: %v (%s, %s)", i, err, c.S, hexs(b))
		}
		m, _, _ := c.S.refDecode(b, nil)
		kept, keptModel = append(kept, fresh), append(keptModel, m)
		for j := range b {
			b[j] = 0x77
		}
		b = nil
	}
	kept, keptModel = append(kept, dst), append(keptModel, model)
	for round := 0; round < 2; round++ {
		runtime.GC()
		churn()
		for i, v := range kept {
			if df := c.S.diff(0, keptModel[i], c.S.get(v)); df != "" {
				return fmt.Errorf("message %d changed under garbage collection: %s (%s)", i, df, c.S)
			}
		}
	}
	for i, v := range kept {
		b, err := marshal(v)
		if err != nil {
			return err
		}
		got, _, e := c.S.refDecode(b, nil)
		if e != nil {
			return fmt.Errorf("encoding after garbage collection: %v (%s, %s)", e, c.S, hexs(b))
		}
		if df := c.S.diff(0, c.S.withoutGuards(0, keptModel[i]), got); df != "" {
			return fmt.Errorf("encoding after garbage collection: %s (%s, %s)", df, c.S, hexs(b))
		}
	}
	x.nontrivial = model.count() >= 2
	return nil
}

// Failing decodes, under the collector and with checked pointers.
func runGCFail(c FailCase, x *Ctx) error {
	defer collector()()
	err := runFail(c, x)
	churn()
	return err
}

// C21

// DeepCase is a chain of nested messages, described level by level.
type DeepCase struct {
	Static string `json:"static"`
	Depth  int    `json:"depth"`
	Seed   uint64 `json:"seed"` // of the choice of the field and the siblings at each level
	Cut    bool   `json:"cut,omitempty"`
}

var deepTypes = []string{"ListT", "TreeT", "DirT", "MutA", "MutB", "MutC", "GooT", "WideT", "RingA", "RingB", "RingC", "RingD", "TwinT", "RecG", "RecH"}

func genDeep(maxDepth int) func(t *rapid.T) DeepCase {
	return func(t *rapid.T) DeepCase {
		c := DeepCase{Static: pick(t, deepTypes), Seed: u64(t), Cut: chance(t, 25)}
		switch weighted(t, 40, 40, 5, 15) {
		case 0:
			c.Depth = intn(t, 1, 300)
		case 1:
			c.Depth = intn(t, 300, 2500)
		case 2:
			c.Depth = intn(t, 9000, 12000)
		default:
			c.Depth = intn(t, 2500, maxDepth)
		}
		if d, ok := dictInt(t, 200, 1, 12000); ok {
			c.Depth = d
		}
		return c
	}
}

type level struct {
	mi, fi int
	key    uint64
	scalar int // index of a sibling scalar field, -1
	sval   *Val
	first  bool // the sibling is before the nested message
}

// levels chooses the way down. Only 64 different levels are drawn.
func (c *DeepCase) levels(s *Schema) []level {
	rng := c.Seed
	next := func(n int) int {
		rng = splitmix(rng)
		return int(rng>>33) % n
	}
	var ls []level
	mi := 0
	same := next(3) == 0 // always the same field of a message
	choice := map[int]int{}
	for d := 0; d < c.Depth; d++ {
		var nested, scalars []int
		for i := range s.Msgs[mi].Fields {
			f := &s.Msgs[mi].Fields[i]
			if !f.proto() {
				continue
			}
			if f.Kind == KMessage && s.endless(f.Msg) {
				nested = append(nested, i)
			} else if f.Card != CMap && f.Kind.wire() == WVarint {
				scalars = append(scalars, i)
			}
		}
		l := level{mi: mi, scalar: -1, key: uint64(next(2)), first: next(2) == 0}
		l.fi = nested[next(len(nested))]
		if same {
			if x, ok := choice[mi]; ok {
				l.fi = x
			}
			choice[mi] = l.fi
		}
		if len(scalars) > 0 && next(4) == 0 {
			l.scalar = scalars[next(len(scalars))]
			l.sval = &Val{B: 1}
		}
		ls = append(ls, l)
		mi = s.Msgs[mi].Fields[l.fi].Msg
	}
	return ls
}

// endless says whether messages of the type can nest without end.
func (s *Schema) endless(mi int) bool {
	seen := map[int]bool{}
	var visit func(i int, path map[int]bool) bool
	visit = func(i int, path map[int]bool) bool {
		if path[i] {
			return true
		}
		if seen[i] {
			return false
		}
		seen[i] = true
		path[i] = true
		defer delete(path, i)
		for j := range s.Msgs[i].Fields {
			f := &s.Msgs[i].Fields[j]
			if f.proto() && f.Kind == KMessage && visit(f.Msg, path) {
				return true
			}
		}
		return false
	}
	return visit(mi, map[int]bool{})
}

// encode gives the canonical encoding of the chain, and the length of the
// encoding at every level.
func (c *DeepCase) encode(s *Schema, ls []level) ([]byte, []int) {
	sizes := make([]int, len(ls)+1)
	type parts struct{ pre, post []byte }
	out := make([]parts, len(ls))
	for i := len(ls) - 1; i >= 0; i-- {
		l := &ls[i]
		f := &s.Msgs[l.mi].Fields[l.fi]
		n := sizes[i+1]
		var pre []byte
		if f.Card == CMap {
			kf := &Field{Kind: f.Key}
			k := &Val{B: l.key}
			if f.Key == KString {
				k = &Val{S: []byte{byte('a' + l.key)}}
			}
			entry := s.refBare(uvarint(nil, tagOf(1, f.Key.wire())), kf, k)
			entry = append(entry, uvarint(uvarint(nil, tagOf(2, WLen)), uint64(n))...)
			pre = uvarint(uvarint(nil, tagOf(f.Num, WLen)), uint64(len(entry)+n))
			pre = append(pre, entry...)
		} else {
			pre = uvarint(uvarint(nil, tagOf(f.Num, WLen)), uint64(n))
		}
		var post []byte
		if l.scalar >= 0 {
			sf := &s.Msgs[l.mi].Fields[l.scalar]
			rec := s.refBare(uvarint(nil, tagOf(sf.Num, sf.wire())), sf, l.sval)
			if l.scalar < l.fi {
				pre = append(rec, pre...)
			} else {
				post = rec
			}
		}
		out[i] = parts{pre, post}
		sizes[i] = len(pre) + n + len(post)
	}
	b := make([]byte, 0, sizes[0])
	for i := range out {
		b = append(b, out[i].pre...)
	}
	for i := len(out) - 1; i >= 0; i-- {
		b = append(b, out[i].post...)
	}
	return b, sizes
}

func runDeep(c DeepCase, x *Ctx) error {
	s := staticSchemaOf(c.Static)
	ls := c.levels(s)
	b, sizes := c.encode(s, ls)
	x.nontrivial = c.Depth > 100
	x.class(c.Static)
	x.classIf(c.Depth > 2500, "deeper than 2500")
	x.classIf(c.Depth > 20000, "deeper than 20000")
	x.classIf(c.Depth > 100000, "deeper than 100000")
	if c.Cut { // malformed at the innermost level
		d := &refDecoder{s: s, keep: 1 << 30}
		_ = d
		v := s.New()
		if err := unmarshal(b[:len(b)-1], v); err == nil {
			return fmt.Errorf("%d levels of %s without the last byte are accepted", c.Depth, c.Static)
		}
		x.class("cut short")
		return nil
	}
	v := s.New()
	if err := unmarshal(b, v); err != nil {
		if c.Depth < 1000 {
			return fmt.Errorf("decoding %d levels of %s: %v", c.Depth, c.Static, err)
		}
		return fmt.Errorf("decoding %d levels of %s fails", c.Depth, c.Static)
	}
	var ptrs []unsafe.Pointer
	p := v.UnsafePointer()
	for i := range ls {
		l := &ls[i]
		ptrs = append(ptrs, p)
		at := func(f string, a ...any) error {
			return fmt.Errorf("%d levels of %s, level %d: %s", c.Depth, c.Static, i, fmt.Sprintf(f, a...))
		}
		f := &s.Msgs[l.mi].Fields[l.fi]
		for j := range s.Msgs[l.mi].Fields {
			g := &s.Msgs[l.mi].Fields[j]
			if !g.proto() || j == l.fi {
				continue
			}
			var got *Val
			if g.Card == CMap || g.Kind == KMessage || g.Card == CRep {
				fv := s.goField(l.mi, j, p)
				if !fv.IsNil() && (fv.Kind() == reflect.Pointer || fv.Len() > 0) && j != l.scalar {
					return at("field %d is set", g.Num)
				}
				if j != l.scalar {
					continue
				}
			}
			got = s.normField1(g, s.getField(g, s.goField(l.mi, j, p)))
			if j != l.scalar {
				if got != nil {
					return at("field %d is %s, want absent", g.Num, s.valStr(g, got))
				}
				continue
			}
			e := got
			if e != nil && g.Card == CRep {
				if len(e.L) != 1 {
					return at("field %d has %d elements", g.Num, len(e.L))
				}
				e = e.L[0]
			}
			if e == nil || e.B != ofVarint(g.Kind, varintOf(g.Kind, l.sval.B)) {
				return at("field %d is %s, want 1", g.Num, s.valStr(g, got))
			}
		}
		fv := s.goField(l.mi, l.fi, p)
		var nv reflect.Value
		switch f.Card {
		case CRep:
			if fv.Len() != 1 {
				return at("list %d has %d elements", f.Num, fv.Len())
			}
			nv = fv.Index(0)
		case CMap:
			if fv.Len() != 1 {
				return at("map %d has %d entries", f.Num, fv.Len())
			}
			it := fv.MapRange()
			it.Next()
			kv := reflect.New(fv.Type().Key()).Elem()
			kv.Set(it.Key())
			k := s.getElem(&Field{Kind: f.Key}, kv)
			if f.Key == KString && string(k.S) != string([]byte{byte('a' + l.key)}) || f.Key != KString && k.B != ofVarintKey(f.Key, l.key) {
				return at("map %d has the wrong key", f.Num)
			}
			nv = it.Value()
		default:
			nv = fv
		}
		if nv.IsNil() {
			return at("message %d is absent", f.Num)
		}
		p = nv.UnsafePointer()
	}
	// sizes at some levels
	for i := 0; i < len(ptrs); i += 1 + len(ptrs)/20 {
		m := reflect.NewAt(s.Type(ls[i].mi), ptrs[i])
		if n := proto.Size(m.Interface()); n != sizes[i] {
			return fmt.Errorf("%d levels of %s: Size at level %d is %d, want %d", c.Depth, c.Static, i, n, sizes[i])
		}
	}
	// Encoding takes quadratic time, much of it for maps, empty ones too.
	cost := 0
	for i := range ls {
		for _, f := range s.Msgs[ls[i].mi].Fields {
			if cost++; f.Card == CMap {
				cost += 12
			}
		}
		if s.Msgs[ls[i].mi].Fields[ls[i].fi].Card == CMap {
			cost += 100
		}
	}
	if c.Depth <= 2500 || c.Depth <= 12000 && cost < 500000000/c.Depth {
		x.classIf(c.Depth > 2500, "deeper than 2500, encoded")
		got, err := marshal(v)
		if err != nil {
			return err
		}
		if string(got) != string(b) {
			return fmt.Errorf("%d levels of %s encode to %d bytes %s, want %d bytes %s", c.Depth, c.Static, len(got), hexs(got), len(b), hexs(b))
		}
		x.class("encoded")
	}
	return nil
}

// Deeply nested input with a defect somewhere: C05.
type DeepBadCase struct {
	DeepCase
	Edit int    `json:"edit"` // 0 nothing, 1 cut the end, 2 cut anywhere, 3 change a byte, 4 change one of the last bytes
	At   uint64 `json:"at,omitempty"`
	Byte byte   `json:"byte,omitempty"`
}

func genDeepBad(t *rapid.T) DeepBadCase {
	c := DeepBadCase{DeepCase: DeepCase{Static: pick(t, deepTypes), Seed: u64(t)}, Edit: weighted(t, 10, 30, 20, 20, 20), At: u64(t), Byte: byte(intn(t, 0, 255))}
	switch weighted(t, 30, 45, 25) {
	case 0:
		c.Depth = intn(t, 2, 100)
	case 1:
		c.Depth = intn(t, 100, 1000)
	default:
		c.Depth = intn(t, 1000, 5000)
	}
	if d, ok := dictInt(t, 200, 2, 5000); ok {
		c.Depth = d
	}
	return c
}

func runDeepBad(c DeepBadCase, x *Ctx) error {
	s := staticSchemaOf(c.Static)
	b, _ := c.encode(s, c.levels(s))
	n := uint64(len(b))
	switch c.Edit {
	case 1:
		b = b[:n-1-c.At%min(8, n-1)]
	case 2:
		b = b[:c.At%n]
	case 3:
		b[c.At%n] = c.Byte
	case 4:
		b[n-1-c.At%min(8, n)] = c.Byte
	}
	p := s.New()
	proto.Size(p.Interface())
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	err := unmarshal(b, p)
	runtime.ReadMemStats(&m2)
	x.nontrivial = len(b) >= 100
	x.classIf(err != nil, "rejected")
	x.classIf(err == nil, "accepted")
	x.classIf(err != nil && depthOf(err) > 100, "rejected below 100 levels")
	if n := m2.TotalAlloc - m1.TotalAlloc; n > uint64(1<<18)+uint64(len(b)+16)*s.typeCost() {
		return fmt.Errorf("decoding %d bytes, %d levels of %s with edit %d, allocated %d bytes", len(b), c.Depth, c.Static, c.Edit, n)
	}
	return nil
}

// depthOf is the number of errors in the chain.
func depthOf(err error) int {
	n := 0
	for ; err != nil; err = errors.Unwrap(err) {
		n++
	}
	return n
}

// ofVarintKey is the key for the bits generated.
func ofVarintKey(k Kind, v uint64) uint64 {
	if k.is32() {
		return uint64(uint32(v))
	}
	return v
}

// Values of recursive types, nested deeply by wrapping.
func genNested(t *rapid.T) ValCase {
	o := &genOpts{big: 1, zero: 10}
	c := ValCase{S: staticSchemaOf(pick(t, staticNames))}
	for i := intn(t, 1, 2); i > 0; i-- {
		if chance(t, 30) || !c.S.endless(0) {
			c.V = append(c.V, genMV(t, c.S, 0, o))
			continue
		}
		c.V = append(c.V, genChain(t, c.S, 0, intn(t, 2, 60), o))
	}
	return c
}

// genChain draws a message with the given number of levels below it.
func genChain(t *rapid.T, s *Schema, mi int, depth int, o *genOpts) *MV {
	b := &budget{n: 12}
	m := s.newMV(mi)
	if depth < 6 || chance(t, 15) {
		m = genMsgVal(t, s, mi, o, b, 11, 40)
	}
	if depth == 0 {
		return m
	}
	var nested []int
	for i := range s.Msgs[mi].Fields {
		f := &s.Msgs[mi].Fields[i]
		if f.proto() && f.Kind == KMessage && s.endless(f.Msg) {
			nested = append(nested, i)
		}
	}
	if len(nested) == 0 {
		return m
	}
	i := pick(t, nested)
	f := &s.Msgs[mi].Fields[i]
	in := &Val{M: genChain(t, s, f.Msg, depth-1, o)}
	switch f.Card {
	case CRep:
		l := []*Val{in}
		if chance(t, 25) {
			l = append(l, &Val{M: s.newMV(f.Msg)}, &Val{Nil: true})
		}
		m.F[i] = &Val{L: l}
	case CMap:
		m.F[i] = &Val{K: []*Val{genScalar(t, f.Key, &genOpts{})}, L: []*Val{in}}
	default:
		m.F[i] = in
	}
	return m
}

func genFamilyHist(t *rapid.T) HistCase {
	o := &genOpts{budget: 200}
	c := HistCase{}
	fam := append([]string{}, families[pick(t, familyNames)]...)
	for i := intn(t, 1, len(fam)); i > 0; i-- {
		c.Ss = append(c.Ss, staticSchemaOf(pick(t, fam)))
	}
	for i := intn(t, 1, 6); i > 0; i-- {
		op := genHistOp(t, c.Ss, o)
		if op.Op <= 1 && chance(t, 50) && c.Ss[op.T].endless(0) {
			op.V = genChain(t, c.Ss[op.T], 0, intn(t, 1, 20), o)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runNested(c ValCase, x *Ctx) error {
	if err := runRecords(c, x); err != nil {
		return err
	}
	for _, v := range c.V {
		x.classIf(v.depth() > 20, "nested 21+")
	}
	// runRecords has counted
	y := &Ctx{classes: map[string]int{}}
	return runSize(c, y)
}

func init() {
	addProp(&Prop{ID: "C13", Rule: "cases are one to six message types (recursive families entered at any type, and types with the Go field types of another one and other tags) and a history of up to ten operations on them, run in a process of its own and compared with a reference which knows only the type of each operation; non-trivial: at least two operations", Subs: []Sub{
		isolated("C13", "history", 1400, 60000, genHist, noteHist, runHist),
	}})
	addProp(&Prop{ID: "C14", Race: true, Rule: "cases are message types (recursive families included) and 2 to 12, now and then up to 260, goroutines with operations on them, some on one shared message, started at once in a process of its own built with the race detector, for 8 to 40 rounds with types never used before; every result is compared with the reference; and up to 160 goroutines with one long call each, all under way at once; non-trivial: at least two goroutines", Subs: []Sub{
		isolated("C14", "first use", 44, 2000, genConc, noteConc, runConc),
		isolated("C14", "in flight", 2, 60, genFlight, noteFlight, runFlight),
	}, Assume: []string{"schedules are those which the Go scheduler produces on this machine; the race detector reports races on the executed paths"}})
	addProp(&Prop{ID: "C17", Race: true, Env: []string{"GOGC=5", "GODEBUG=clobberfree=1"}, Rule: "cases are a message type, a populated destination and encodings, decoded while the collector runs all the time, in a program with checked pointers (-race, checkptr) where freed memory is overwritten; afterwards memory is churned and every message compared; non-trivial: at least two values", Subs: []Sub{
		sub("gc", 240, 7200, genOf(genOpts{guards: true, big: 3, long: 4, same: 10}, 3, 50, wireOpts{packed: true, unknown: true, pad: true}), runGC),
		sub("failures", 160, 4800, genFail, runGCFail),
	}, Assume: []string{"checkptr and clobberfree of the Go toolchain"}})
	addProp(&Prop{ID: "C21", Rule: "cases are recursive message types: values nested by wrapping up to 60 levels, histories over the types of a recursive family in a process of their own, and chains of messages through randomly chosen fields up to hundreds of thousands of levels; non-trivial: at least two values, two operations, or 100 levels", Subs: []Sub{
		sub("values", 3000, 90000, genNested, runNested),
		isolated("C21", "order", 300, 12000, genFamilyHist, noteHist, runHist),
		sub("deep", 30, 900, genDeep(300000), runDeep),
	}})
}
