package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	amino "github.com/tendermint/go-amino"
)

func init() {
	drivers["conc"] = driveConc
	drivers["stress"] = driveStress
}

// reent is what is done within the methods of RRe and JRe.
var reent atomic.Value // of func() error

func again() error {
	yield()
	defer yield()
	if f, _ := reent.Load().(func() error); f != nil {
		return f()
	}
	return nil
}

// What a build with chosen schedules changes (sched.go).
var (
	runTasks   func(fs []func(), seed int64)
	yield      = func() {}
	schedStats = func(r *run) {}
)

// RRe uses the codec while it is marshalled and unmarshalled.
type RRe struct{ s string }

func (r RRe) MarshalAmino() (string, error)  { return r.s, again() }
func (r *RRe) UnmarshalAmino(s string) error { r.s = s; return again() }
func (RRe) M1()                              {}
func (j JRe) MarshalJSON() ([]byte, error)   { bz, _ := JText{j.S}.MarshalJSON(); return bz, again() }
func (j *JRe) UnmarshalJSON(bz []byte) error { return firstErr((*JText)(j).UnmarshalJSON(bz), again()) }
func (JRe) M1()                              {}
func (*JRe) M2()                             {}

// JRe uses it in JSON.
type JRe struct{ S string }

func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

// within is a reader and writer that uses the codec.
type within struct {
	r io.Reader
	w bytes.Buffer
}

func (x *within) Read(p []byte) (int, error) {
	if err := again(); err != nil {
		return 0, err
	}
	if len(p) > 3 {
		p = p[:3]
	}
	return x.r.Read(p)
}
func (x *within) Write(p []byte) (int, error) {
	if err := again(); err != nil {
		return 0, err
	}
	return x.w.Write(p)
}

// reInt and reStr are never registered.
type reInt int64
type reStr struct{ s string }

func (r reInt) MarshalAmino() (int64, error)   { return int64(r), nil }
func (r *reInt) UnmarshalAmino(n int64) error  { *r = reInt(n); return nil }
func (r reStr) MarshalAmino() (string, error)  { return r.s, nil }
func (r *reStr) UnmarshalAmino(s string) error { r.s = s; return nil }

// AX is always registered, under the name "AX".
type AX struct{ N int32 }

func (AX) M2() {}

type reUse struct {
	v    interface{}
	bz   []byte
	json string
}

// reUses are used within other calls, often for the first time.
var reUses = []reUse{
	{AX{1}, nil, `{"type":"AX","value":{"N":1}}`},
	{struct{ A int64 }{5}, []byte{8, 5}, `{"A":"5"}`},
	{struct{ A []int16 }{[]int16{1}}, []byte{10, 1, 2}, `{"A":[1]}`},
	{struct{ A, B string }{"a", "b"}, []byte{10, 1, 'a', 18, 1, 'b'}, `{"A":"a","B":"b"}`},
	{struct{ A []struct{ B bool } }{[]struct{ B bool }{{true}}}, []byte{10, 2, 8, 1}, `{"A":[{"B":true}]}`},
	{struct{ A *uint8 }{}, nil, `{"A":null}`},
	{[]string{"x"}, []byte{10, 3, 10, 1, 'x'}, `["x"]`},
	{struct {
		A struct{ B struct{ C uint32 } }
	}{struct{ B struct{ C uint32 } }{struct{ C uint32 }{3}}}, []byte{10, 4, 10, 2, 8, 3}, `{"A":{"B":{"C":3}}}`},
	{struct{ A reInt }{3}, []byte{8, 3}, `{"A":"3"}`},
	{struct{ A []reStr }{[]reStr{{"ab"}}}, []byte{10, 2, 'a', 'b'}, `{"A":["ab"]}`},
}

func init() {
	_, pb := amino.NameToDisfix("AX")
	reUses[0].bz = append(append([]byte{}, pb.Bytes()...), 8, 1)
}

func reenter(cdc *amino.Codec, n *uint32) error {
	k := atomic.AddUint32(n, 1)
	u := reUses[int(k)%len(reUses)]
	switch k / uint32(len(reUses)) % 4 {
	case 0, 1:
		bz, err := cdc.MarshalBinaryBare(u.v)
		if err != nil || !bytes.Equal(bz, u.bz) {
			return fmt.Errorf("within: %+v gives %X, %v", u.v, bz, err)
		}
		p := reflect.New(reflect.TypeOf(u.v))
		if err := cdc.UnmarshalBinaryBare(bz, p.Interface()); err != nil || !reflect.DeepEqual(p.Elem().Interface(), u.v) {
			return fmt.Errorf("within: decoded %v, %v", p.Elem().Interface(), err)
		}
	case 2:
		bz, err := cdc.MarshalJSON(u.v)
		if err != nil || string(bz) != u.json {
			return fmt.Errorf("within: got %s, %v", bz, err)
		}
		p := reflect.New(reflect.TypeOf(u.v))
		if err := cdc.UnmarshalJSON(bz, p.Interface()); err != nil || !reflect.DeepEqual(p.Elem().Interface(), u.v) {
			return fmt.Errorf("within: decoded %v, %v", p.Elem().Interface(), err)
		}
	case 3:
		ok := false
		func() {
			defer func() { ok = recover() != nil }()
			cdc.RegisterConcrete(AX{}, "AX", nil)
		}()
		if !ok {
			return errors.New("within: registered twice")
		}
	}
	return nil
}

// concConf is a set of registrations, made before or concurrently.
type concConf struct {
	base *codec
	all  *codec
	regs []interface{} // regIf or regCon, by bit
	subs []int
}

var concTypes = []reflect.Type{
	ty(A1{}), ty(A2{}), ty(A3{}), ty(A4("")), ty(A5(0)), ty(A7{}), ty(A8{}), ty(A9{}), ty(A14{}), ty(A18(0)), ty(RStr{}), ty(RInt(0)), ty(RSt{}),
	ty(RSlice{}), ty(RRe{}), ty(JRe{}), ty(Rec{}), ty(A21{}),
}

var concHolders = []reflect.Type{
	ty(struct{ I I1 }{}), ty(struct{ L []I1 }{}), ty(A21{}), ty(Rec{}), ty(struct {
		A I2
		B *A2
		C []A3
	}{}), ty(struct {
		R RRe
		L []RRe
	}{}), ty([]RRe{}), ty(struct{ J JRe }{}), ty([]*A3{}), ty(struct {
		A []I0
		B *RRe
	}{}), ty(struct{ L [2]I1 }{}), ty(struct{ P IP }{}),
}

func newConcConf(g *gen) *concConf {
	u := g.u
	f := &concConf{}
	names := map[reflect.Type]string{}
	con := func(rt reflect.Type) regCon {
		if names[rt] == "" {
			names[rt] = "conc/" + rt.Name()
		}
		return regCon{rt, names[rt], g.oneIn(2)}
	}
	var ifs []regIf
	cons := []regCon{{ty(AX{}), "AX", false}}
	for _, it := range ifaceTypes {
		i := regIf{rt: it, alw: g.oneIn(5)}
		if g.oneIn(4) && len(f.regs) < 2 {
			f.regs = append(f.regs, i)
		} else {
			ifs = append(ifs, i)
		}
	}
	perm := g.Perm(len(concTypes))
	for i, j := range perm {
		switch {
		case len(f.regs) < 3 && i < 4:
			f.regs = append(f.regs, con(concTypes[j]))
		case i < 6 || g.oneIn(2):
			cons = append(cons, con(concTypes[j]))
		}
	}
	if l := len(f.regs); l >= 2 && g.oneIn(3) {
		// Two that exclude each other.
		a, aok := f.regs[l-1].(regCon)
		b, bok := f.regs[l-2].(regCon)
		if aok && bok {
			if g.oneIn(2) {
				a.name = b.name
			} else {
				a.rt = b.rt
			}
			f.regs[l-1] = a
		}
	}
	f.base = &codec{ifs: ifs, cons: cons}
	for mask := 0; mask < 1<<uint(len(f.regs)); mask++ {
		c := &codec{ifs: ifs[:len(ifs):len(ifs)], cons: cons[:len(cons):len(cons)]}
		for b, x := range f.regs {
			if mask>>uint(b)&1 == 1 {
				switch x := x.(type) {
				case regIf:
					c.ifs = append(c.ifs, x)
				case regCon:
					c.cons = append(c.cons, x)
				}
			}
		}
		u.add(c)
		f.subs = append(f.subs, c.id)
		if mask == 0 {
			f.base = c
		}
		f.all = c
	}
	return f
}

// ccall is a call to be made; finish completes its event afterwards.
type ccall struct {
	e      ev
	do     func() error
	finish func()
}

type concRun struct {
	r    *run
	g    *gen
	f    *concConf
	cdc  *amino.Codec
	seed int64
}

// reg registers something.
func (s *concRun) reg() ccall {
	g, r := s.g, s.r
	bit := g.Intn(len(s.f.regs))
	var e ev
	var do func() error
	switch x := s.f.regs[bit].(type) {
	case regIf:
		e = ev{"op": "regif", "t": r.u.t(x.rt), "alw": b2i(x.alw), "prio": prioJSON(x.prio), "bit": 1 << uint(bit)}
		do = func() error { x.register(s.cdc); return nil }
	case regCon:
		e = ev{"op": "regcon", "t": r.u.t(x.rt), "n": r.u.name(x.name), "ptr": b2i(x.ptr), "bit": 1 << uint(bit)}
		do = func() error { x.register(s.cdc); return nil }
	}
	return ccall{e, do, func() {}}
}

// call makes a random call.
func (s *concRun) call() ccall {
	g := s.g
	n := g.Intn(20)
	switch {
	case n < 4:
		return s.reg()
	case n == 4 && g.oneIn(5):
		var c2 *amino.Codec
		e := ev{"op": "seal"}
		return ccall{e, func() error { c2 = s.cdc.Seal(); return nil }, func() { e["same"] = b2i(c2 == s.cdc) }}
	case n == 5:
		var buf bytes.Buffer
		e := ev{"op": "print", "room": -1, "c": 1}
		return ccall{e, func() error { return s.cdc.PrintTypes(&buf) }, func() { e["b"] = rawBytes(buf.Bytes()) }}
	}
	return s.codecCall(s.f.all)
}

// codecCall encodes or decodes.
func (s *concRun) codecCall(c *codec) ccall {
	rt := s.g.pick(concHolders)
	if s.g.oneIn(2) {
		rt = s.g.pick(concTypes)
	}
	s.values(c)
	rv := reflect.New(rt).Elem()
	s.g.fill(rv, 4)
	return s.codecCallOf(c, rv, s.g.oneIn(2), s.g.oneIn(3))
}

var probeHolders = map[reflect.Type]reflect.Type{}

// probe makes a call that shows what is registered: an interface holding a
// concrete type, at least one of which may have been registered just now.
func (s *concRun) probe() ccall {
	g := s.g
	type pair struct {
		it reflect.Type
		k  regCon
	}
	var pairs []pair
	n := 0
	for _, i := range s.f.all.ifs {
		for _, k := range s.f.all.cons {
			if !reflect.PtrTo(k.rt).Implements(i.rt) {
				continue
			}
			w := 1
			for _, x := range s.f.regs {
				switch x := x.(type) {
				case regIf:
					if x.rt == i.rt {
						w *= 5
					}
				case regCon:
					if x.rt == k.rt {
						w *= 5
					}
				}
			}
			if w = w / 5; w > 0 {
				n += w
				for ; w > 0; w-- {
					pairs = append(pairs, pair{i.rt, k})
				}
			}
		}
	}
	if n == 0 {
		return s.codecCall(s.f.all)
	}
	x := pairs[g.Intn(n)]
	rt := probeHolders[x.it]
	if rt == nil {
		rt = reflect.StructOf([]reflect.StructField{{Name: "I", Type: x.it}})
		probeHolders[x.it] = rt
	}
	s.values(s.f.all)
	rv := reflect.New(rt).Elem()
	p := reflect.New(x.k.rt)
	g.fill(p.Elem(), 2)
	if x.k.rt.Implements(x.it) && g.oneIn(2) {
		p = p.Elem()
	}
	rv.Field(0).Set(p)
	return s.codecCallOf(s.f.all, rv, g.oneIn(2), g.oneIn(3))
}

func (s *concRun) values(c *codec) {
	s.g.c, s.g.budget, s.g.json, s.g.utc, s.g.mapsOK = c, 12, true, true, false
}

func (s *concRun) codecCallOf(c *codec, rv reflect.Value, dec, json bool) ccall {
	g, r, rt := s.g, s.r, rv.Type()
	t := r.u.t(rt)
	// What is decoded is encoded by another codec.
	twin := amino.NewCodec()
	if dec {
		for _, i := range c.ifs {
			i.register(twin)
		}
		done := map[string]bool{}
		types := map[reflect.Type]bool{}
		for _, k := range c.cons {
			if !done[k.name] && !types[k.rt] {
				k.register(twin)
			}
			done[k.name], types[k.rt] = true, true
		}
		var bz []byte
		func() {
			defer func() { _ = recover() }()
			if json {
				bz, _ = twin.MarshalJSON(rv.Interface())
			} else {
				bz, _ = twin.MarshalBinaryBare(rv.Interface())
			}
		}()
		if g.oneIn(12) {
			bz = g.mutate(bz)
		}
		p := reflect.New(rt)
		in := exact(bz)
		switch {
		case json:
			e := ev{"op": "jdec", "c": 0, "t": t, "b": rawBytes(bz), "tv": r.u.proj(p.Elem()), "fl": numTexts(rt, bz), "v": raw("0"), "m": ""}
			return ccall{e, func() error { return s.cdc.UnmarshalJSON(in, p.Interface()) }, func() {
				if e["o"] == "ok" {
					e["v"] = r.u.projD(p.Elem())
				}
			}}
		default:
			lp := g.oneIn(3)
			e := ev{"op": "dec", "c": 0, "t": t, "b": rawBytes(bz), "tv": r.u.proj(p.Elem()), "lp": b2i(lp), "v": raw("0"), "m": ""}
			do := func() error { return s.cdc.UnmarshalBinaryBare(in, p.Interface()) }
			if lp {
				var b bytes.Buffer
				_ = amino.EncodeByteSlice(&b, bz)
				in = b.Bytes()
				e["b"] = rawBytes(in)
				do = func() error { return s.cdc.UnmarshalBinaryLengthPrefixed(in, p.Interface()) }
				if g.oneIn(2) {
					do = func() error {
						_, err := s.cdc.UnmarshalBinaryLengthPrefixedReader(&within{r: bytes.NewReader(in)}, p.Interface(), 0)
						return err
					}
				}
			}
			return ccall{e, do, func() {
				if e["o"] == "ok" {
					e["v"] = r.u.projD(p.Elem())
				}
			}}
		}
	}
	var bz []byte
	if json {
		e := ev{"op": "jenc", "c": 0, "t": t, "v": r.u.proj(rv), "fl": floatTexts(rv, []jfloat{}), "b": raw("[]"), "outs": []raw{}, "ind": []raw{}, "m": ""}
		return ccall{e, func() (err error) { bz, err = s.cdc.MarshalJSON(rv.Interface()); return },
			func() { e["b"] = rawBytes(bz) }}
	}
	lp := g.oneIn(3)
	e := ev{"op": "enc", "c": 0, "t": t, "v": r.u.proj(rv), "lp": b2i(lp), "b": raw("[]"), "m": ""}
	do := func() (err error) { bz, err = s.cdc.MarshalBinaryBare(rv.Interface()); return }
	if lp {
		do = func() (err error) { bz, err = s.cdc.MarshalBinaryLengthPrefixed(rv.Interface()); return }
		if g.oneIn(2) {
			do = func() error {
				w := &within{}
				_, err := s.cdc.MarshalBinaryLengthPrefixedWriter(w, rv.Interface())
				bz = w.w.Bytes()
				return err
			}
		}
	}
	return ccall{e, do, func() { e["b"] = rawBytes(bz) }}
}

// spawn makes the calls of each goroutine at the same time.
func (s *concRun) spawn(gs [][]ccall, spin []int) {
	if runTasks != nil {
		var fs []func()
		for _, calls := range gs {
			calls := calls
			fs = append(fs, func() {
				for _, c := range calls {
					x := s.r.do(c.do)
					c.e["o"], c.e["m"] = x.o, x.msg
				}
			})
		}
		runTasks(fs, s.seed)
		return
	}
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	for i := range gs {
		wg.Add(1)
		ready.Add(1)
		go func(calls []ccall, n int) {
			defer wg.Done()
			ready.Done()
			<-start
			for _, c := range calls {
				for k := 0; k < n; k++ {
					runtime.Gosched()
				}
				x := s.r.do(c.do)
				c.e["o"], c.e["m"] = x.o, x.msg
			}
		}(gs[i], spin[i])
	}
	ready.Wait()
	close(start)
	wg.Wait()
}

func (s *concRun) newCodec(c *codec) {
	s.cdc = amino.NewCodec()
	for _, i := range c.ifs {
		i.register(s.cdc)
	}
	for _, k := range c.cons {
		k.register(s.cdc)
	}
}

func driveConc(r *run) {
	g := newGen(r.seed, r.u)
	g.big = 1 << 30
	r.u.newCodec(nil, nil)
	s := &concRun{r: r, g: g}
	var confs []*concConf
	for i := 0; i < 8; i++ {
		confs = append(confs, newConcConf(g))
	}
	for i := 0; i < r.n && !r.overtime(); i++ {
		s.f = confs[g.Intn(len(confs))]
		if runTasks == nil {
			r.session(s.session()...)
			continue
		}
		// The same calls in many schedules.
		sub := g.Int63()
		outer := g.Rand
		seen := map[string]bool{}
		for k := 0; k < schedules; k++ {
			g.Rand = rand.New(rand.NewSource(sub))
			s.seed = sub + int64(k)
			sess := s.session()
			if key := fmt.Sprint(sess...); !seen[key] {
				seen[key] = true
				r.session(sess...)
			}
		}
		g.Rand = outer
	}
	schedStats(r)
}

const schedules = 40

// session makes the calls of one session.
func (s *concRun) session() []interface{} {
	g, r := s.g, s.r
	s.newCodec(s.f.base)
	sess := []interface{}{ev{"op": "conf", "base": s.f.base.id, "subs": s.f.subs}}
	few := g.oneIn(2) // mostly registrations
	most := 700
	if runTasks != nil {
		most = 100
	}
	for ph := 1 + g.Intn(2) + b2i(few); ph > 0; ph-- {
		ng := 2 + g.Intn(3)
		gs := make([][]ccall, ng)
		spin := make([]int, ng)
		states := 1
		for j := range gs {
			n := 1 + g.Intn(5)
			if few {
				n = 1 + g.Intn(2)
			}
			for states*(n+1) > most {
				n--
			}
			states *= n + 1
			for ; n > 0; n-- {
				if few && g.oneIn(2) {
					gs[j] = append(gs[j], s.reg())
				} else {
					gs[j] = append(gs[j], s.call())
				}
			}
			spin[j] = g.Intn(4)
		}
		if few && ph == 1 {
			// See what has become of it.
			gs, spin = gs[:1], spin[:1]
			gs[0] = nil
			for k := 0; k < 6; k++ {
				gs[0] = append(gs[0], s.probe())
			}
			ng = 1
		}
		evs := make([][]ev, ng)
		for j := range gs {
			evs[j] = []ev{}
			for _, c := range gs[j] {
				evs[j] = append(evs[j], c.e)
			}
		}
		r.note([]interface{}{sess, evs})
		var n uint32 = uint32(g.Intn(40))
		cdc := s.cdc
		reent.Store(func() error { return reenter(cdc, &n) })
		s.spawn(gs, spin)
		reent.Store(func() error { return nil })
		for j := range gs {
			for _, c := range gs[j] {
				c.finish()
				r.stat(fmt.Sprint(c.e["op"], " ", c.e["o"]))
			}
		}
		sess = append(sess, ev{"op": "phase", "gs": evs})
	}
	return sess
}

// driveStress makes many calls at the same time whose results do not depend
// on each other.
func driveStress(r *run) {
	g := newGen(r.seed, r.u)
	g.big = 1 << 30
	r.u.newCodec(nil, nil)
	s := &concRun{r: r, g: g}
	for i := 0; i < r.n && !r.overtime(); i++ {
		s.f = newConcConf(g)
		s.newCodec(s.f.base)
		if g.oneIn(2) {
			s.cdc.Seal()
		}
		gs := make([][]ccall, 8)
		var evs []interface{}
		for j := range gs {
			for n := 0; n < 25; n++ {
				c := s.codecCall(s.f.base)
				c.e["c"] = s.f.base.id
				gs[j] = append(gs[j], c)
				evs = append(evs, c.e)
			}
		}
		r.note(ev{"op": "stress", "base": s.f.base.id, "n": len(evs)})
		var n uint32
		cdc := s.cdc
		reent.Store(func() error { return reenter(cdc, &n) })
		s.spawn(gs, make([]int, 8))
		reent.Store(func() error { return nil })
		for j := range gs {
			for _, c := range gs[j] {
				c.finish()
				r.stat(fmt.Sprint(c.e["op"], " ", c.e["o"]))
			}
		}
		for _, e := range evs {
			r.session(e)
		}
	}
}
