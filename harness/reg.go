package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	drivers["names"] = driveNames
	drivers["iface"] = driveIface
	drivers["conflict"] = func(r *run) { driveReg(r, "conflict") }
	drivers["seal"] = func(r *run) { driveReg(r, "seal") }
	drivers["list"] = func(r *run) { driveReg(r, "list") }
	drivers["fail"] = func(r *run) { driveReg(r, "fail") }
}

//----------------------------------------
// C10

func driveNames(r *run) {
	g := newGen(r.seed, r.u)
	g.big = 1 << 30
	r.u.newCodec(nil, nil)
	r.u.t(ty(A1{}))
	for i := 0; i < r.n && !r.overtime(); i++ {
		var name string
		switch g.Intn(6) {
		case 0:
			name = zeroNames[g.Intn(len(zeroNames))]
		case 1:
			name = collisions[g.Intn(len(collisions))][g.Intn(2)]
		case 2:
			name = "tendermint/" + string(rune('A'+g.Intn(26))) + g.word()
		default:
			b := make([]byte, g.Intn(130))
			g.Read(b)
			name = string(b)
		}
		e := ev{"op": "name", "n": ints(name), "d": raw("[]"), "p": raw("[]"), "t": r.u.t(ty(A1{})), "enc": raw("[]"), "ifc": raw("[]"), "row": raw("[]"), "do": ""}
		r.note(e)
		d, p := amino.NameToDisfix(name)
		e["d"], e["p"] = rawBytes(d.Bytes()), rawBytes(p.Bytes())
		alw := g.oneIn(2)
		e["alw"] = b2i(alw)
		x := r.do(func() error {
			cdc := amino.NewCodec()
			cdc.RegisterInterface((*I1)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: alw})
			cdc.RegisterConcrete(A1{}, name, nil)
			bz, err := cdc.MarshalBinaryBare(A1{5})
			if err != nil {
				return err
			}
			e["enc"] = rawBytes(bz)
			bz, err = cdc.MarshalBinaryBare(struct{ I I1 }{A1{5}})
			if err != nil {
				return err
			}
			e["ifc"] = rawBytes(bz)
			var buf bytes.Buffer
			if err := cdc.PrintTypes(&buf); err != nil {
				return err
			}
			e["row"] = rawBytes([]byte(strings.SplitAfterN(buf.String(), "\n", 3)[2]))
			var w struct{ I I1 }
			if err := cdc.UnmarshalBinaryBare(bz, &w); err != nil {
				return err
			}
			if !reflect.DeepEqual(w.I, A1{5}) {
				return errors.New("another value")
			}
			return nil
		})
		e["do"] = x.o
		if n := strings.IndexByte(name, 0); n < 0 && name != "" && g.oneIn(4) {
			r.session(e, r.concrete(name))
		} else {
			r.session(e)
		}
		r.stat("names")
	}
}

//----------------------------------------
// C11

var ifaceHolders = []reflect.Type{
	ty(A21{}), ty(Rec{}), ty(struct{ A I1 }{}), ty(struct {
		A I0
		B I2
	}{}), ty(struct{ L []I1 }{}), ty(struct{ L [2]I2 }{}), ty(struct{ L []I0 }{}), ty(struct {
		A I3
		B IP
		C uint8
	}{}), ty(struct{ L []IP }{}), ty([]I1{}), ty([2]I0{}), ty(struct {
		A I1 `amino:"write_empty"`
		B []I3
	}{}), ty(struct {
		S []struct{ X I1 }
		P *struct{ Y I0 }
	}{}),
}

func driveIface(r *run) {
	b := newBinCase(r)
	g := b.g
	g.simple = false
	for i := 0; i < r.n && !r.overtime(); i++ {
		b.next()
		c := b.c
		rt := g.pick(ifaceHolders)
		if g.oneIn(8) {
			rt = g.pick(ifaceTypes)
		}
		rv := g.value(rt, c)
		lp := g.oneIn(4)
		if rt.Kind() == reflect.Interface {
			// Decoding into a variable of an interface type.
			var bz []byte
			s := &sloppy{g: g, c: c, rate: 8}
			bz = s.val(rv, opts{num: 1}, true)
			if g.oneIn(2) && !rv.IsNil() {
				if x := tryEncode(c, rv); x != nil {
					bz = x
				}
			}
			if g.oneIn(6) {
				bz = g.mutate(bz)
			}
			if lp {
				bz = append(g.uvarint(uint64(len(bz))), bz...)
			}
			r.decEvent(b, c, rt, bz, lp, "dec")
			continue
		}
		if g.oneIn(2) {
			e := ev{"op": "enc", "c": c.id, "t": r.u.t(rt), "v": r.u.proj(rv), "lp": b2i(lp), "o": "", "b": raw("[]"), "m": ""}
			r.note(e)
			var bz []byte
			x := r.do(func() (err error) { bz, err = encode(c, rv, lp); return })
			e["o"], e["m"] = x.o, x.msg
			if x.o == "ok" {
				e["b"] = rawBytes(bz)
			}
			r.stat("encode " + x.o)
			r.session(e)
			continue
		}
		bz := g.message(c, rv, lp)
		r.decEvent(b, c, rt, bz, lp, "dec")
	}
}

//----------------------------------------
// Registration

// Types that cannot be registered or used.
type BadM1 struct{}

func (BadM1) MarshalAmino(x int) (string, error) { return "", nil }

type BadM2 struct{}

func (BadM2) MarshalAmino() string { return "" }

type BadM3 struct{}

func (BadM3) MarshalAmino() (*A1, error) { return nil, nil }

type BadM4 struct{}

func (*BadM4) UnmarshalAmino(x *A1) error { return nil }

type BadM5 struct{}

func (*BadM5) UnmarshalAmino(x A1) string { return "" }

// Types whose methods panic or fail.
type PanM struct{ X int64 }

func (PanM) MarshalAmino() (string, error) { panic("PanM") }
func (*PanM) UnmarshalAmino(string) error  { panic("PanU") }

type ErrM struct{ X int64 }

func (ErrM) MarshalAmino() (string, error) { return "x", errors.New("ErrM") }
func (*ErrM) UnmarshalAmino(string) error  { return errors.New("ErrU") }

type PanJ struct{ X int64 }

func (PanJ) MarshalJSON() ([]byte, error) { panic("PanJ") }
func (*PanJ) UnmarshalJSON([]byte) error  { panic("PanJ") }

type ErrJ struct{ X int64 }

func (ErrJ) MarshalJSON() ([]byte, error) { return nil, errors.New("ErrJ") }
func (*ErrJ) UnmarshalJSON([]byte) error  { return errors.New("ErrJ") }

type NoUns struct{ F float64 }
type HasF struct {
	A int64
	F func()
}
type HasBad struct {
	A int64
	B BadM1
}
type HasIN struct {
	A int64
	I IN
}

type panRW struct{}

func (panRW) Read([]byte) (int, error)  { panic("panRW") }
func (panRW) Write([]byte) (int, error) { panic("panRW") }

// failures are calls that must fail, and change nothing.
var failures = []struct {
	name string
	f    func(c *amino.Codec) error
}{
	{"nil", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(nil); return err }},
	{"nil pointer", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare((*A1)(nil)); return err }},
	{"nil pointer lp", func(c *amino.Codec) error { _, err := c.MarshalBinaryLengthPrefixed((*A3)(nil)); return err }},
	{"func", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(HasF{F: func() {}}); return err }},
	{"chan", func(c *amino.Codec) error {
		ch := make(chan int, 1)
		ch <- 1
		_, err := c.MarshalBinaryBare(struct{ C chan int }{ch})
		return err
	}},
	{"complex", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(struct{ C complex128 }{1i}); return err }},
	{"map", func(c *amino.Codec) error {
		_, err := c.MarshalBinaryBare(struct{ M map[string]int }{map[string]int{"a": 1}})
		return err
	}},
	{"unregistered interface", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(HasIN{}); return err }},
	{"unregistered interface dec", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{8, 1}, &HasIN{}) }},
	{"unregistered interface json", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte(`{"I":{"type":"x","value":1}}`), &HasIN{}) }},
	{"bad method 1", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(BadM1{}); return err }},
	{"bad method 2", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(BadM2{}); return err }},
	{"bad method 3", func(c *amino.Codec) error { _, err := c.MarshalJSON(BadM3{}); return err }},
	{"bad method 4", func(c *amino.Codec) error { return c.UnmarshalBinaryBare(nil, &BadM4{}) }},
	{"bad method 5", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte("{}"), &BadM5{}) }},
	{"bad method inside", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(HasBad{}); return err }},
	{"bad method inside dec", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{8, 1}, &HasBad{}) }},
	{"register bad method 1", func(c *amino.Codec) error { c.RegisterConcrete(BadM1{}, "bad1", nil); return nil }},
	{"register bad method 4", func(c *amino.Codec) error { c.RegisterConcrete(&BadM4{}, "bad4", nil); return nil }},
	{"float", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(NoUns{1}); return err }},
	{"float json", func(c *amino.Codec) error { _, err := c.MarshalJSON(NoUns{1}); return err }},
	{"top float", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(1.5); return err }},
	{"panic marshal", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(struct{ P PanM }{PanM{1}}); return err }},
	{"panic marshal json", func(c *amino.Codec) error { _, err := c.MarshalJSON([]PanM{{1}}); return err }},
	{"panic unmarshal", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{10, 1, 65}, &struct{ P PanM }{}) }},
	{"panic unmarshal json", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte(`{"P":"a"}`), &struct{ P PanM }{}) }},
	{"err marshal", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(ErrM{1}); return err }},
	{"err marshal list", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare([]ErrM{{1}}); return err }},
	{"err marshal json", func(c *amino.Codec) error { _, err := c.MarshalJSON(&ErrM{1}); return err }},
	{"err unmarshal", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{10, 1, 65}, &ErrM{}) }},
	{"err unmarshal json", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte(`"a"`), &ErrM{}) }},
	{"panic MarshalJSON", func(c *amino.Codec) error { _, err := c.MarshalJSON(PanJ{1}); return err }},
	{"panic UnmarshalJSON", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte(`{}`), &PanJ{}) }},
	{"err MarshalJSON", func(c *amino.Codec) error { _, err := c.MarshalJSON(struct{ E ErrJ }{}); return err }},
	{"err UnmarshalJSON", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte(`[{}]`), &[]ErrJ{}) }},
	{"no pointer", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{8, 1}, A3{}) }},
	{"no pointer json", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte(`1`), 5) }},
	{"nil target", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{8, 1}, nil) }},
	{"nil pointer target", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{8, 1}, (*A3)(nil)) }},
	{"garbage", func(c *amino.Codec) error { return c.UnmarshalBinaryBare([]byte{255, 255, 255}, &A25{}) }},
	{"garbage lp", func(c *amino.Codec) error { return c.UnmarshalBinaryLengthPrefixed([]byte{3, 255, 255, 255}, &A25{}) }},
	{"empty lp", func(c *amino.Codec) error { return c.UnmarshalBinaryLengthPrefixed(nil, &A25{}) }},
	{"garbage json", func(c *amino.Codec) error { return c.UnmarshalJSON([]byte(`{"L":[`), &A25{}) }},
	{"empty json", func(c *amino.Codec) error { return c.UnmarshalJSON(nil, &A25{}) }},
	{"panic reader", func(c *amino.Codec) error {
		_, err := c.UnmarshalBinaryLengthPrefixedReader(panRW{}, &A1{}, 0)
		return err
	}},
	{"negative size", func(c *amino.Codec) error {
		_, err := c.UnmarshalBinaryLengthPrefixedReader(&bytes.Buffer{}, &A1{}, -1)
		return err
	}},
	{"panic writer", func(c *amino.Codec) error {
		_, err := c.MarshalBinaryLengthPrefixedWriter(panRW{}, A25{})
		return err
	}},
	{"failing writer", func(c *amino.Codec) error {
		_, err := c.MarshalBinaryLengthPrefixedWriter(&failWriter{room: 1}, A25{L: []string{"abc"}})
		return err
	}},
	{"panic list", func(c *amino.Codec) error { return c.PrintTypes(panRW{}) }},
	{"failing list", func(c *amino.Codec) error { return c.PrintTypes(&failWriter{room: 10}) }},
	{"register nil", func(c *amino.Codec) error { c.RegisterConcrete(nil, "nil", nil); return nil }},
	{"register pointer-pointer", func(c *amino.Codec) error { p := &A1{}; c.RegisterConcrete(&p, "pp", nil); return nil }},
	{"register interface pointer", func(c *amino.Codec) error { c.RegisterConcrete((*I1)(nil), "ip", nil); return nil }},
	{"register interface nil", func(c *amino.Codec) error { c.RegisterInterface(nil, nil); return nil }},
	{"register interface of struct", func(c *amino.Codec) error { c.RegisterInterface((*A1)(nil), nil); return nil }},
	{"register interface of value", func(c *amino.Codec) error { c.RegisterInterface(A1{}, nil); return nil }},
	{"far time", func(c *amino.Codec) error { _, err := c.MarshalBinaryBare(time.Unix(1<<60, 0)); return err }},
	{"must far time", func(c *amino.Codec) error { c.MustMarshalBinaryBare(time.Unix(1<<60, 0)); return nil }},
	{"must garbage", func(c *amino.Codec) error { c.MustUnmarshalBinaryBare([]byte{255, 255, 255}, &A25{}); return nil }},
	{"must garbage json", func(c *amino.Codec) error { c.MustUnmarshalJSON([]byte("{{"), &A25{}); return nil }},
	{"deep copy func", func(c *amino.Codec) error { amino.DeepCopy(HasF{F: func() {}}); return nil }},
}

// regSession drives one codec through registrations and other calls.
type regSession struct {
	r     *run
	g     *gen
	c     *codec // id: the codec as it should now be
	focus string
	evs   []interface{}
	ids   map[string]int
	con   []reflect.Type
	names []string
}

func (s *regSession) add(e ev) { s.evs = append(s.evs, e) }

// snap gives the number of a codec with the present registrations.
func (s *regSession) snap() {
	var b strings.Builder
	for _, i := range s.c.ifs {
		fmt.Fprint(&b, i.rt, i.alw, i.prio, ";")
	}
	for _, r := range s.c.cons {
		fmt.Fprint(&b, r.rt, r.name, r.ptr, ";")
	}
	k := b.String()
	if id, ok := s.ids[k]; ok {
		s.c.id = id
		return
	}
	n := &codec{ifs: append([]regIf{}, s.c.ifs...), cons: append([]regCon{}, s.c.cons...)}
	s.r.u.add(n)
	s.c.id = n.id
	s.ids[k] = n.id
}

func (s *regSession) regIf() {
	g := s.g
	it := g.pick(ifaceTypes)
	i := regIf{rt: it, alw: g.oneIn(4), prio: []string{}}
	for _, n := range s.names {
		if g.oneIn(2) {
			i.prio = append(i.prio, n)
		}
	}
	s.doRegIf(i)
}

func (s *regSession) doRegIf(i regIf) {
	e := ev{"op": "regif", "t": s.r.u.t(i.rt), "alw": b2i(i.alw), "prio": prioJSON(i.prio), "o": ""}
	s.r.note(e)
	x := s.r.do(func() error { i.register(s.c.cdc); return nil })
	e["o"] = x.o
	if x.o == "ok" {
		s.c.ifs = append(s.c.ifs, i)
		s.snap()
	}
	s.r.stat("interface " + x.o)
	s.add(e)
}

func prioJSON(p []string) [][]int {
	out := [][]int{}
	for _, n := range p {
		out = append(out, ints(n))
	}
	return out
}

func (s *regSession) regCon() {
	g := s.g
	s.doRegCon(regCon{rt: g.pick(s.con), name: s.names[g.Intn(len(s.names))], ptr: g.oneIn(2)})
}

func (s *regSession) doRegCon(k regCon) {
	e := ev{"op": "regcon", "t": s.r.u.t(k.rt), "n": s.r.u.name(k.name), "ptr": b2i(k.ptr), "o": ""}
	s.r.note(e)
	x := s.r.do(func() error { k.register(s.c.cdc); return nil })
	e["o"] = x.o
	if x.o == "ok" {
		s.c.cons = append(s.c.cons, k)
		s.snap()
	}
	s.r.stat("concrete " + x.o)
	s.add(e)
}

func (s *regSession) seal() {
	e := ev{"op": "seal", "o": "", "same": 0}
	s.r.note(e)
	var c2 *amino.Codec
	x := s.r.do(func() error { c2 = s.c.cdc.Seal(); return nil })
	e["o"], e["same"] = x.o, b2i(c2 == s.c.cdc)
	s.add(e)
}

func (s *regSession) print() {
	room := -1
	if s.g.oneIn(4) {
		room = s.g.Intn(400)
	}
	s.doPrint(room)
}

func (s *regSession) doPrint(room int) {
	w := &failWriter{room: room}
	e := ev{"op": "print", "room": w.room, "o": "", "b": raw("[]"), "c": s.c.id}
	s.r.note(e)
	var err error
	x := s.r.do(func() error { err = s.c.cdc.PrintTypes(w); return err })
	e["o"], e["b"] = errClass(x, err), rawBytes(w.buf.Bytes())
	s.r.stat("print " + e["o"].(string))
	s.add(e)
}

func (s *regSession) fail() {
	f := failures[s.g.Intn(len(failures))]
	s.doFail(f.name, f.f)
}

func (s *regSession) doFail(name string, f func(c *amino.Codec) error) {
	e := ev{"op": "bad", "what": name, "o": "", "ts": []int{s.r.u.t(ty(A1{})), s.r.u.t(ty(A3{})), s.r.u.t(ty(A25{}))}}
	s.r.note(e)
	x := s.r.do(func() error { return f(s.c.cdc) })
	e["o"] = x.o
	s.r.stat("fail " + x.o)
	s.add(e)
}

// probe encodes or decodes.
func (s *regSession) probe(pkg bool) {
	g := s.g
	c := s.c
	if pkg {
		c = s.r.u.codecs[0]
	}
	var rt reflect.Type
	switch g.Intn(4) {
	case 0:
		rt = g.pick(s.con)
	case 1:
		rt = g.pick(ifaceHolders)
	case 2:
		rt = reflect.SliceOf(g.pick(s.con))
		if k := rt.Elem().Kind(); k == reflect.Slice || k == reflect.Array || k == reflect.Uint8 {
			rt = reflect.PtrTo(rt.Elem())
		}
	default:
		rt = reflect.StructOf([]reflect.StructField{{Name: "F", Type: g.pick(ifaceTypes)}, {Name: "G", Type: reflect.PtrTo(g.pick(s.con))}})
	}
	rv := g.value(rt, s.c)
	if _, ok := deref(rv); !ok {
		rv = reflect.New(rt.Elem())
	}
	lp := g.oneIn(3)
	if g.oneIn(2) {
		s.doEnc(c, rv, lp, pkg)
		return
	}
	s.doDec(c, rt, g.message(c, rv, lp), lp, pkg)
}

func (s *regSession) doEnc(c *codec, rv reflect.Value, lp, pkg bool) (bz []byte) {
	e := ev{"op": "enc", "c": c.id, "t": s.r.u.t(rv.Type()), "v": s.r.u.proj(rv), "lp": b2i(lp), "o": "", "b": raw("[]"), "m": "",
		"pkg": b2i(pkg), "must": ""}
	s.r.note(e)
	x := s.r.do(func() (err error) { bz, err = encode(c, rv, lp); return })
	e["o"], e["m"] = x.o, x.msg
	if x.o == "ok" {
		e["b"] = rawBytes(bz)
	}
	if s.focus == "fail" && s.g.oneIn(2) {
		var mz []byte
		y := s.r.do(func() error { mz = mustEncode(c, rv, lp); return nil })
		e["must"] = y.o
		if y.o == "ok" && !bytes.Equal(bz, mz) {
			e["must"] = "other"
		}
	}
	s.r.stat("encode " + x.o)
	s.add(e)
	if x.o != "ok" {
		return nil
	}
	return bz
}

func (s *regSession) doDec(c *codec, rt reflect.Type, bz []byte, lp, pkg bool) {
	p := reflect.New(rt)
	e := ev{"op": "dec", "c": c.id, "t": s.r.u.t(rt), "b": rawBytes(bz), "lp": b2i(lp), "tv": s.r.u.proj(p.Elem()),
		"o": "", "v": raw("0"), "m": "", "al": 0, "pkg": b2i(pkg), "must": ""}
	s.r.note(e)
	x := s.r.do(func() error { return decode(c, bz, p.Interface(), lp) })
	e["o"], e["m"] = x.o, x.msg
	if x.o == "ok" {
		e["v"] = s.r.u.proj(p.Elem())
	}
	if s.focus == "fail" && s.g.oneIn(2) {
		q := reflect.New(rt)
		y := s.r.do(func() error { mustDecode(c, bz, q.Interface(), lp); return nil })
		e["must"] = y.o
		if y.o == "ok" && !bytes.Equal(s.r.u.proj(p.Elem()), s.r.u.proj(q.Elem())) {
			e["must"] = "other"
		}
	}
	s.r.stat("decode " + x.o)
	s.add(e)
}

func mustEncode(c *codec, rv reflect.Value, lp bool) []byte {
	switch {
	case c.pkg && lp:
		return amino.MustMarshalBinaryLengthPrefixed(rv.Interface())
	case c.pkg:
		return amino.MustMarshalBinaryBare(rv.Interface())
	case lp:
		return c.cdc.MustMarshalBinaryLengthPrefixed(rv.Interface())
	}
	return c.cdc.MustMarshalBinaryBare(rv.Interface())
}

func mustDecode(c *codec, bz []byte, ptr interface{}, lp bool) {
	switch {
	case c.pkg && lp:
		amino.MustUnmarshalBinaryLengthPrefixed(bz, ptr)
	case c.pkg:
		amino.MustUnmarshalBinaryBare(bz, ptr)
	case lp:
		c.cdc.MustUnmarshalBinaryLengthPrefixed(bz, ptr)
	default:
		c.cdc.MustUnmarshalBinaryBare(bz, ptr)
	}
}

func driveReg(r *run, focus string) {
	g := newGen(r.seed, r.u)
	g.big = 1 << 30
	g.untouched = true
	p := r.u.newCodec(nil, nil)
	p.pkg = true
	ids := map[string]int{}
	for i := 0; i < r.n && !r.overtime(); i++ {
		if focus == "seal" && g.oneIn(6) {
			sealRace(r, g)
			continue
		}
		s := &regSession{r: r, g: g, focus: focus, ids: ids, c: &codec{cdc: newCodec()}}
		s.snap()
		for _, j := range g.Perm(len(conTypes))[:5] {
			s.con = append(s.con, conTypes[j])
		}
		col := collisions[g.Intn(len(collisions))]
		s.names = []string{col[0], col[1], zeroNames[g.Intn(len(zeroNames))], g.name(s.con[0]), "n4"}
		s.add(ev{"op": "new"})
		// Which kinds of events.
		w := map[string][]int{ // interface concrete seal print probe package fail
			"conflict": {5, 8, 0, 1, 5, 0, 0},
			"seal":     {4, 5, 2, 1, 6, 0, 0},
			"list":     {3, 8, 1, 6, 2, 0, 1},
			"fail":     {2, 3, 0, 1, 5, 2, 6},
		}[focus]
		total := 0
		for _, x := range w {
			total += x
		}
		n := 6 + g.Intn(10)
		for j := 0; j < n; j++ {
			x := g.Intn(total)
			k := 0
			for x >= w[k] {
				x -= w[k]
				k++
			}
			switch k {
			case 0:
				s.regIf()
			case 1:
				s.regCon()
			case 2:
				if j > n/3 {
					s.seal()
				}
			case 3:
				s.print()
			case 4:
				s.probe(false)
			case 5:
				s.probe(true)
			case 6:
				s.fail()
			}
		}
		s.print()
		for _, it := range s.con {
			_ = it
			if g.oneIn(3) {
				s.probe(false)
			}
		}
		r.session(s.evs...)
	}
}

//----------------------------------------
// Sealing while registrations are under way

func sealRace(r *run, g *gen) {
	cdc := newCodec()
	long := strings.Repeat("long name ", 20000)
	var prio []string
	for i := 0; i < 1500; i++ {
		prio = append(prio, fmt.Sprint("p", i))
	}
	regs := []func(){
		func() { cdc.RegisterInterface((*I1)(nil), &amino.InterfaceOptions{Priority: prio}) },
		func() { cdc.RegisterInterface((*I2)(nil), &amino.InterfaceOptions{Priority: prio}) },
		func() { cdc.RegisterConcrete(A1{}, "a1"+long, nil) },
		func() { cdc.RegisterConcrete(A2{}, "a2"+long, nil) },
		func() { cdc.RegisterConcrete(&A3{}, "a3", nil) },
		func() { cdc.RegisterConcrete(A4(""), "a4"+long, nil) },
		func() { cdc.RegisterConcrete(RHold{}, "a5"+long, nil) },
		func() { cdc.RegisterConcrete(Tagged{}, "a6", nil) },
	}
	outs := make([]string, len(regs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	r.note(ev{"op": "sealrace"})
	for i, f := range regs {
		i, f := i, f
		wg.Add(1)
		d := time.Duration(g.Intn(1500)) * time.Microsecond
		go func() {
			defer wg.Done()
			<-start
			time.Sleep(d)
			outs[i] = r.do(func() error { f(); return nil }).o
		}()
	}
	close(start)
	time.Sleep(time.Duration(g.Intn(2500)) * time.Microsecond)
	if x := r.do(func() error { cdc.Seal(); return nil }); x.o != "ok" {
		panic("harness: cannot seal")
	}
	// What can be used right after sealing.
	before := knownTypes(r, cdc)
	wg.Wait()
	after := knownTypes(r, cdc)
	e := ev{"op": "sealrace", "outs": outs, "before": before, "after": after}
	for _, o := range outs {
		r.stat("race " + o)
	}
	r.session(ev{"op": "new"}, e)
}

// driveSealSched does the same in chosen schedules.
func driveSealSched(r *run) {
	g := newGen(r.seed, r.u)
	r.u.newCodec(nil, nil)
	seen := map[string]bool{}
	for i := 0; i < r.n && !r.overtime(); i++ {
		cdc := newCodec()
		regs := []func(){
			func() { cdc.RegisterInterface((*I1)(nil), nil) },
			func() { cdc.RegisterInterface((*I2)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true}) },
			func() { cdc.RegisterConcrete(A1{}, "a1", nil) },
			func() { cdc.RegisterConcrete(A2{}, "a2", nil) },
			func() { cdc.RegisterConcrete(&A3{}, "a3", nil) },
			func() { cdc.RegisterConcrete(A4(""), "a4", nil) },
			func() { cdc.RegisterConcrete(RHold{}, "a5", nil) },
			func() { cdc.RegisterConcrete(Tagged{}, "a6", nil) },
		}
		outs := make([]string, len(regs))
		var before []int
		r.note(ev{"op": "sealrace"})
		var fs []func()
		for i, f := range regs {
			i, f := i, f
			fs = append(fs, func() { outs[i] = r.do(func() error { f(); return nil }).o })
		}
		fs = append(fs, func() {
			if x := r.do(func() error { cdc.Seal(); return nil }); x.o != "ok" {
				panic("harness: cannot seal")
			}
			before = knownTypes(r, cdc)
		})
		runTasks(fs, g.Int63())
		e := ev{"op": "sealrace", "outs": outs, "before": before, "after": knownTypes(r, cdc)}
		for _, o := range outs {
			r.stat("race " + o)
		}
		if key := fmt.Sprint(e); !seen[key] {
			seen[key] = true
			r.session(ev{"op": "new"}, e)
		}
	}
	schedStats(r)
}

// knownTypes tells which of the registrations of sealRace are there.
func knownTypes(r *run, cdc *amino.Codec) []int {
	var buf bytes.Buffer
	_ = cdc.PrintTypes(&buf)
	out := []int{}
	for _, f := range []func() error{
		func() error { _, err := cdc.MarshalBinaryBare(struct{ I I1 }{}); return err },
		func() error { _, err := cdc.MarshalBinaryBare(struct{ I I2 }{}); return err },
	} {
		out = append(out, b2i(r.do(f).o == "ok"))
	}
	for _, n := range []string{"| A1 |", "| A2 |", "| A3 |", "| A4 |", "| RHold |", "| Tagged |"} {
		out = append(out, b2i(strings.Contains(buf.String(), n)))
	}
	return out
}
