package main

import (
	"bytes"
	"reflect"

	amino "github.com/tendermint/go-amino"
)

func init() { drivers["alias"] = driveAlias }

// aobj is a buffer or a value that somebody holds.
type aobj struct {
	buf  []byte // over its whole capacity
	n    int    // bytes used
	rv   reflect.Value
	form int // of a buffer: 0 bare, 1 with its length, 2 JSON, 3 anything
	rt   reflect.Type
	text bool // of a value: fit for JSON
}

type aliasSession struct {
	r    *run
	g    *gen
	c    *codec
	cdc  *amino.Codec
	json bool
	objs []*aobj
	evs  []interface{}
}

func (s *aliasSession) proj(o *aobj) raw {
	if o.buf != nil {
		return rawBytes(o.buf)
	}
	return s.r.u.proj(o.rv)
}

// add completes an event with what every object is now.
func (s *aliasSession) add(e ev) {
	h := []raw{}
	for _, o := range s.objs {
		h = append(h, s.proj(o))
	}
	e["h"] = h
	s.evs = append(s.evs, e)
	s.r.stat(e["op"].(string) + " " + e["o"].(string))
}

func (s *aliasSession) pickObj(f func(*aobj) bool) int {
	var l []int
	for i, o := range s.objs {
		if f(o) {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return -1
	}
	return l[s.g.Intn(len(l))]
}

func whole(b []byte, n int) *aobj {
	b = b[:cap(b):cap(b)]
	if b == nil {
		b = []byte{}
	}
	return &aobj{buf: b, n: n}
}

func isVal(o *aobj) bool { return o.buf == nil }
func isBuf(o *aobj) bool { return o.buf != nil }

// value makes an object of its own.
func (s *aliasSession) value(rt reflect.Type) {
	g := s.g
	rv := g.value(rt, s.c)
	s.objs = append(s.objs, &aobj{rv: rv, rt: rt, text: s.json})
	s.add(ev{"op": "amake", "t": s.r.u.t(rt), "o": "ok"})
}

// buffer makes a buffer with an encoding, with some room after it.
func (s *aliasSession) buffer(rt reflect.Type) {
	g := s.g
	form := g.Intn(2)
	bz := g.sloppyTop(s.c, g.value(rt, s.c))
	if form == 1 {
		var w bytes.Buffer
		_ = amino.EncodeByteSlice(&w, bz)
		bz = w.Bytes()
	}
	b := make([]byte, len(bz), len(bz)+g.Intn(20))
	copy(b, bz)
	for i := len(b); i < cap(b); i++ {
		b[:cap(b)][i] = byte(g.Intn(256))
	}
	o := whole(b, len(bz))
	o.form, o.rt = form, rt
	s.objs = append(s.objs, o)
	s.add(ev{"op": "amake", "t": 0, "o": "ok"})
}

// hasMap: it has no binary encoding.
func hasMap(o *aobj) (has bool) {
	walk(o.rv, func(x reflect.Value) { has = has || x.Kind() == reflect.Map || x.Type() == ty(RMap{}) })
	return has || hasKind(o.rt, reflect.Map)
}

func (s *aliasSession) encode(i int) {
	o := s.objs[i]
	form := s.g.Intn(2)
	if o.text && (s.g.Intn(4) > 0 || hasMap(o)) {
		form = 2
	}
	var bz []byte
	e := ev{"op": "aenc", "i": i + 1, "c": s.c.id, "t": s.r.u.t(o.rt), "form": form, "fl": floatTexts(o.rv, []jfloat{}), "b": raw("[]")}
	s.r.note(ev{"session": s.evs, "next": e})
	arg := o.rv.Interface()
	if s.g.oneIn(2) {
		arg = o.rv.Addr().Interface()
	}
	x := s.r.do(func() (err error) {
		switch form {
		case 0:
			bz, err = s.cdc.MarshalBinaryBare(arg)
		case 1:
			bz, err = s.cdc.MarshalBinaryLengthPrefixed(arg)
		case 2:
			bz, err = s.cdc.MarshalJSON(arg)
		}
		return
	})
	e["o"], e["m"] = x.o, x.msg
	if x.o == "ok" {
		e["b"] = rawBytes(bz)
		n := whole(bz, len(bz))
		n.form, n.rt = form, o.rt
		s.objs = append(s.objs, n)
	}
	s.add(e)
}

// decode decodes a buffer, into a value which is already there now and then.
func (s *aliasSession) decode(i int) {
	g := s.g
	o := s.objs[i]
	into := -1
	if g.oneIn(4) {
		into = s.pickObj(func(x *aobj) bool { return isVal(x) && x.rt == o.rt })
	}
	var p reflect.Value
	text := o.form == 2
	if into < 0 {
		p = reflect.New(o.rt)
	} else {
		p = s.objs[into].rv.Addr()
		text = text && s.objs[into].text
	}
	in := o.buf[:o.n]
	e := ev{"op": "adec", "i": i + 1, "n": o.n, "into": into + 1, "c": s.c.id, "t": s.r.u.t(o.rt), "form": o.form, "v": raw("0"),
		"fl": []jfloat{}, "tv": s.r.u.proj(p.Elem())}
	if o.form == 2 {
		e["fl"] = numTexts(o.rt, in)
	}
	s.r.note(ev{"session": s.evs, "next": e})
	x := s.r.do(func() error {
		switch o.form {
		case 1:
			return s.cdc.UnmarshalBinaryLengthPrefixed(in, p.Interface())
		case 2:
			return s.cdc.UnmarshalJSON(in, p.Interface())
		}
		return s.cdc.UnmarshalBinaryBare(in, p.Interface())
	})
	e["o"], e["m"] = x.o, x.msg
	if x.o == "ok" {
		e["v"] = s.r.u.projD(p.Elem())
	}
	if into >= 0 {
		s.objs[into].text = text && x.o == "ok"
	} else if x.o == "ok" {
		s.objs = append(s.objs, &aobj{rv: p.Elem(), rt: o.rt, text: text})
	}
	s.add(e)
}

// slice decodes a byte string with its length.
func (s *aliasSession) slice(i int) {
	o := s.objs[i]
	e := ev{"op": "aslice", "i": i + 1, "n": o.n, "w": raw("[]"), "used": 0}
	s.r.note(ev{"session": s.evs, "next": e})
	var w []byte
	var used int
	x := s.r.do(func() (err error) { w, used, err = amino.DecodeByteSlice(o.buf[:o.n]); return })
	e["o"], e["m"], e["used"] = x.o, x.msg, used
	if x.o == "ok" {
		e["w"] = rawBytes(w)
		n := whole(w, len(w))
		n.form, n.rt = 3, ty([]byte{})
		s.objs = append(s.objs, n)
	}
	s.add(e)
}

// scribble writes over an object.
func (s *aliasSession) scribble(i int) {
	g := s.g
	o := s.objs[i]
	if isBuf(o) {
		how := g.Intn(3)
		for j := range o.buf {
			switch how {
			case 0:
				o.buf[j] = byte(g.Intn(256))
			case 1:
				o.buf[j] ^= 0xff
			default:
				o.buf[j] = 0
			}
		}
		if o.form == 2 {
			o.form = 3
		}
	} else {
		for n := 1 + g.Intn(4); n > 0; n-- {
			if l := g.spots(o.rv, nil); len(l) > 0 {
				l[g.Intn(len(l))]()
			}
		}
		overwrite(o.rv)
	}
	s.add(ev{"op": "ascrib", "i": i + 1, "o": "ok"})
}

// overwrite changes the bytes of all lists of bytes in a value, also those
// after their ends.
func overwrite(rv reflect.Value) {
	walk(rv, func(x reflect.Value) {
		if x.Kind() == reflect.Slice && x.Type().Elem().Kind() == reflect.Uint8 && x.Cap() > 0 {
			full := x.Slice3(0, x.Cap(), x.Cap())
			for i := 0; i < full.Len(); i++ {
				full.Index(i).SetUint(full.Index(i).Uint() ^ 0x2a)
			}
		}
	})
}

func driveAlias(r *run) {
	r.u.newCodec(nil, nil)
	g := newGen(r.seed, r.u)
	g.big = 1 << 30
	var pool, jpool []*codec
	for i := 0; i < 12; i++ {
		pool = append(pool, g.randCodec())
	}
	saved := conTypes
	conTypes = append(append([]reflect.Type{}, conTypes...), jsonCons...)
	for i := 0; i < 6; i++ {
		jpool = append(jpool, g.randCodec())
	}
	conTypes = saved
	for i := 0; i < r.n && !r.overtime(); i++ {
		s := &aliasSession{r: r, g: g, json: g.oneIn(4)}
		g.mapsOK, g.json, g.utc = s.json, true, true
		s.c = pool[g.Intn(len(pool))]
		if s.json {
			s.c = jpool[g.Intn(len(jpool))]
		}
		s.cdc = amino.NewCodec()
		for _, x := range s.c.ifs {
			x.register(s.cdc)
		}
		for _, x := range s.c.cons {
			x.register(s.cdc)
		}
		var types []reflect.Type
		for len(types) < 2 {
			rt := g.topType()
			if !s.json && g.oneIn(4) && len(s.c.cons) > 0 {
				rt = s.c.cons[g.Intn(len(s.c.cons))].rt
			}
			if rt.Kind() != reflect.Interface {
				types = append(types, rt)
				r.u.t(rt)
			}
		}
		s.evs = append(s.evs, ev{"op": "anew", "o": "ok"})
		for n := 5 + g.Intn(10); n > 0 && len(s.objs) < 8; n-- {
			rt := types[g.Intn(len(types))]
			k := g.Intn(12)
			buf := s.pickObj(isBuf)
			val := s.pickObj(isVal)
			switch {
			case val < 0 || k == 0:
				s.value(rt)
			case buf < 0 || k <= 3:
				if k == 3 && !s.json {
					s.buffer(rt)
				} else {
					s.encode(val)
				}
			case k <= 6:
				if s.objs[buf].form != 3 {
					s.decode(buf)
				}
			case k == 7 && !s.json:
				s.slice(buf)
			default:
				s.scribble(g.Intn(len(s.objs)))
			}
		}
		// What is reached from different objects.
		var ms [][][2]uintptr
		for _, o := range s.objs {
			if isBuf(o) {
				m := [][2]uintptr{}
				if len(o.buf) > 0 {
					p := reflect.ValueOf(o.buf).Pointer()
					m = append(m, [2]uintptr{p, p + uintptr(len(o.buf))})
				}
				ms = append(ms, m)
			} else {
				ms = append(ms, mem(o.rv, nil))
			}
		}
		s.add(ev{"op": "amem", "o": "ok", "ms": ranked(ms...)})
		// Everything is written over, and then used again.
		for j := range s.objs {
			s.scribble(j)
		}
		for n := 3; n > 0; n-- {
			s.value(types[g.Intn(len(types))])
			j := len(s.objs) - 1
			s.encode(j)
			if k := len(s.objs) - 1; k > j {
				s.decode(k)
			}
		}
		r.session(s.evs...)
	}
}
