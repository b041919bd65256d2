package main

import (
	"bytes"
	"reflect"

	amino "github.com/tendermint/go-amino"
)

func init() {
	drivers["rt"] = driveRT
	drivers["enc"] = driveEnc
	drivers["dec"] = driveDec
}

// conTypes are the concrete types that may be registered.
var conTypes = append(append([]reflect.Type{}, staticTypes...), reprTypes...)

// randCodec makes a codec with random registrations.  Some names have the
// same prefix bytes; they are in the priority list of every interface.
func (g *gen) randCodec() *codec {
	var cons []regCon
	var prio []string
	used := map[string]bool{}
	perm := g.Perm(len(conTypes))
	pairs := g.Intn(3)
	for i, j := range perm {
		if i > 4 && g.oneIn(3) {
			continue
		}
		name := g.name(conTypes[j])
		if i < 2*pairs {
			name = collisions[i/2][i%2]
			prio = append(prio, name)
		}
		if used[name] {
			continue
		}
		used[name] = true
		cons = append(cons, regCon{rt: conTypes[j], name: name, ptr: g.oneIn(2)})
	}
	ifs := []regIf{}
	for _, it := range ifaceTypes {
		p := append([]string{}, prio...)
		for _, n := range cons {
			if g.oneIn(20) {
				p = append(p, n.name)
			}
		}
		g.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		ifs = append(ifs, regIf{rt: it, alw: g.oneIn(4), prio: p})
	}
	g.Shuffle(len(cons), func(i, j int) { cons[i], cons[j] = cons[j], cons[i] })
	return g.u.newCodec(ifs, cons)
}

// name picks one of the names of a type.
func (g *gen) name(rt reflect.Type) string {
	if g.oneIn(12) {
		return zeroNames[g.Intn(len(zeroNames))]
	}
	l := g.names[rt]
	if len(l) < 2 {
		b := []byte(rt.Name() + "/")
		n := g.Intn(70)
		for i := 0; i < n; i++ {
			b = append(b, byte(33+g.Intn(94)))
		}
		g.names[rt] = append(l, string(b))
		return string(b)
	}
	return l[g.Intn(2)]
}

func encode(c *codec, rv reflect.Value, lp bool) ([]byte, error) {
	switch {
	case c.pkg && lp:
		return amino.MarshalBinaryLengthPrefixed(rv.Interface())
	case c.pkg:
		return amino.MarshalBinaryBare(rv.Interface())
	case lp:
		return c.cdc.MarshalBinaryLengthPrefixed(rv.Interface())
	}
	return c.cdc.MarshalBinaryBare(rv.Interface())
}

// tryEncode encodes if it can.
func tryEncode(c *codec, rv reflect.Value) (bz []byte) {
	defer func() {
		if recover() != nil {
			bz = nil
		}
	}()
	bz, err := encode(c, rv, false)
	if err != nil {
		return nil
	}
	return bz
}

func decode(c *codec, bz []byte, ptr interface{}, lp bool) error {
	switch {
	case c.pkg && lp:
		return amino.UnmarshalBinaryLengthPrefixed(bz, ptr)
	case c.pkg:
		return amino.UnmarshalBinaryBare(bz, ptr)
	case lp:
		return c.cdc.UnmarshalBinaryLengthPrefixed(bz, ptr)
	}
	return c.cdc.UnmarshalBinaryBare(bz, ptr)
}

// binCase makes a codec now and then, a type and a value of it.
type binCase struct {
	g      *gen
	c      *codec
	n      int
	rt     reflect.Type
	nilTop bool // nil pointers too
}

func newBinCase(r *run) *binCase {
	r.u.newCodec(nil, nil)
	return &binCase{g: newGen(r.seed, r.u)}
}

func (b *binCase) next() reflect.Value {
	if b.n%200 == 0 {
		b.c = b.g.randCodec()
	}
	if b.n%4 == 0 {
		b.rt = b.g.topType()
	}
	b.n++
	for b.rt.Kind() == reflect.Interface {
		b.rt = b.g.topType()
	}
	b.g.u.t(b.rt)
	for {
		rv := b.g.value(b.rt, b.c)
		if _, ok := deref(rv); ok || b.nilTop {
			return rv
		}
	}
}

func driveRT(r *run) {
	b := newBinCase(r)
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.next()
		lp := b.g.oneIn(2)
		v := r.u.proj(rv)
		e := ev{"op": "rt", "c": b.c.id, "t": r.u.t(b.rt), "v": v, "lp": b2i(lp), "eo": "", "do": "", "w": raw("0"), "m": ""}
		r.note(e)
		var bz []byte
		x := r.do(func() (err error) { bz, err = encode(b.c, rv, lp); return })
		e["eo"] = x.o
		e["m"] = x.msg
		if x.o == "ok" {
			p := reflect.New(b.rt)
			y := r.do(func() error { return decode(b.c, bz, p.Interface(), lp) })
			e["do"] = y.o
			e["m"] = y.msg
			if y.o == "ok" {
				e["w"] = r.u.projD(p.Elem())
			}
		}
		r.stat(x.o)
		r.session(e)
	}
}

func driveEnc(r *run) {
	b := newBinCase(r)
	b.g.simple, b.nilTop = false, true
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.next()
		lp := b.g.oneIn(3)
		e := ev{"op": "enc", "c": b.c.id, "t": r.u.t(b.rt), "v": r.u.proj(rv), "lp": b2i(lp), "o": "", "b": raw("[]"), "m": ""}
		r.note(e)
		var bz []byte
		x := r.do(func() (err error) { bz, err = encode(b.c, rv, lp); return })
		e["o"], e["m"] = x.o, x.msg
		if x.o == "ok" {
			e["b"] = rawBytes(bz)
		}
		r.stat(x.o)
		r.session(e)
	}
}

//----------------------------------------
// Decoding

func driveDec(r *run) {
	b := newBinCase(r)
	b.g.big = 300
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.next()
		lp := b.g.oneIn(4)
		bz := b.g.message(b.c, rv, lp)
		r.decEvent(b, b.c, b.rt, bz, lp, "dec")
	}
}

func (r *run) decEvent(b *binCase, c *codec, rt reflect.Type, bz []byte, lp bool, op string) {
	p := reflect.New(rt)
	pop := false
	if b.g.oneIn(3) {
		pop = true
		b.g.budget = 20
		b.g.c = c
		b.g.fill(p.Elem(), 3)
	}
	e := ev{"op": op, "c": c.id, "t": r.u.t(rt), "b": rawBytes(bz), "lp": b2i(lp), "tv": r.u.proj(p.Elem()),
		"o": "", "v": raw("0"), "m": "", "al": 0}
	r.note(e)
	in := exact(bz)
	x := r.doAlloc(func() error { return decode(c, in, p.Interface(), lp) })
	e["o"], e["m"], e["al"] = x.o, x.msg, x.al
	if x.o == "ok" {
		e["v"] = r.u.proj(p.Elem())
	}
	r.stat(x.o)
	if pop {
		r.stat("populated")
	}
	r.session(e)
}

// message makes bytes to decode into a variable of the type of rv.
func (g *gen) message(c *codec, rv reflect.Value, lp bool) []byte {
	var bz []byte
	switch n := g.Intn(10); {
	case n < 6 || g.untouched:
		bz = g.sloppyTop(c, rv)
		if n == 9 {
			bz = g.mutate(bz)
		}
	default:
		bz = tryEncode(c, rv)
		if n == 9 {
			bz = g.mutate(bz)
		}
		if n == 8 && g.oneIn(2) {
			for i := 1 + g.Intn(3); i > 0; i-- {
				bz = g.mutate(bz)
			}
		}
		if n == 7 && g.oneIn(20) {
			bz = make([]byte, g.Intn(20))
			for i := range bz {
				bz[i] = byte(g.Intn(256)) >> uint(g.Intn(6))
			}
		}
	}
	if lp {
		m := uint64(len(bz))
		if g.oneIn(10) {
			m += uint64(g.Intn(5)) - 2
		}
		if g.oneIn(40) {
			m = 1 << uint(g.Intn(64))
		}
		bz = append(g.uvarint(m), bz...)
		if g.oneIn(10) {
			bz = g.mutate(bz)
		}
	}
	return bz
}

func (g *gen) mutate(bz []byte) []byte {
	out := append([]byte{}, bz...)
	if len(out) == 0 {
		return []byte{byte(g.Intn(256))}
	}
	i := g.Intn(len(out))
	switch g.Intn(8) {
	case 0:
		return out[:i]
	case 1:
		return append(out, byte(g.Intn(20)))
	case 2:
		out[i] ^= 1 << uint(g.Intn(8))
	case 3:
		out[i] = []byte{0, 1, 0x7f, 0x80, 0xff, 8, 10, 16}[g.Intn(8)]
	case 4:
		out = append(out[:i], append([]byte{byte(g.Intn(256))}, out[i:]...)...)
	case 5:
		out = append(out[:i], out[i+1:]...)
	case 6:
		j := g.Intn(len(out))
		if i > j {
			i, j = j, i
		}
		out = append(append(append([]byte{}, out[:j]...), out[i:j]...), out[j:]...)
	case 7:
		out[i]++
	}
	return out
}

// uvarint is sometimes not minimal.
func (g *gen) uvarint(x uint64) []byte {
	var b bytes.Buffer
	_ = amino.EncodeUvarint(&b, x)
	out := b.Bytes()
	if g.oneIn(30) && len(out) < 10 {
		for n := 1 + g.Intn(10-len(out)); n > 0; n-- {
			out[len(out)-1] |= 0x80
			out = append(out, 0)
		}
		if g.oneIn(10) {
			out[len(out)-1] |= 0x80
			out = append(out, byte(g.Intn(2)))
		}
	}
	return out
}
