package main

import (
	"bytes"
	"encoding/json"
	"io"
	"math"
	"reflect"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	drivers["prim"] = drivePrim
	drivers["primenv"] = func(r *run) { r.u.newCodec(nil, nil); r.modelEnv(nil) }
	drivers["small-prim"] = driveSmallPrim
}

func newCodec() *amino.Codec { return amino.NewCodec() }

// prim is a pair of a primitive encoder and decoder.
type prim struct {
	name string
	rt   reflect.Type
	enc  func(w io.Writer, v reflect.Value) error
	dec  func(bz []byte) (interface{}, int, error)
	size func(v reflect.Value) int
}

func ty(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var prims = []prim{
	{"i8", ty(int8(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeInt8(w, int8(v.Int())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeInt8(b)) }, nil},
	{"i16", ty(int16(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeInt16(w, int16(v.Int())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeInt16(b)) }, nil},
	{"i32", ty(int32(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeInt32(w, int32(v.Int())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeInt32(b)) }, nil},
	{"i64", ty(int64(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeInt64(w, v.Int()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeInt64(b)) }, nil},
	{"varint", ty(int64(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeVarint(w, v.Int()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeVarint(b)) },
		func(v reflect.Value) int { return amino.VarintSize(v.Int()) }},
	{"byte", ty(uint8(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeByte(w, byte(v.Uint())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeByte(b)) }, nil},
	{"u8", ty(uint8(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeUint8(w, uint8(v.Uint())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeUint8(b)) }, nil},
	{"u16", ty(uint16(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeUint16(w, uint16(v.Uint())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeUint16(b)) }, nil},
	{"u32", ty(uint32(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeUint32(w, uint32(v.Uint())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeUint32(b)) }, nil},
	{"u64", ty(uint64(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeUint64(w, v.Uint()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeUint64(b)) }, nil},
	{"uvarint", ty(uint64(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeUvarint(w, v.Uint()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeUvarint(b)) },
		func(v reflect.Value) int { return amino.UvarintSize(v.Uint()) }},
	{"bool", ty(false), func(w io.Writer, v reflect.Value) error { return amino.EncodeBool(w, v.Bool()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeBool(b)) }, nil},
	{"f32", ty(float32(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeFloat32(w, float32(v.Float())) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeFloat32(b)) }, nil},
	{"f64", ty(float64(0)), func(w io.Writer, v reflect.Value) error { return amino.EncodeFloat64(w, v.Float()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeFloat64(b)) }, nil},
	{"time", timeType, func(w io.Writer, v reflect.Value) error { return amino.EncodeTime(w, v.Interface().(time.Time)) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeTime(b)) }, nil},
	{"bytes", ty([]byte{}), func(w io.Writer, v reflect.Value) error { return amino.EncodeByteSlice(w, v.Bytes()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeByteSlice(b)) },
		func(v reflect.Value) int { return amino.ByteSliceSize(v.Bytes()) }},
	{"str", ty(""), func(w io.Writer, v reflect.Value) error { return amino.EncodeString(w, v.String()) },
		func(b []byte) (interface{}, int, error) { return trip(amino.DecodeString(b)) }, nil},
}

func trip[T any](v T, n int, err error) (interface{}, int, error) { return v, n, err }

// primVal projects a primitive value: bytes as a byte string.
func (u *univ) primVal(v interface{}) raw {
	switch x := v.(type) {
	case []byte:
		return rawBytes(x)
	case float32:
		return rawBytes(le(uint64(math.Float32bits(x)), 4))
	}
	return u.projD(reflect.ValueOf(v))
}

func drivePrim(r *run) {
	g := newGen(r.seed, r.u)
	r.u.newCodec(nil, nil)
	g.simple = false
	for i := 0; i < r.n && !r.overtime(); i++ {
		p := prims[g.Intn(len(prims))]
		rv := reflect.New(p.rt).Elem()
		g.fill(rv, 1)
		junk := make([]byte, g.Intn(14))
		for j := range junk {
			junk[j] = []byte{0, 1, 8, 16, 0x80, 0xff, byte(g.Intn(256))}[g.Intn(7)]
		}
		if p.name == "time" {
			junk = nil
		}
		bz := r.primEvent(p, rv, junk)

		// Arbitrary bytes
		in := append([]byte{}, bz...)
		switch g.Intn(5) {
		case 0:
			in = g.mutate(in)
		case 1:
			in = g.uvarint(uint64(g.int64()))
			in = append(in, junk...)
		case 2:
			in = make([]byte, g.Intn(13))
			for j := range in {
				in[j] = byte(0x80 | g.Intn(128))
			}
			if len(in) > 0 && g.oneIn(2) {
				in[len(in)-1] = byte(g.Intn(4))
			}
			if len(in) > 9 && g.oneIn(2) {
				in[9] = byte(g.Intn(4))
			}
		case 3:
			s := &sloppy{g: g, rate: 4}
			in = s.val(rv, opts{num: 1}, true)
			if g.oneIn(3) {
				in = append(in, junk...)
			}
		case 4:
			in = append(in, junk...)
			if g.oneIn(2) && len(in) > 0 {
				in = in[:g.Intn(len(in))]
			}
		}
		r.primDecEvent(p, in)
	}
}

// primEvent encodes a value, and decodes it with something behind it.
func (r *run) primEvent(p prim, rv reflect.Value, junk []byte) []byte {
	var buf bytes.Buffer
	e := ev{"op": "prim", "p": p.name, "v": r.u.primProj(rv), "eo": "", "b": raw("[]"), "sz": -1, "j": rawBytes(junk),
		"do": "", "w": raw("0"), "n": 0}
	r.note(e)
	x := r.do(func() error { return p.enc(&buf, rv) })
	e["eo"] = x.o
	if x.o == "ok" {
		e["b"] = rawBytes(buf.Bytes())
		if p.size != nil {
			e["sz"] = p.size(rv)
		}
		in := exact(append(append([]byte{}, buf.Bytes()...), junk...))
		var w interface{}
		var n int
		y := r.do(func() (err error) { w, n, err = p.dec(in); return })
		e["do"], e["n"] = y.o, n
		if y.o == "ok" {
			e["w"] = r.u.primVal(w)
		}
	}
	r.stat(p.name)
	r.session(e)
	return buf.Bytes()
}

// primDecEvent decodes.
func (r *run) primDecEvent(p prim, in []byte) {
	d := ev{"op": "primd", "p": p.name, "b": rawBytes(in), "o": "", "w": raw("0"), "n": 0}
	r.note(d)
	var w interface{}
	var n int
	y := r.do(func() (err error) { w, n, err = p.dec(exact(in)); return })
	d["o"], d["n"] = y.o, n
	if y.o == "ok" {
		d["w"] = r.u.primVal(w)
	}
	r.stat("decode " + y.o)
	r.session(d)
}

// driveSmallPrim goes through what ModelPrim.tla enumerates.
func driveSmallPrim(r *run) {
	r.u.newCodec(nil, nil)
	byName := map[string]prim{}
	for _, p := range prims {
		byName[p.name] = p
	}
	r.modelCases(func(i int, kind string, x []json.RawMessage) {
		var name string
		must(json.Unmarshal(x[0], &name))
		p := byName[name]
		if kind == "primd" {
			r.primDecEvent(p, unBytes(x[1]))
			return
		}
		rv := reflect.New(p.rt).Elem()
		if p.rt == ty([]byte{}) {
			rv.SetBytes(unBytes(x[1]))
		} else {
			r.u.unproj(x[1], rv)
		}
		var junk []byte
		if name != "time" {
			junk = [][]byte{nil, {0}, {0x80, 1}, {0xff}}[i%4]
		}
		r.primEvent(p, rv, junk)
	})
}

func (u *univ) primProj(rv reflect.Value) raw {
	if rv.Type() == ty([]byte{}) {
		return rawBytes(rv.Bytes())
	}
	return u.proj(rv)
}
