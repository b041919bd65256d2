package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() { drivers["time"] = driveTime }

// timeHolders are the places where a time may be.
var timeHolders = []reflect.Type{
	timeType, reflect.PtrTo(timeType), ty([]time.Time{}), ty([]*time.Time{}), ty([2]time.Time{}), ty(struct{ T time.Time }{}),
	ty(struct{ T *time.Time }{}), ty(struct {
		A int32
		T time.Time `amino:"write_empty"`
		B string
	}{}), ty(struct{ L []time.Time }{}), ty(struct{ L []*time.Time }{}), ty(struct{ L [1]time.Time }{}), ty(A3{}), ty(A20{}),
	ty(struct {
		S struct{ T time.Time }
		P *struct{ T, U time.Time }
	}{}), ty(struct{ L []struct{ T time.Time } }{}), ty(struct{ T **time.Time }{}), ty(struct{ I I1 }{}),
	ty(struct {
		T time.Time  `json:"t,omitempty"`
		P *time.Time `json:",omitempty"`
	}{}),
	ty([]*A3{}),
}

// jsonTimeHolders are those which only JSON supports.
var jsonTimeHolders = []reflect.Type{ty(map[string]time.Time{}), ty([][]time.Time{}), ty(struct{ M map[string]*time.Time }{})}

// instant makes seconds since 1970 (of any size) and nanoseconds.
func (g *gen) instant() (int64, int64) {
	var s int64
	switch g.Intn(12) {
	case 0:
		s = int64(g.Intn(5)) - 2
	case 1, 2:
		s = []int64{minSec, maxSec}[g.Intn(2)] + int64(g.Intn(9)) - 4
	case 3:
		s = -62167219200 + int64(g.Intn(5)) - 2 // year 0
	case 4:
		s = boundInts[g.Intn(len(boundInts))]
	case 5:
		s = int64(g.Uint64()) >> uint(g.Intn(64))
	case 6:
		s = g.Int63n(4e9) - 2e9
	case 7: // turns of years and leap days
		y := []int{1, 2, 4, 100, 400, 1900, 1970, 2000, 2024, 2100, 9996, 9999, 1 + g.Intn(9999)}[g.Intn(13)]
		m := []time.Month{1, 2, 3, 12}[g.Intn(4)]
		s = time.Date(y, m, []int{1, 28, 29, 31}[g.Intn(4)], 0, 0, 0, 0, time.UTC).Unix() + int64(g.Intn(3)) - 1
	default:
		s = minSec + g.Int63n(maxSec-minSec)
	}
	var ns int64
	switch g.Intn(5) {
	case 0:
	case 1:
		ns = []int64{1, 999999999, 999999998, 127, 128, 16383, 16384, 1 << 21, 1 << 28, 1<<29 - 1}[g.Intn(10)]
	case 2:
		ns = int64(math.Pow10(g.Intn(9)))
	case 3:
		ns = int64(math.Pow10(g.Intn(9))) * int64(g.Intn(10))
	default:
		ns = g.Int63n(1e9)
	}
	return s, ns
}

// others are the same instant in other locations and with a monotonic
// reading.
func (g *gen) others(s, ns int64) []time.Time {
	u := time.Unix(s, ns)
	out := []time.Time{u.UTC(), u, u.In(time.FixedZone("", g.Intn(172800)-86400)), u.In(time.FixedZone("Z", 0))}
	now := time.Now()
	if m := now.Add(u.Sub(now)); m.Equal(u) {
		out = append(out, m, m.In(time.FixedZone("M", g.Intn(86400)-43200)))
	}
	return out
}

// putTimes replaces the times in a value.
func (g *gen) putTimes(rv reflect.Value, ts []time.Time) {
	rt := rv.Type()
	if rt == timeType {
		if g.oneIn(5) {
			rv.Set(reflect.ValueOf(g.time()))
		} else {
			rv.Set(reflect.ValueOf(ts[g.Intn(len(ts))]))
		}
		return
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			g.putTimes(rv.Elem(), ts)
		} else if baseType(rt) == timeType && !g.oneIn(4) {
			rv.Set(reflect.New(rt.Elem()))
			g.putTimes(rv.Elem(), ts)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			g.putTimes(rv.Index(i), ts)
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				g.putTimes(rv.Field(i), ts)
			}
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			v := reflect.New(rt.Elem()).Elem()
			v.Set(rv.MapIndex(k))
			g.putTimes(v, ts)
			rv.SetMapIndex(k, v)
		}
	}
}

func driveTime(r *run) {
	b := newBinCase(r)
	b.g.big = 1 << 30
	g := b.g
	for i := 0; i < r.n && !r.overtime(); i++ {
		if i%200 == 0 {
			b.n = 0
			b.next()
		}
		c := b.c
		g.c, g.budget = c, 40
		s, ns := g.instant()
		ts := g.others(s, ns)
		var evs []interface{}

		// The primitives.
		e := ev{"op": "time", "v": r.u.proj(reflect.ValueOf(ts[0])), "o": "", "b": raw("[]"), "outs": []raw{}, "do": "", "w": raw("0"), "n": 0}
		r.note(e)
		var outs []raw
		for j, t := range ts {
			var buf bytes.Buffer
			x := r.do(func() error { return amino.EncodeTime(&buf, t) })
			if j == 0 {
				e["o"] = x.o
				if x.o == "ok" {
					e["b"] = rawBytes(buf.Bytes())
					var w time.Time
					var n int
					y := r.do(func() (err error) { w, n, err = amino.DecodeTime(exact(buf.Bytes())); return })
					e["do"], e["n"] = y.o, n
					if y.o == "ok" {
						e["w"] = r.u.projD(reflect.ValueOf(w))
					}
				}
				continue
			}
			if x.o != "ok" {
				outs = append(outs, raw("[256]"))
			} else {
				outs = append(outs, rawBytes(buf.Bytes()))
			}
		}
		e["outs"] = outs
		r.stat("encode " + e["o"].(string))
		evs = append(evs, e)

		// Inside something.
		rt := g.pick(timeHolders)
		json := g.oneIn(2)
		if json && g.oneIn(6) {
			rt = g.pick(jsonTimeHolders)
		}
		g.utc = json // not nested zero times in other locations
		g.json, g.mapsOK = json, json
		rv := g.value(rt, c)
		g.putTimes(rv, ts)
		g.utc, g.json, g.mapsOK = false, false, false
		if json {
			e := ev{"op": "jrt", "c": c.id, "t": r.u.t(rt), "v": r.u.proj(rv), "fl": floatTexts(rv, []jfloat{}), "eo": "", "do": "", "w": raw("0"), "m": "", "b": raw("[]")}
			r.note(e)
			var bz []byte
			x := r.do(func() (err error) { bz, err = c.cdc.MarshalJSON(rv.Interface()); return })
			e["eo"], e["m"] = x.o, x.msg
			if x.o == "ok" {
				e["b"] = rawBytes(bz)
				p := reflect.New(rt)
				y := r.do(func() error { return c.cdc.UnmarshalJSON(exact(bz), p.Interface()) })
				e["do"], e["m"] = y.o, y.msg
				if y.o == "ok" {
					e["w"] = r.u.projD(p.Elem())
				}
			}
			evs = append(evs, e, ev{"op": "jenc", "c": c.id, "t": r.u.t(rt), "v": r.u.proj(rv), "fl": floatTexts(rv, []jfloat{}), "o": x.o,
				"b": rawBytes(bz), "m": "", "outs": []raw{}, "ind": []raw{}})
		} else if d := nonNil(rv); d {
			e := ev{"op": "rt", "c": c.id, "t": r.u.t(rt), "v": r.u.proj(rv), "lp": 0, "eo": "", "do": "", "w": raw("0"), "m": ""}
			r.note(e)
			var bz []byte
			x := r.do(func() (err error) { bz, err = encode(c, rv, false); return })
			e["eo"], e["m"] = x.o, x.msg
			if x.o == "ok" {
				p := reflect.New(rt)
				y := r.do(func() error { return decode(c, exact(bz), p.Interface(), false) })
				e["do"], e["m"] = y.o, y.msg
				if y.o == "ok" {
					e["w"] = r.u.projD(p.Elem())
				}
			}
			evs = append(evs, e, ev{"op": "enc", "c": c.id, "t": r.u.t(rt), "v": r.u.proj(rv), "lp": 0, "o": x.o, "b": rawBytes(bz), "m": ""})
		}

		// Written by someone else.
		sl := &sloppy{g: g, c: c, rate: 1 << 30}
		var body []byte
		if s != 0 || g.oneIn(2) {
			body = append(sl.key(1, 0), g.uvarint(uint64(s))...)
		}
		n := uint64(ns)
		switch g.Intn(4) {
		case 0:
			n = []uint64{1000000000, 999999999, 1 << 31, 1 << 32, 1<<32 + 5, 1 << 63, math.MaxUint64, 1<<64 - 1e9, 1 << 30}[g.Intn(9)]
		case 1:
			n = uint64(g.int64())
		}
		if n != 0 || g.oneIn(2) {
			body = append(body, append(sl.key(2, 0), g.uvarint(n)...)...)
		}
		if g.oneIn(8) {
			body = append(body, sl.unknown(1+g.Intn(4))...)
		}
		if g.oneIn(8) {
			body = g.mutate(body)
		}
		if g.oneIn(3) {
			d := ev{"op": "primd", "p": "time", "b": rawBytes(body), "o": "", "w": raw("0"), "n": 0}
			r.note(d)
			var w time.Time
			var n int
			y := r.do(func() (err error) { w, n, err = amino.DecodeTime(exact(body)); return })
			d["o"], d["n"] = y.o, n
			if y.o == "ok" {
				d["w"] = r.u.projD(reflect.ValueOf(w))
			}
			evs = append(evs, d)
		} else {
			rt := []reflect.Type{timeType, ty(struct{ T time.Time }{}), ty(struct{ L []*time.Time }{}), ty([]time.Time{}), ty(struct{ T *time.Time }{}),
				ty([1]time.Time{})}[g.Intn(6)]
			bz := body
			if rt != timeType {
				bz = append(append([]byte{10}, g.uvarint(uint64(len(body)))...), body...)
			}
			p := reflect.New(rt)
			d := ev{"op": "dec", "c": c.id, "t": r.u.t(rt), "b": rawBytes(bz), "lp": 0, "tv": r.u.proj(p.Elem()), "o": "", "v": raw("0"), "m": "", "al": 0}
			r.note(d)
			x := r.do(func() error { return decode(c, exact(bz), p.Interface(), false) })
			d["o"], d["m"] = x.o, x.msg
			if x.o == "ok" {
				d["v"] = r.u.projD(p.Elem())
			}
			r.stat("decode " + x.o)
			evs = append(evs, d)
		}

		// Texts.
		if g.oneIn(2) {
			txt := g.timeText(s, ns)
			p := reflect.New(timeType)
			d := ev{"op": "jdec", "c": c.id, "t": r.u.t(timeType), "b": rawBytes(txt), "tv": r.u.proj(p.Elem()), "fl": []jfloat{},
				"o": "", "v": raw("0"), "m": "", "al": 0, "text": fmt.Sprintf("%q", txt)}
			r.note(d)
			x := r.do(func() error { return c.cdc.UnmarshalJSON(exact(txt), p.Interface()) })
			d["o"], d["m"] = x.o, x.msg
			if x.o == "ok" {
				d["v"] = r.u.projD(p.Elem())
			}
			r.stat("text " + x.o)
			evs = append(evs, d)
		}
		r.session(evs...)
	}
}

// nonNil is whether no pointer at the top is nil.
func nonNil(rv reflect.Value) bool {
	_, ok := deref(rv)
	return ok
}

// timeText is the text of a time, or nearly that.
func (g *gen) timeText(s, ns int64) []byte {
	if s < -62167219200 || s >= maxSec {
		s = minSec + g.Int63n(maxSec-minSec)
	}
	t := time.Unix(s, ns).UTC()
	txt := []byte(t.Format(`"2006-01-02T15:04:05.999999999Z"`))
	switch g.Intn(8) {
	case 0:
		txt = []byte(t.Format([]string{`"2006-01-02T15:04:05.000000000Z"`, `"2006-01-02T15:04:05.000Z"`, `"2006-01-02T15:04:05+00:00"`,
			`"2006-01-02T15:04:05-07:00"`, `"2006-01-02T15:04:05"`, `"2006-01-02 15:04:05Z"`, `"2006-01-02"`, `"20060102T150405Z"`}[g.Intn(8)]))
	case 1:
		txt = []byte(t.In(time.FixedZone("", (g.Intn(48)-24)*1800)).Format(`"2006-01-02T15:04:05.999999999Z07:00"`))
	case 2:
		txt = []byte(fmt.Sprintf(`"%04d-%02d-%02dT%02d:%02d:%02dZ"`, t.Year(), g.Intn(14), g.Intn(33), g.Intn(26), g.Intn(62), g.Intn(62)))
	case 3:
		txt = []byte(fmt.Sprintf(`"%04d-02-29T23:59:59.%0*dZ"`, t.Year(), 1+g.Intn(14), g.Intn(1e6)))
	case 4:
		txt = (&jtext{gen: g}).mutateText(txt)
	}
	return txt
}
