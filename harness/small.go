package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"
)

// Small types with all their small values, which the specification
// enumerates (ModelValues.tla): the real code goes through the same.

func init() {
	drivers["smallenv"] = driveSmallEnv
	drivers["small-rt"] = func(r *run) { driveSmall(r, "value", smallRT) }
	drivers["small-enc"] = func(r *run) { driveSmall(r, "value", smallEnc) }
	drivers["small-encs"] = func(r *run) { driveSmall(r, "value", smallEncs) }
	drivers["small-walk"] = func(r *run) { driveSmall(r, "value", smallWalk) }
	drivers["small-evo"] = func(r *run) { driveSmall(r, "value", smallEvo) }
	drivers["small-copy"] = func(r *run) { driveSmall(r, "value", smallCopy) }
	drivers["small-jrt"] = func(r *run) { driveSmall(r, "value", smallJRT) }
	drivers["small-jenc"] = func(r *run) { driveSmall(r, "value", smallJEnc) }
	drivers["small-dec"] = func(r *run) { driveSmall(r, "bytes", smallDec("dec")) }
	drivers["small-total"] = func(r *run) { driveSmall(r, "bytes", smallDec("total")) }
	drivers["small-jdec"] = func(r *run) { driveSmall(r, "bytes", smallJDec) }
}

type smallCase struct {
	c    *codec
	rt   reflect.Type
	json bool // only JSON supports it

	to   reflect.Type // the same with other fields, or nil
	down bool         // fewer
}

var i1Type = reflect.TypeOf((*I1)(nil)).Elem()

// makers build a type from another one.
var makers = []func(reflect.Type) reflect.Type{
	func(t reflect.Type) reflect.Type { return reflect.SliceOf(t) },
	func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) },
	func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Interface {
			return nil
		}
		return reflect.PtrTo(t)
	},
	func(t reflect.Type) reflect.Type { return strct(t, ``, false) },
	func(t reflect.Type) reflect.Type { return strct(t, `amino:"write_empty%"`, true) },
	func(t reflect.Type) reflect.Type { return strct(t, `json:"a,omitempty"`, true) },
	func(t reflect.Type) reflect.Type {
		switch bottom(t).Kind() {
		case reflect.Int64, reflect.Uint64, reflect.Interface:
			return strct(t, `binary:"fixed64"`, true)
		case reflect.Int32, reflect.Uint32:
			return strct(t, `binary:"fixed32"`, true)
		}
		return nil
	},
	func(t reflect.Type) reflect.Type {
		if k := t.Kind(); (k != reflect.Slice && k != reflect.Array) || t.Elem().Kind() != reflect.Ptr {
			return nil
		}
		return strct(t, `amino:"empty_elements%"`, true)
	},
	func(t reflect.Type) reflect.Type { return reflect.MapOf(ty(""), t) },
	func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: ty("")},
			{Name: "B", Type: t, Tag: reflect.StructTag(`json:"-"`)}, {Name: "C", Type: ty(int16(0))}})
	},
	func(t reflect.Type) reflect.Type { return reflect.ArrayOf(0, t) },
}

func bottom(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
		t = t.Elem()
	}
	return t
}

// strct makes a struct with a field of the type, and perhaps others around.
func strct(t reflect.Type, tag string, more bool) reflect.Type {
	uns := ""
	if k := bottom(t).Kind(); k == reflect.Float32 || k == reflect.Float64 {
		uns = ",unsafe"
	}
	if strings.Contains(tag, "%") {
		tag = strings.Replace(tag, "%", uns, 1)
	} else if uns != "" {
		tag = strings.TrimSpace(tag + ` amino:"unsafe"`)
	}
	fs := []reflect.StructField{{Name: "A", Type: t, Tag: reflect.StructTag(tag)}}
	if more {
		fs = append(fs, reflect.StructField{Name: "B", Type: ty(int8(0))})
	}
	return reflect.StructOf(fs)
}

// nested is whether there is a list of lists, which binary does not support,
// or a map.
func nested(rt reflect.Type) bool {
	if rt == timeType {
		return false
	}
	switch rt.Kind() {
	case reflect.Map:
		return true
	case reflect.Slice, reflect.Array:
		if k := rt.Elem().Kind(); k == reflect.Slice || k == reflect.Array {
			e := rt
			for e.Kind() == reflect.Slice || e.Kind() == reflect.Array {
				e = e.Elem()
			}
			if e.Kind() != reflect.Uint8 {
				return true
			}
		}
		return nested(rt.Elem())
	case reflect.Ptr:
		return nested(rt.Elem())
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if nested(rt.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// smallCases makes the types and codecs: all those of up to one maker and a
// choice of n of those of two and of three.
func smallCases(u *univ, seed int64, n int, only string) []smallCase {
	g := rand.New(rand.NewSource(seed))
	leaves := append(append([]reflect.Type{}, scalarTypes[:12]...), timeType, ty(float32(0)), ty(float64(0)), ty([]byte{}), ty([2]byte{}),
		ty(A1{}), ty(A4("")), ty(A5(0)), ty(A11(0)), ty(A16{}), ty(RStr{}), ty(RInt(0)), ty(RBytes("")), ty(RSt{}), ty(RBool(false)),
		ty(RArr{}), ty(RSlice{}), i1Type)
	ifs := func(alw bool, prio ...string) []regIf { return []regIf{{rt: i1Type, alw: alw, prio: prio}} }
	x, y := collisions[0][0], collisions[0][1]
	codecs := []*codec{
		u.newCodec(ifs(false), []regCon{{ty(A1{}), "A1", false}, {ty(A4("")), "A4", true}, {ty(A16{}), "A16", false},
			{ty(RInt(0)), "RInt", false}, {ty(A3{}), "A3", true}, {ty([]byte(nil)), "bytes", false}}),
		u.newCodec(ifs(true), []regCon{{ty(A5(0)), "A5", true}, {ty(A1{}), zeroNames[0], true}, {ty(RStr{}), "RStr", false},
			{ty(A7(nil)), "A7", false}}),
		u.newCodec(ifs(false, x, y), []regCon{{ty(A1{}), x, false}, {ty(A5(0)), y, true}, {ty(A6{}), "A6", false}}),
		u.newCodec(ifs(false), nil),
	}
	level := [][]reflect.Type{leaves, nil, nil, nil}
	for d := 1; d < 4; d++ {
		for i, t := range level[d-1] {
			for j, m := range makers {
				// The odd ones only of leaves or of few.
				if d > 1 && j > 5 && (i+j)%3 > 0 || d > 2 && (i+j)%7 > 0 {
					continue
				}
				if x := m(t); x != nil {
					level[d] = append(level[d], x)
				}
			}
		}
	}
	has := map[string]func(reflect.Type) bool{
		"":      func(t reflect.Type) bool { return true },
		"iface": func(t reflect.Type) bool { return hasKind(t, reflect.Interface) },
		"repr":  func(t reflect.Type) bool { return inside(t, func(x reflect.Type) bool { return reprOf(x) != nil }) },
		"evo":   func(t reflect.Type) bool { return !nested(t) && t.Kind() != reflect.Array },
		"time":  func(t reflect.Type) bool { return inside(t, func(x reflect.Type) bool { return x == timeType }) },
	}[only]
	for d := range level {
		var l []reflect.Type
		for _, t := range level[d] {
			if has(t) {
				l = append(l, t)
			}
		}
		level[d] = l
	}
	pick := append(append([]reflect.Type{}, level[0]...), level[1]...)
	pick = append(pick, some(g, level[2], n)...)
	pick = append(pick, some(g, level[3], n/4)...)
	if only == "evo" {
		return evoCases(u, seed, codecs, pick)
	}
	var out []smallCase
	seen := map[reflect.Type]bool{}
	for i, t := range pick {
		if t.Kind() == reflect.Interface || seen[t] || hasPtrIface(t) {
			continue
		}
		seen[t] = true
		u.t(t)
		j := nested(t)
		if hasKind(t, reflect.Interface) {
			for _, c := range codecs[:3] {
				out = append(out, smallCase{c: c, rt: t, json: j})
			}
		} else {
			out = append(out, smallCase{c: codecs[i%4], rt: t, json: j})
		}
	}
	return out
}

// evoCases are structs of the types and those with more fields.
func evoCases(u *univ, seed int64, codecs []*codec, pick []reflect.Type) (out []smallCase) {
	g := newGen(seed, u)
	for i, t := range pick {
		if hasPtrIface(t) {
			continue
		}
		old := strct(t, ``, i%2 == 0)
		if t.Kind() == reflect.Struct && reprOf(t) == nil && t != timeType && t.NumField() > 0 {
			old = t
		}
		g.c = codecs[i%4]
		var new reflect.Type
		for k := 0; k < 20 && new == nil; k++ {
			// Not too large, and its interfaces registered.
			n, bad := 0, false
			x := g.grow(old, 2, true)
			inside(x, func(t reflect.Type) bool {
				n++
				bad = bad || t.Kind() == reflect.Interface && t != i1Type || t.PkgPath() != "" && t.Kind() == reflect.Struct && t != timeType
				return bad || n > 16
			})
			if n <= 16 && !bad {
				new = x
			}
		}
		if new == nil || new == old {
			continue
		}
		u.t(old)
		u.t(new)
		out = append(out, smallCase{g.c, old, false, new, false}, smallCase{g.c, new, false, old, true})
	}
	return
}

func some(g *rand.Rand, ts []reflect.Type, n int) (out []reflect.Type) {
	for i, j := range g.Perm(len(ts)) {
		if i < n {
			out = append(out, ts[j])
		}
	}
	return
}

// hasPtrIface is whether there is a pointer to an interface.
func hasPtrIface(rt reflect.Type) bool {
	return inside(rt, func(t reflect.Type) bool { return t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Interface })
}

// inside is whether something holds of the type or of one inside it.
func inside(rt reflect.Type, f func(reflect.Type) bool) bool {
	if f(rt) {
		return true
	}
	switch rt.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return inside(rt.Elem(), f)
	case reflect.Struct:
		if rt != timeType {
			for i := 0; i < rt.NumField(); i++ {
				if inside(rt.Field(i).Type, f) {
					return true
				}
			}
		}
	}
	return false
}

// The small domains.
func smallDomains() (map[string][]raw, []jfloat) {
	dom := map[string][]raw{}
	le8 := func(xs ...int64) (out []raw) {
		for _, x := range xs {
			var b bytes.Buffer
			wLE(&b, uint64(x), 8)
			out = append(out, b.Bytes())
		}
		return
	}
	dom["i8"] = le8(0, 1, -1, 127, -128, 63, -64)
	dom["i16"] = le8(0, -1, 300, 32767, -32768)
	dom["i32"] = le8(0, 1, -1, 1<<31-1, -1<<31, 8192)
	dom["i64"] = le8(0, -1, 1<<53+1, math.MaxInt64, math.MinInt64, 1<<35)
	dom["int"] = le8(0, 7, -1, math.MaxInt64, math.MinInt64, -1<<31)
	dom["u8"] = le8(0, 1, 128, 255, 127)
	dom["u16"] = le8(0, 65535, 256, 1)
	dom["u32"] = le8(0, 1, 1<<32-1, 1<<31)
	dom["u64"] = le8(0, 128, -1, 1<<63-1, math.MinInt64)
	dom["uint"] = le8(0, 1, -1, 1<<14, 1<<32)
	dom["bool"] = []raw{raw("0"), raw("1")}
	strs := []string{"", "a", "\x00", "\"\\<é\n", "ab"}
	for _, s := range strs {
		dom["str"] = append(dom["str"], rawBytes([]byte(s)))
	}
	for _, s := range []string{"", "\x00", "\xff\x00", "a"} {
		dom["bytes"] = append(dom["bytes"], rawBytes([]byte(s)))
	}
	for _, t := range []time.Time{time.Unix(0, 0), {}, time.Unix(-1, 1), time.Unix(1, 0), time.Unix(0, 999999999),
		time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Unix(1<<31, 120000000)} {
		var b bytes.Buffer
		b.WriteByte('[')
		wLE(&b, uint64(t.Unix()), 8)
		fmt.Fprintf(&b, ",%d]", t.Nanosecond())
		dom["time"] = append(dom["time"], b.Bytes())
	}
	fl := []jfloat{}
	for _, f := range []float64{0, 1, math.Copysign(0, -1), -2.5, 1e21, math.Inf(1), math.NaN()} {
		dom["f64"] = append(dom["f64"], f64of(f))
		dom["f32"] = append(dom["f32"], f32of(float32(f)))
		fl = floatTexts(reflect.ValueOf(f), fl)
		fl = floatTexts(reflect.ValueOf(float32(f)), fl)
	}
	return dom, fl
}

// driveSmallEnv writes the environment of ModelValues.
func driveSmallEnv(r *run) {
	cs := []map[string]int{}
	for _, c := range smallCases(r.u, r.seed, r.n, r.only) {
		m := map[string]int{"c": c.c.id, "t": r.u.t(c.rt), "j": b2i(c.json), "to": 0, "down": b2i(c.down)}
		if c.to != nil {
			m["to"] = r.u.t(c.to)
		}
		cs = append(cs, m)
	}
	dom, fl := smallDomains()
	var scalars, keys []raw
	for _, x := range []string{`null`, `1`, `"1"`, `true`, `-1`, `300`, `1.5`, `""`, `"AQ=="`, `"a\u0041"`, `"2009-02-13T23:31:30Z"`} {
		scalars = append(scalars, rawBytes([]byte(x)))
	}
	for _, x := range []string{`"A"`, `"B"`, `"a"`, `"k"`, `"C"`} {
		keys = append(keys, rawBytes([]byte(x)))
	}
	r.modelEnv(ev{"cases": cs, "dom": dom, "fl": fl, "scalars": scalars, "keys": keys,
		"tkeys": []raw{rawBytes([]byte(`"type"`)), rawBytes([]byte(`"value"`))}})
}

// driveSmall does something with every state of the model of one kind.
func driveSmall(r *run, kind string, f func(r *run, c smallCase, x []json.RawMessage)) {
	cases := smallCases(r.u, r.seed, r.n, r.only)
	r.modelCases(func(_ int, k string, x []json.RawMessage) {
		if k == kind {
			f(r, cases[unInt(x[0])-1], x[1:])
		}
	})
}

//----------------------------------------
// The other way: a Go value from an abstract one.

func unBytes(m json.RawMessage) []byte {
	var l []int
	if err := json.Unmarshal(m, &l); err != nil {
		panic(fmt.Sprint("harness: ", err))
	}
	out := make([]byte, len(l))
	for i, x := range l {
		out[i] = byte(x)
	}
	return out
}

func unList(m json.RawMessage) (l []json.RawMessage) {
	if err := json.Unmarshal(m, &l); err != nil {
		panic(fmt.Sprint("harness: ", err))
	}
	return
}

func (u *univ) unproj(m json.RawMessage, rv reflect.Value) {
	rt := rv.Type()
	if r := reprOf(rt); r != nil {
		p := reflect.New(r).Elem()
		u.unproj(m, p)
		out := rv.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{p})
		if !out[0].IsNil() {
			panic("harness: UnmarshalAmino fails")
		}
		return
	}
	if rt == timeType {
		l := unList(m)
		var ns int64
		_ = json.Unmarshal(l[1], &ns)
		rv.Set(reflect.ValueOf(time.Unix(int64(binary.LittleEndian.Uint64(unBytes(l[0]))), ns).UTC()))
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		rv.SetBool(string(m) == "1")
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		rv.SetInt(int64(binary.LittleEndian.Uint64(unBytes(m))))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		rv.SetUint(binary.LittleEndian.Uint64(unBytes(m)))
	case reflect.Float32:
		*rv.Addr().Interface().(*float32) = math.Float32frombits(binary.LittleEndian.Uint32(unBytes(m)))
	case reflect.Float64:
		rv.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(unBytes(m))))
	case reflect.String:
		rv.SetString(string(unBytes(m)))
	case reflect.Slice, reflect.Array:
		if rt.Kind() == reflect.Slice {
			l := unList(m)
			if len(l) == 0 {
				return
			}
			m = l[0]
		}
		var n int
		if rt.Elem().Kind() == reflect.Uint8 {
			bz := unBytes(m)
			if n = len(bz); rt.Kind() == reflect.Slice {
				rv.Set(reflect.MakeSlice(rt, n, n))
			}
			for i, x := range bz {
				rv.Index(i).SetUint(uint64(x))
			}
			return
		}
		l := unList(m)
		if n = len(l); rt.Kind() == reflect.Slice {
			rv.Set(reflect.MakeSlice(rt, n, n))
		}
		for i := range l {
			u.unproj(l[i], rv.Index(i))
		}
	case reflect.Ptr:
		if l := unList(m); len(l) == 1 {
			rv.Set(reflect.New(rt.Elem()))
			u.unproj(l[0], rv.Elem())
		}
	case reflect.Struct:
		for i, x := range unList(m) {
			if f := rt.Field(i); f.PkgPath == "" && f.Tag.Get("json") != "-" {
				u.unproj(x, rv.Field(i))
			}
		}
	case reflect.Interface:
		l := unList(m)
		if len(l) == 0 {
			return
		}
		var x struct {
			T, D int
			V    json.RawMessage
		}
		if err := json.Unmarshal(l[0], &x); err != nil {
			panic("harness: interface")
		}
		p := reflect.New(u.types[x.T-1])
		u.unproj(x.V, p.Elem())
		if x.D == 0 {
			p = p.Elem()
		}
		rv.Set(p)
	case reflect.Map:
		l := unList(m)
		if len(l) == 0 {
			return
		}
		rv.Set(reflect.MakeMap(rt))
		for _, kv := range unList(l[0]) {
			e := unList(kv)
			k, v := reflect.New(rt.Key()).Elem(), reflect.New(rt.Elem()).Elem()
			u.unproj(e[0], k)
			u.unproj(e[1], v)
			rv.SetMapIndex(k, v)
		}
	default:
		panic("harness: unproj " + rt.String())
	}
}

// small is the value that the model chose.
func (r *run) small(c smallCase, m json.RawMessage) reflect.Value {
	rv := reflect.New(c.rt).Elem()
	r.u.unproj(m, rv)
	if got := r.u.proj(rv); !bytes.Equal(got, m) && !smallRepr(c.rt) {
		panic(fmt.Sprintf("harness: %s is not %s but %s", c.rt, m, got))
	}
	return rv
}

// smallRepr is whether a representation may show in values: it may not tell
// nil from empty.
func smallRepr(rt reflect.Type) bool {
	return inside(rt, func(t reflect.Type) bool { return reprOf(t) != nil || t.Kind() == reflect.Interface })
}

func topNil(rv reflect.Value) bool {
	_, ok := deref(rv)
	return !ok
}

func smallRT(r *run, c smallCase, x []json.RawMessage) {
	rv := r.small(c, x[0])
	if topNil(rv) {
		return
	}
	for lp := 0; lp < 2; lp++ {
		e := ev{"op": "rt", "c": c.c.id, "t": r.u.t(c.rt), "v": r.u.proj(rv), "lp": lp, "eo": "", "do": "", "w": raw("0"), "m": ""}
		r.note(e)
		var bz []byte
		x := r.do(func() (err error) { bz, err = encode(c.c, rv, lp == 1); return })
		e["eo"], e["m"] = x.o, x.msg
		if x.o == "ok" {
			p := reflect.New(c.rt)
			y := r.do(func() error { return decode(c.c, bz, p.Interface(), lp == 1) })
			e["do"], e["m"] = y.o, y.msg
			if y.o == "ok" {
				e["w"] = r.u.projD(p.Elem())
			}
		}
		r.stat(x.o)
		r.session(e)
		if r.lines%3 != 0 {
			break
		}
	}
}

func smallEnc(r *run, c smallCase, x []json.RawMessage) {
	rv := r.small(c, x[0])
	e := ev{"op": "enc", "c": c.c.id, "t": r.u.t(c.rt), "v": r.u.proj(rv), "lp": b2i(r.lines%3 == 0), "o": "", "b": raw("[]"), "m": ""}
	r.note(e)
	var bz []byte
	y := r.do(func() (err error) { bz, err = encode(c.c, rv, e["lp"] == 1); return })
	e["o"], e["m"] = y.o, y.msg
	if y.o == "ok" {
		e["b"] = rawBytes(bz)
	}
	r.stat(y.o)
	r.session(e)
}

func smallWalk(r *run, c smallCase, x []json.RawMessage) {
	rv := r.small(c, x[0])
	if b := baseType(c.rt); b.Kind() != reflect.Struct || b == timeType || reprOf(b) != nil || topNil(rv) {
		return
	}
	e := ev{"op": "walk", "c": c.c.id, "t": r.u.t(c.rt), "v": r.u.proj(rv), "o": "", "b": raw("[]")}
	r.note(e)
	var bz []byte
	y := r.do(func() (err error) { bz, err = encode(c.c, rv, false); return })
	e["o"] = y.o
	if y.o == "ok" {
		e["b"] = rawBytes(bz)
	}
	r.stat(y.o)
	r.session(e)
}

func smallJRT(r *run, c smallCase, x []json.RawMessage) {
	rv := r.small(c, x[0])
	e := ev{"op": "jrt", "c": c.c.id, "t": r.u.t(c.rt), "v": r.u.proj(rv), "fl": floatTexts(rv, []jfloat{}), "eo": "", "do": "",
		"w": raw("0"), "m": "", "b": raw("[]")}
	r.note(e)
	var bz []byte
	y := r.do(func() (err error) { bz, err = c.c.marshalJSON(rv.Interface()); return })
	e["eo"], e["m"] = y.o, y.msg
	if y.o == "ok" {
		e["b"] = rawBytes(bz)
		p := reflect.New(c.rt)
		z := r.do(func() error { return c.c.cdc.UnmarshalJSON(bz, p.Interface()) })
		e["do"], e["m"] = z.o, z.msg
		if z.o == "ok" {
			e["w"] = r.u.projD(p.Elem())
		}
	}
	r.stat(y.o)
	r.session(e)
}

func smallJEnc(r *run, c smallCase, x []json.RawMessage) {
	rv := r.small(c, x[0])
	e := ev{"op": "jenc", "c": c.c.id, "t": r.u.t(c.rt), "v": r.u.proj(rv), "fl": floatTexts(rv, []jfloat{}), "o": "", "b": raw("[]"),
		"m": "", "outs": []raw{}, "ind": []raw{}}
	r.note(e)
	var bz []byte
	y := r.do(func() (err error) { bz, err = c.c.marshalJSON(rv.Interface()); return })
	e["o"], e["m"] = y.o, y.msg
	if y.o == "ok" {
		e["b"] = rawBytes(bz)
	}
	r.stat(y.o)
	r.session(e)
}

// target is what a decoded value is put over: nothing, or the last value that
// was decoded.
var lastValue = map[reflect.Type]raw{}

func (r *run) target(c smallCase) reflect.Value {
	p := reflect.New(c.rt)
	if v, ok := lastValue[c.rt]; ok && r.lines%3 == 0 {
		r.u.unproj(v, p.Elem())
		r.stat("populated")
	}
	return p
}

func smallDec(op string) func(*run, smallCase, []json.RawMessage) {
	return func(r *run, c smallCase, x []json.RawMessage) {
		lp := string(x[0]) == "1"
		p := r.target(c)
		bz := unBytes(x[1])
		e := ev{"op": op, "c": c.c.id, "t": r.u.t(c.rt), "b": rawBytes(bz), "lp": b2i(lp), "tv": r.u.proj(p.Elem()),
			"o": "", "v": raw("0"), "m": "", "al": 0}
		r.note(e)
		in := exact(bz)
		y := r.doAlloc(func() error { return decode(c.c, in, p.Interface(), lp) })
		e["o"], e["m"], e["al"] = y.o, y.msg, y.al
		if y.o == "ok" {
			e["v"] = r.u.proj(p.Elem())
			lastValue[c.rt] = e["v"].(raw)
		}
		r.stat(y.o)
		r.session(e)
	}
}

func smallEvo(r *run, c smallCase, x []json.RawMessage) {
	r.evo(c.c, c.rt, c.to, r.small(c, x[0]), c.down, r.lines%4 == 1)
}

func smallJDec(r *run, c smallCase, x []json.RawMessage) {
	p := r.target(c)
	bz := unBytes(x[1])
	e := ev{"op": "jdec", "c": c.c.id, "t": r.u.t(c.rt), "b": rawBytes(bz), "tv": r.u.proj(p.Elem()), "fl": numTexts(c.rt, bz),
		"o": "", "v": raw("0"), "m": "", "al": 0, "text": strings.ToValidUTF8(string(bz), "?")}
	r.note(e)
	in := exact(bz)
	y := r.doAlloc(func() error { return c.c.cdc.UnmarshalJSON(in, p.Interface()) })
	e["o"], e["m"], e["al"] = y.o, y.msg, y.al
	if y.o == "ok" {
		e["v"] = r.u.projD(p.Elem())
		lastValue[c.rt] = r.u.proj(p.Elem())
	}
	r.stat(y.o)
	r.session(e)
}

var smallTwins = map[*codec]*codec{}

func smallEncs(r *run, c smallCase, x []json.RawMessage) {
	rv := r.small(c, x[0])
	if topNil(rv) {
		return
	}
	g := newGen(r.seed+int64(r.lines), r.u)
	if smallTwins[c.c] == nil {
		smallTwins[c.c] = g.twin(r, c.c)
	}
	r.encs(g, c.c, smallTwins[c.c], rv)
}

func smallCopy(r *run, c smallCase, x []json.RawMessage) {
	r.u.all = false
	rv := r.small(c, x[0])
	r.u.all = true
	r.copy(newGen(r.seed+int64(r.lines), r.u), rv)
}
