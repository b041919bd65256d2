package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"
)

// gen makes random types and values.
type gen struct {
	untouched bool // messages are made without the codec
	*rand.Rand
	u *univ
	// per call options
	json   bool   // JSON: valid UTF-8, maps allowed
	c      *codec // where the interface values come from
	simple bool   // only values that can be encoded
	budget int    // elements left for one value
	big    int    // one in big strings is large
	mapsOK bool
	utc    bool // times are in UTC and have no monotonic reading
	names  map[reflect.Type][]string
	any    bool // interfaces hold values of any type
}

func newGen(seed int64, u *univ) *gen {
	return &gen{Rand: rand.New(rand.NewSource(seed)), u: u, simple: true, big: 60, names: map[reflect.Type][]string{}}
}

func (g *gen) oneIn(n int) bool { return g.Intn(n) == 0 }

//----------------------------------------
// Types

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(int(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(""),
	reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf([3]byte{}), timeType,
}

var reprTypes = []reflect.Type{
	reflect.TypeOf(RStr{}), reflect.TypeOf(RInt(0)), reflect.TypeOf(RBytes("")), reflect.TypeOf(RSt{}),
	reflect.TypeOf(RList(nil)), reflect.TypeOf(RArr{}), reflect.TypeOf(RSlice{}), reflect.TypeOf(RNest{}),
	reflect.TypeOf(RErr{}), reflect.TypeOf(RU(0)), reflect.TypeOf(RMix{}),
	ty(RBool(false)), ty(RErrI(0)), ty(RErrS{}), ty(RIfc{}), ty(RStrs{}), ty(RText{}),
}

var staticTypes = []reflect.Type{
	reflect.TypeOf(A1{}), reflect.TypeOf(A2{}), reflect.TypeOf(A3{}), reflect.TypeOf(A4("")),
	reflect.TypeOf(A5(0)), reflect.TypeOf(A6{}), reflect.TypeOf(A7(nil)), reflect.TypeOf(A8(nil)),
	reflect.TypeOf(A9(nil)), reflect.TypeOf(A10(false)), reflect.TypeOf(A11(0)), reflect.TypeOf(A12{}),
	reflect.TypeOf(A13(nil)), reflect.TypeOf(A14{}), reflect.TypeOf(A15(0)), reflect.TypeOf(A16{}),
	reflect.TypeOf(A17(nil)), reflect.TypeOf(A18(0)), reflect.TypeOf(A19{}), reflect.TypeOf(A20(nil)),
	reflect.TypeOf(A21{}), reflect.TypeOf(A22(0)), reflect.TypeOf(A23(nil)), reflect.TypeOf(A24{}),
	reflect.TypeOf(A25{}), reflect.TypeOf(Rec{}), reflect.TypeOf(Hidden{}), reflect.TypeOf(Tagged{}),
	reflect.TypeOf(RHold{}), ty(RMore{}),
}

// jsonTypes are those which only JSON supports.
var jsonTypes = []reflect.Type{reflect.TypeOf(JMap{}), reflect.TypeOf(JText{}), reflect.TypeOf(JHold{}),
	reflect.TypeOf(map[string]int32{}), reflect.TypeOf(map[MapKey]string{}), reflect.TypeOf(map[string]I1{}),
	reflect.TypeOf([][]int16{}), reflect.TypeOf([][2]string{}), reflect.TypeOf([]map[string][]byte{}), ty(RMap{}), ty(map[string]RErrI{}), ty(JOpt{})}

// optTypes have many places where something held before might show.
var optTypes = []reflect.Type{ty([]JOpt{}), ty([][]JOpt{}), ty(JOpts{}), ty([]*JOpt{}), ty([2]JOpt{}), ty([]JOpts{}), ty([][2]JOpt{}),
	ty(map[string]JOpt{}), ty(map[string][]JOpt{}), ty(JOpt{})}

var ifaceTypes = []reflect.Type{
	reflect.TypeOf((*I0)(nil)).Elem(), reflect.TypeOf((*I1)(nil)).Elem(), reflect.TypeOf((*I2)(nil)).Elem(),
	reflect.TypeOf((*I3)(nil)).Elem(), reflect.TypeOf((*IP)(nil)).Elem(),
}

func (g *gen) pick(ts []reflect.Type) reflect.Type { return ts[g.Intn(len(ts))] }

// heavy is whether most types have a representation.
var heavy bool

// rtype makes a random type to be used as a field or element.
func (g *gen) rtype(depth int) reflect.Type {
	if heavy && g.oneIn(2) {
		return g.pick(reprTypes)
	}
	n := g.Intn(100)
	if depth <= 0 && n >= 60 {
		n = g.Intn(60)
	}
	switch {
	case n < 36:
		return g.pick(scalarTypes)
	case n < 42:
		return g.pick(reprTypes)
	case n < 44 && g.mapsOK:
		return g.pick(jsonTypes)
	case n < 52:
		return g.pick(staticTypes)
	case n < 60:
		return g.pick(ifaceTypes)
	case n < 74:
		et := g.rtype(depth - 1)
		if !g.elemOK(et) {
			et = g.pick(scalarTypes[:12])
		}
		return reflect.SliceOf(et)
	case n < 81:
		et := g.rtype(depth - 1)
		if !g.elemOK(et) {
			et = g.pick(scalarTypes[:12])
		}
		return reflect.ArrayOf(g.Intn(4), et)
	case n < 90:
		et := g.rtype(depth - 1)
		if et.Kind() == reflect.Interface {
			et = g.pick(scalarTypes)
		}
		return reflect.PtrTo(et)
	case n < 93 && g.mapsOK:
		return reflect.MapOf(reflect.TypeOf(""), g.rtype(depth-1))
	default:
		return g.structType(depth-1, g.Intn(5))
	}
}

// elemOK: lists of lists are not supported unless they are of bytes, nor
// are lists of uint8 with a representation.
func (g *gen) elemOK(et reflect.Type) bool {
	if g.mapsOK {
		return true // JSON
	}
	if k := et.Kind(); k == reflect.Slice || k == reflect.Array {
		for k == reflect.Slice || k == reflect.Array {
			et = et.Elem()
			k = et.Kind()
		}
		return k == reflect.Uint8
	}
	if et.Kind() == reflect.Ptr {
		// pointer to list of lists etc. are fine
		return true
	}
	return true
}

func (g *gen) structType(depth, n int) reflect.Type {
	fields := make([]reflect.StructField, n)
	for i := range fields {
		fields[i] = g.field(fmt.Sprintf("F%d", i), depth)
	}
	return reflect.StructOf(fields)
}

func (g *gen) field(name string, depth int) reflect.StructField {
	f := reflect.StructField{Name: name, Type: g.rtype(depth)}
	if g.oneIn(16) {
		f.Type = reflect.TypeOf(float64(0))
		if g.oneIn(2) {
			f.Type = reflect.TypeOf(float32(0))
		}
	}
	var tags []string
	base := f.Type
	for base.Kind() == reflect.Ptr || base.Kind() == reflect.Slice || base.Kind() == reflect.Array {
		base = base.Elem()
	}
	switch base.Kind() {
	case reflect.Int64, reflect.Uint64, reflect.Int32, reflect.Uint32, reflect.Interface:
		switch g.Intn(6) {
		case 0:
			tags = append(tags, `binary:"fixed64"`)
		case 1:
			tags = append(tags, `binary:"fixed32"`)
		}
	}
	var am []string
	if base.Kind() == reflect.Float32 || base.Kind() == reflect.Float64 || g.oneIn(20) {
		am = append(am, "unsafe")
	}
	if g.oneIn(8) {
		am = append(am, "write_empty")
	}
	if g.oneIn(12) {
		am = append(am, "empty_elements")
	}
	if len(am) > 0 {
		tags = append(tags, `amino:"`+strings.Join(am, ",")+`"`)
	}
	switch g.Intn(14) {
	case 0:
		tags = append(tags, `json:"-"`)
	case 1:
		tags = append(tags, `json:",omitempty"`)
	case 2:
		tags = append(tags, fmt.Sprintf(`json:"%s_x"`, strings.ToLower(name)))
	case 3:
		tags = append(tags, fmt.Sprintf(`json:"%s,omitempty"`, strings.ToLower(name)))
	}
	f.Tag = reflect.StructTag(strings.Join(tags, " "))
	return f
}

// topType makes a random type for the top level.
func (g *gen) topType() reflect.Type {
	switch g.Intn(20) {
	case 0, 1, 2:
		if g.mapsOK && g.oneIn(3) {
			return g.pick(jsonTypes)
		}
		return g.pick(staticTypes)
	case 3, 4:
		return g.rtype(2)
	case 5:
		return g.pick(reprTypes)
	case 6:
		return g.structType(1, 14+g.Intn(8))
	default:
		return g.structType(2, 1+g.Intn(5))
	}
}

//----------------------------------------
// Values

var boundInts = []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 300, 8191, 8192, 16383, 16384,
	32767, 32768, -32768, -32769, 65535, 65536, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, -1 << 31,
	-1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42, 1<<49 - 1, 1 << 49, 1<<53 - 1, 1 << 53,
	1<<53 + 1, 1<<56 - 1, 1 << 56, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}

func (g *gen) int64() int64 {
	switch g.Intn(5) {
	case 0:
		return 0
	case 1:
		return int64(g.Intn(300)) - 100
	case 2:
		return int64(g.Uint64()) >> uint(g.Intn(64))
	default:
		return boundInts[g.Intn(len(boundInts))]
	}
}

var jsonChunks = []string{"<", ">", "&", "\"", "\\", "/", "\u2028", "\u2029", "\x00", "\x1f", "\n", "\t", "\b", "\f", "\r",
	"é", "日本", "\U0001F600", "\x7f", "\uFFFD", "a", "null", "{", "}", " ", "\uFEFF", "\u0080", "\U0010FFFF", "\u07ff", "\u0800"}

func (g *gen) str() string {
	n := 0
	switch g.Intn(8) {
	case 0:
		return ""
	case 1, 2, 3:
		n = 1 + g.Intn(4)
	case 4, 5:
		n = g.Intn(20)
	case 6:
		if g.oneIn(6) {
			n = []int{126, 127, 128, 129, 255, 256}[g.Intn(6)]
		} else {
			n = 5
		}
	case 7:
		if g.oneIn(g.big) {
			n = []int{16383, 16384, 16385}[g.Intn(3)]
		} else {
			n = 2
		}
	}
	b := make([]byte, 0, n)
	for len(b) < n {
		if g.oneIn(3) {
			b = append(b, jsonChunks[g.Intn(len(jsonChunks))]...)
		} else if g.json || g.oneIn(2) {
			b = append(b, byte(' '+g.Intn(95)))
		} else {
			b = append(b, byte(g.Intn(256)))
		}
	}
	if g.json && !utf8.Valid(b) {
		return strings.ToValidUTF8(string(b), "x")
	}
	return string(b)
}

var minSec, maxSec = int64(-62135596800), int64(253402300800)

func (g *gen) time() time.Time {
	var s, ns int64
	switch g.Intn(7) {
	case 0:
		return time.Time{}
	case 1:
		s = 0
	case 2:
		s = minSec + int64(g.Intn(3))
	case 3:
		s = maxSec - 1 - int64(g.Intn(3))
	case 4:
		s = g.Int63n(4e9) - 2e9
	case 5:
		s = minSec + g.Int63n(maxSec-minSec)
	case 6:
		s = boundInts[g.Intn(len(boundInts))] % maxSec / 2
		if s < minSec {
			s = minSec
		}
	}
	switch g.Intn(6) {
	case 0:
		ns = 0
	case 1:
		ns = 999999999
	case 2:
		ns = []int64{1, 10, 127, 128, 1000, 500000000, 100, 123000, 123456000, 999999990}[g.Intn(10)]
	case 3:
		ns = g.Int63n(1e9)
	}
	t := time.Unix(s, ns)
	if g.oneIn(2) || g.utc || (g.json && t.IsZero()) {
		return t.UTC()
	}
	if g.oneIn(2) {
		t = t.In(time.FixedZone("X", g.Intn(86400)-43200))
	}
	if g.oneIn(6) {
		t = time.Now() // has a monotonic reading
	}
	return t
}

var boundF64 = []uint64{0, 1, 1 << 63, math.Float64bits(1), math.Float64bits(-1.5), math.Float64bits(math.Pi), math.Float64bits(math.MaxFloat64),
	math.Float64bits(math.SmallestNonzeroFloat64), math.Float64bits(1e21), math.Float64bits(1e20), math.Float64bits(1e-6), math.Float64bits(1e-7),
	math.Float64bits(123456789), math.Float64bits(0.1), math.Float64bits(100)}

func (g *gen) float64() float64 {
	if g.oneIn(2) {
		return math.Float64frombits(boundF64[g.Intn(len(boundF64))])
	}
	for {
		f := math.Float64frombits(g.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
		if !g.json && f == f {
			return f
		}
	}
}

func (g *gen) float32() float32 {
	f := float32(g.float64())
	if g.json && math.IsInf(float64(f), 0) {
		return 1.25
	}
	return f
}

// value makes a random value of a type.
func (g *gen) value(rt reflect.Type, c *codec) reflect.Value {
	g.budget = 40
	g.c = c
	rv := reflect.New(rt).Elem()
	g.fill(rv, 4)
	return rv
}

func (g *gen) fill(rv reflect.Value, depth int) {
	rt := rv.Type()
	if r := reprOf(rt); r != nil {
		if rt == reflect.TypeOf(RErr{}) {
			n := []string{"", "a", "yes", "no", "never"}
			if g.simple {
				n = n[:3]
			}
			rv.Set(reflect.ValueOf(RErr{n[g.Intn(len(n))]}))
			return
		}
		if rt == ty(RErrI(0)) || rt == ty(RErrS{}) {
			x := g.int64()
			if g.simple && (int32(x) == 13 || int32(x) == 14) {
				x = 15
			}
			if !g.simple && g.oneIn(8) {
				x = int64(13 + g.Intn(2))
			}
			if rt == ty(RErrI(0)) {
				rv.SetInt(x)
			} else {
				rv.Set(reflect.ValueOf(RErrS{int32(x)}))
			}
			return
		}
		rrv := reflect.New(r).Elem()
		g.fill(rrv, depth)
		if rt == reflect.TypeOf(RU(0)) && rrv.Uint() == 77 && g.simple {
			rrv.SetUint(78)
		}
		if rt == reflect.TypeOf(RU(0)) {
			rv.SetUint(rrv.Uint())
			return
		}
		out := rv.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{rrv})
		if !out[0].IsNil() {
			panic(out[0].Interface())
		}
		return
	}
	if rt == ty(DCL{}) {
		rv.Set(reflect.ValueOf(DCL{g.int64(), 5}[:1+g.Intn(2)]))
		return
	}
	if rt == timeType {
		t := g.time()
		if !g.simple && g.oneIn(10) {
			t = time.Unix([]int64{minSec - 1, maxSec, minSec - 1e12, math.MaxInt64 / 2}[g.Intn(4)], 5)
		}
		rv.Set(reflect.ValueOf(t))
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		rv.SetBool(g.oneIn(2))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		x := g.int64()
		if rv.OverflowInt(x) {
			bits := uint(rt.Size() * 8)
			switch g.Intn(3) {
			case 0:
				x = 1<<(bits-1) - 1
			case 1:
				x = -1 << (bits - 1)
			default:
				x = x << (64 - bits) >> (64 - bits)
			}
		}
		rv.SetInt(x)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		x := uint64(g.int64())
		if rv.OverflowUint(x) {
			bits := uint(rt.Size() * 8)
			if g.oneIn(2) {
				x = 1<<bits - 1
			} else {
				x = x << (64 - bits) >> (64 - bits)
			}
		}
		rv.SetUint(x)
	case reflect.Float64:
		rv.SetFloat(g.float64())
	case reflect.Float32:
		rv.SetFloat(float64(g.float32()))
	case reflect.String:
		rv.SetString(g.str())
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Uint8 {
			switch g.Intn(5) {
			case 0:
				return
			case 1:
				rv.Set(reflect.MakeSlice(rt, 0, g.Intn(3)))
			default:
				s := g.str()
				v := reflect.MakeSlice(rt, len(s), len(s)+g.Intn(3))
				for i := range s {
					v.Index(i).SetUint(uint64(s[i]))
				}
				rv.Set(v)
			}
			return
		}
		n := g.Intn(4)
		if n == 0 && g.oneIn(2) {
			return // nil
		}
		if depth <= 0 || g.budget <= 0 {
			n = 0
		}
		if rt.Elem().Size() <= 16 && g.oneIn(40) {
			n = 60 + g.Intn(20)
		}
		v := reflect.MakeSlice(rt, n, n+g.Intn(2))
		for i := 0; i < n; i++ {
			g.budget--
			g.fill(v.Index(i), depth-1)
		}
		rv.Set(v)
	case reflect.Array:
		for i := 0; i < rt.Len(); i++ {
			if rt.Elem().Kind() == reflect.Uint8 {
				rv.Index(i).SetUint(uint64(g.Intn(3) * g.Intn(128)))
			} else {
				g.fill(rv.Index(i), depth-1)
			}
		}
	case reflect.Ptr:
		if depth <= 0 || g.budget <= 0 || g.oneIn(4) {
			return
		}
		g.budget--
		p := reflect.New(rt.Elem())
		if !g.oneIn(4) { // else to a zero value
			g.fill(p.Elem(), depth-1)
		}
		rv.Set(p)
	case reflect.Struct:
		if g.oneIn(12) {
			return
		}
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath != "" || (f.Tag.Get("json") == "-" && !g.oneIn(3)) {
				continue
			}
			if f.Tag.Get("json") == "-" {
				if k := f.Type.Kind(); k == reflect.Interface || k == reflect.Map || (g.mapsOK && depth < 4) {
					continue
				}
			}
			if g.oneIn(5) {
				continue
			}
			g.fill(rv.Field(i), depth-1)
			if g.simple && strings.Contains(f.Tag.Get("amino"), "empty_elements") {
				g.noNilElems(rv.Field(i))
			}
		}
	case reflect.Interface:
		if g.any {
			g.fillAny(rv, depth)
			return
		}
		g.fillIface(rv, depth)
	case reflect.Map:
		if g.oneIn(4) {
			return
		}
		m := reflect.MakeMap(rt)
		n := g.Intn(4)
		if depth <= 0 || g.budget <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			g.budget--
			k := reflect.New(rt.Key()).Elem()
			if k.Kind() == reflect.String {
				k.SetString(g.str())
			} else {
				g.fill(k, 1)
			}
			v := reflect.New(rt.Elem()).Elem()
			g.fill(v, depth-1)
			m.SetMapIndex(k, v)
		}
		rv.Set(m)
	case reflect.Func, reflect.Chan:
	default:
		panic("cannot fill " + rt.String())
	}
}

// noNilElems replaces nil pointers to structs, which empty_elements refuses.
func (g *gen) noNilElems(rv reflect.Value) {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return
		}
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
		return
	}
	for i := 0; i < rv.Len(); i++ {
		e := rv.Index(i)
		for e.Kind() == reflect.Ptr {
			if e.IsNil() {
				e.Set(reflect.New(e.Type().Elem()))
			}
			e = e.Elem()
		}
		if k := e.Kind(); k == reflect.Slice || k == reflect.Array {
			g.noNilElems(e)
		}
	}
}

func (g *gen) fillIface(rv reflect.Value, depth int) {
	if g.c == nil || depth <= 0 || g.budget <= 0 || g.oneIn(5) {
		return
	}
	g.budget--
	it := rv.Type()
	var cand []regCon
	for _, r := range g.c.cons {
		rt := r.rt
		if r.ptr {
			rt = reflect.PtrTo(rt)
		}
		if rt.Implements(it) {
			cand = append(cand, r)
		}
	}
	if len(cand) == 0 {
		return
	}
	r := cand[g.Intn(len(cand))]
	p := reflect.New(r.rt)
	g.fill(p.Elem(), depth-1)
	ptr := r.ptr
	if g.oneIn(6) {
		ptr = !ptr // the other form is encoded in the same way
	}
	v := p.Elem()
	if ptr {
		v = p
		if !g.simple && g.oneIn(12) {
			v = reflect.Zero(p.Type())
		}
	}
	if !v.Type().Implements(it) {
		v = p
	}
	if !g.simple && g.oneIn(15) {
		// not registered
		if x := reflect.ValueOf(Unreg{}); x.Type().Implements(it) {
			v = x
		}
	}
	if it.NumMethod() == 0 && g.oneIn(25) {
		pp := reflect.New(p.Type())
		pp.Elem().Set(p)
		v = pp
	}
	rv.Set(v)
}

// Unreg is never registered.
type Unreg struct{ X int64 }

func (Unreg) M1() {}
func (Unreg) M2() {}
func (Unreg) M3() {}
func (Unreg) P()  {}

func (g *gen) word() string {
	b := make([]byte, 1+g.Intn(10))
	for i := range b {
		b[i] = byte('a' + g.Intn(26))
	}
	return string(b)
}
