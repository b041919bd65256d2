package main

import (
	"fmt"
	"reflect"
	"sort"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() { drivers["copy"] = driveCopy }

// Types with their own way of being copied.  Their first field tells that it
// was used.

// DCV: on values.
type DCV struct {
	C int64
	L []int64
}

func (d DCV) DeepCopy() DCV { return DCV{d.C + 1, cloneInts(d.L)} }

// DCP: on pointers.
type DCP struct {
	C int64
	P *string
}

func (d *DCP) DeepCopy() *DCP {
	out := &DCP{C: d.C + 1}
	if d.P != nil {
		s := *d.P
		out.P = &s
	}
	return out
}

// DCPV: on pointers, giving a value.
type DCPV struct {
	C int64
	L []int64
}

func (d *DCPV) DeepCopy() DCPV { return DCPV{d.C + 1, cloneInts(d.L)} }

// DCL: a list on its own.
type DCL []int64

func (d DCL) DeepCopy() DCL {
	out := cloneInts(d)
	if len(out) > 0 {
		out[0]++
	}
	return out
}

// DCI: on the interface.
type DCI interface{ DeepCopy() DCI }
type DCImpl struct {
	C int64
	L []int64
}

func (d *DCImpl) DeepCopy() DCI { return &DCImpl{d.C + 1, cloneInts(d.L)} }

// DCAm: through its representation, on pointers.
type DCAm struct {
	C int64
	L []int64
}

func (d *DCAm) MarshalAmino() ([]int64, error)    { return cloneInts(d.L), nil }
func (d *DCAm) UnmarshalAmino(l []int64) error    { d.C, d.L = 100, cloneInts(l); return nil }
func (d *DCBoth) MarshalAmino() ([]int64, error)  { return d.L, nil }
func (d *DCBoth) UnmarshalAmino(l []int64) error  { d.C, d.L = 100, l; return nil }
func (d *DCMis) MarshalAmino() ([]int64, error)   { return d.L, nil }
func (d *DCMis) UnmarshalAmino(l [][]int64) error { d.C = 100; return nil }

// DCBoth has both.
type DCBoth struct {
	C int64
	L []int64
}

func (d DCBoth) DeepCopy() DCBoth { return DCBoth{d.C + 1, cloneInts(d.L)} }

// DCMis and DCBad have methods that do not count.
type DCMis struct {
	C int64
	L []int64
}
type DCBad struct {
	C int64
	L []int64
}

func (d DCBad) DeepCopy(int) DCBad { return DCBad{} }

type DCBad2 struct {
	C int64
	L []int64
}

func (d DCBad2) DeepCopy() (DCBad2, error) { return DCBad2{}, nil }

type DCBad3 struct {
	C int64
	L []int64
}

func (d DCBad3) DeepCopy() string { return "" }

func cloneInts(l []int64) []int64 {
	if l == nil {
		return nil
	}
	return append([]int64{}, l...)
}

var dcOf = map[reflect.Type]string{
	ty(DCV{}): "inc", ty(DCP{}): "inc", ty(DCPV{}): "inc", ty(DCBoth{}): "inc", ty(DCAm{}): "am", ty(DCL{}): "list",
	reflect.TypeOf((*DCI)(nil)).Elem(): "inc",
}

type (
	cInts  []int
	cBools [3]bool
	cMap   map[string][]int
	cFloat float32
	cAny   []interface{}
	cNode  struct {
		V    interface{}
		L, R *cNode
		Kids map[string]*cNode
		All  []cNode
	}
	cFunc struct {
		F func()
		C chan int
		A []*cInts
	}
	cEmb struct {
		A2
		*A1
		X [2]map[string]*int
	}
	cTimes struct {
		T  time.Time
		P  *time.Time
		L  []time.Time
		LP []*time.Time
		M  map[string]time.Time
	}
)

var copyTypes = []reflect.Type{
	ty(DCV{}), ty(&DCV{}), ty(&DCP{}), ty(&DCPV{}), ty(DCL{}), ty(&DCL{}), ty(DCAm{}), ty(&DCAm{}), ty(DCBoth{}), ty(&DCBoth{}), ty(DCMis{}), ty(&DCMis{}),
	ty(DCBad{}), ty(&DCBad2{}), ty(DCBad3{}), ty(cInts{}), ty(cBools{}), ty(cMap{}), ty(cFloat(0)), ty(cAny{}), ty(cNode{}), ty(&cNode{}),
	ty(cFunc{}), ty(cEmb{}), ty(cTimes{}), ty(float64(0)), ty([]float32{}), reflect.TypeOf((*DCI)(nil)).Elem(), ty([]DCI{}), ty(map[string]DCI{}),
	reflect.TypeOf((*interface{})(nil)).Elem(), ty(map[int64]string{}), ty(map[int8][]byte{}), ty(map[string]interface{}{}), ty([]interface{}{}),
	ty([]*[]*int64{}), ty([][]string{}), ty([2][]*A2{}), ty(map[string]DCV{}), ty(map[string]*DCP{}), ty([]*DCP{}), ty([]DCV{}), ty([]DCAm{}),
	ty(struct{ A, B *[]byte }{}), ty([]RStr{}), ty(map[string]RSt{}), ty(&RSlice{}), ty(JMap{}), ty(map[bool]*bool{}), ty([][2]*int8{}),
	ty([][]byte{}), ty([3][]int16{}), ty(map[string][2][]int{}), ty([]map[string]int{}), ty([]uint64{}), ty([4]*int{}),
}

func (g *gen) copyType() reflect.Type {
	g.mapsOK = true
	defer func() { g.mapsOK = false }()
	switch g.Intn(6) {
	case 0:
		return g.rtype(3)
	case 1, 2, 3:
		return g.pick(copyTypes)
	case 4:
		n := g.Intn(5)
		fs := make([]reflect.StructField, n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g.copyType()}
		}
		return reflect.StructOf(fs)
	default:
		et := g.copyType()
		switch g.Intn(4) {
		case 0:
			return reflect.SliceOf(et)
		case 1:
			return reflect.PtrTo(et)
		case 2:
			return reflect.MapOf(ty(""), et)
		default:
			return reflect.ArrayOf(g.Intn(3), et)
		}
	}
}

// fillAny puts a value of any type into an interface.
func (g *gen) fillAny(rv reflect.Value, depth int) {
	if depth <= 0 || g.budget <= 0 || g.oneIn(5) {
		return
	}
	g.budget--
	it := rv.Type()
	if it == reflect.TypeOf((*DCI)(nil)).Elem() {
		p := &DCImpl{}
		g.fill(reflect.ValueOf(p).Elem(), depth-1)
		rv.Set(reflect.ValueOf(p))
		return
	}
	for n := 0; n < 40; n++ {
		rt := g.copyType()
		if n > 4 {
			rt = g.pick(staticTypes)
			if g.oneIn(2) {
				rt = reflect.PtrTo(rt)
			}
		}
		if rt.Kind() == reflect.Interface || !rt.Implements(it) {
			continue
		}
		v := reflect.New(rt).Elem()
		g.fill(v, depth-1)
		rv.Set(v)
		return
	}
}

// mem lists the memory that can be reached and changed.
func mem(rv reflect.Value, out [][2]uintptr) [][2]uintptr {
	rt := rv.Type()
	if rt == timeType {
		return out
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if !rv.IsNil() {
			if n := rt.Elem().Size(); n > 0 {
				out = append(out, [2]uintptr{rv.Pointer(), rv.Pointer() + n})
			}
			out = mem(rv.Elem(), out)
		}
	case reflect.Interface:
		if !rv.IsNil() {
			out = mem(rv.Elem(), out)
		}
	case reflect.Slice:
		if n := uintptr(rv.Cap()) * rt.Elem().Size(); n > 0 {
			out = append(out, [2]uintptr{rv.Pointer(), rv.Pointer() + n})
		}
		fallthrough
	case reflect.Array:
		if flat(rt.Elem()) {
			return out
		}
		for i := 0; i < rv.Len(); i++ {
			out = mem(rv.Index(i), out)
		}
	case reflect.Map:
		if !rv.IsNil() {
			out = append(out, [2]uintptr{rv.Pointer(), rv.Pointer() + 1})
			for _, k := range rv.MapKeys() {
				out = mem(rv.MapIndex(k), out)
			}
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				out = mem(rv.Field(i), out)
			}
		}
	}
	return out
}

func flat(rt reflect.Type) bool {
	switch rt.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Array, reflect.Map, reflect.Struct:
		return false
	}
	return true
}

// ranked replaces addresses by small numbers in the same order.
func ranked(lists ...[][2]uintptr) [][][2]int {
	var all []uintptr
	for _, l := range lists {
		for _, x := range l {
			all = append(all, x[0], x[1])
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	rank := map[uintptr]int{}
	for _, a := range all {
		if _, ok := rank[a]; !ok {
			rank[a] = len(rank)
		}
	}
	out := make([][][2]int, len(lists))
	for i, l := range lists {
		out[i] = [][2]int{}
		seen := map[[2]int]bool{}
		for _, x := range l {
			y := [2]int{rank[x[0]], rank[x[1]]}
			if !seen[y] {
				seen[y] = true
				out[i] = append(out[i], y)
			}
		}
	}
	return out
}

// clocks are the locations and monotonic readings of the times in a value.
func clocks(rv reflect.Value) string {
	s := ""
	walk2(rv, func(x reflect.Value) {
		if x.Type() == timeType {
			t := x.Interface().(time.Time)
			s += t.String() + ";"
		}
	})
	return s
}

// walk2 is walk with the entries of maps in the order of their keys.
func walk2(rv reflect.Value, f func(reflect.Value)) {
	rt := rv.Type()
	f(rv)
	if rt == timeType || reprOf(rt) != nil {
		return
	}
	switch rt.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			walk2(rv.Elem(), f)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			walk2(rv.Index(i), f)
		}
	case reflect.Map:
		for _, k := range sortedKeys(rv) {
			walk2(rv.MapIndex(k), f)
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				walk2(rv.Field(i), f)
			}
		}
	}
}

// spots lists ways to change something that can be reached from a variable.
func (g *gen) spots(rv reflect.Value, out []func()) []func() {
	rt := rv.Type()
	if rv.CanSet() && rt.Kind() != reflect.Func && rt.Kind() != reflect.Chan && !hasBad(rt) {
		out = append(out, func() {
			g.budget = 6
			v := reflect.New(rt).Elem()
			g.fill(v, 3)
			rv.Set(v)
		})
	}
	if rt == timeType || reprOf(rt) != nil {
		return out
	}
	switch rt.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			out = g.spots(rv.Elem(), out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len() && i < 8; i++ {
			out = g.spots(rv.Index(i), out)
		}
	case reflect.Map:
		if rv.IsNil() {
			return out
		}
		out = append(out, func() {
			k := reflect.New(rt.Key()).Elem()
			g.fill(k, 1)
			v := reflect.New(rt.Elem()).Elem()
			if ks := rv.MapKeys(); len(ks) > 0 && g.oneIn(2) {
				k = ks[0]
				if g.oneIn(3) {
					v = reflect.Value{}
				}
			}
			if v.IsValid() {
				g.budget = 6
				g.fill(v, 3)
			}
			rv.SetMapIndex(k, v)
		})
		for _, k := range rv.MapKeys() {
			out = g.spots(rv.MapIndex(k), out)
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if f := rt.Field(i); f.PkgPath == "" && (g.u.all || f.Tag.Get("json") != "-") {
				out = g.spots(rv.Field(i), out)
			}
		}
	}
	return out
}

// hasBad is whether a value of the type cannot be filled.
func hasBad(rt reflect.Type) bool { return hasKind(rt, reflect.Func, reflect.Chan) }

// share makes two pointers in a value equal.
func (g *gen) share(rv reflect.Value) {
	ptrs := map[reflect.Type][]reflect.Value{}
	var order []reflect.Type
	walk2(rv, func(x reflect.Value) {
		if k := x.Kind(); (k == reflect.Ptr || k == reflect.Slice || k == reflect.Map) && x.CanSet() {
			if ptrs[x.Type()] == nil {
				order = append(order, x.Type())
			}
			ptrs[x.Type()] = append(ptrs[x.Type()], x)
		}
	})
	for _, t := range order {
		if l := ptrs[t]; len(l) > 1 && !hasKind(t, reflect.Interface) && flatBehind(t) {
			l[0].Set(l[1])
		}
	}
}

// flatBehind: so that there is no cycle.
func flatBehind(t reflect.Type) bool { return flat(t.Elem()) }

func driveCopy(r *run) {
	g := newGen(r.seed, r.u)
	g.big = 1 << 30
	g.any, r.u.all = true, true
	r.u.newCodec(nil, nil)
	for i := 0; i < r.n && !r.overtime(); i++ {
		rt := g.copyType()
		for rt == reflect.TypeOf((*DCI)(nil)).Elem() {
			rt = g.copyType() // its static type would be lost
		}
		r.u.t(rt)
		g.budget = 30
		src := reflect.New(rt).Elem()
		g.fill(src, 5)
		if g.oneIn(4) {
			g.share(src)
		}
		r.copy(g, src)
	}
}

// copy copies a variable and writes over it and the copy.
func (r *run) copy(g *gen, src reflect.Value) {
	rt := src.Type()
	e := ev{"op": "copy", "t": r.u.t(rt), "v": r.u.proj(src), "v2": raw("0"), "w": raw("0"), "o": "", "same": 1,
		"tz": clocks(src), "tzc": "", "ms": [][2]int{}, "mc": [][2]int{}, "m": ""}
	r.note(e)
	var out interface{}
	x := r.do(func() error { out = amino.DeepCopy(src.Interface()); return nil })
	e["o"], e["m"] = x.o, x.msg
	if x.o != "ok" {
		r.session(e)
		return
	}
	e["v2"] = r.u.proj(src)
	cpy := reflect.New(rt).Elem()
	if src.Kind() == reflect.Interface {
		e["same"] = b2i(reflect.TypeOf(out) == reflect.TypeOf(src.Interface()))
	} else {
		e["same"] = b2i(reflect.TypeOf(out) == rt)
	}
	if e["same"] == 0 {
		r.session(e)
		return
	}
	if out != nil {
		cpy.Set(reflect.ValueOf(out))
	}
	e["w"] = r.u.proj(cpy)
	e["tzc"] = clocks(cpy)
	// NOTE: src is the variable that was copied from.
	m := ranked(mem(src, nil), mem(cpy, nil))
	e["ms"], e["mc"] = m[0], m[1]
	evs := []interface{}{e}
	for n := g.Intn(4); n > 0; n-- {
		side := g.Intn(2)
		v := []reflect.Value{src, cpy}[side]
		if l := g.spots(v, nil); len(l) > 1 {
			l[1+g.Intn(len(l)-1)]()
		} else {
			break
		}
		evs = append(evs, ev{"op": "mut", "side": side, "v": r.u.proj(src), "w": r.u.proj(cpy)})
	}
	r.stat(kindOf(rt))
	r.session(evs...)
}
