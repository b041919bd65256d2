package main

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"time"
)

func init() {
	drivers["encs"] = driveEncs
	drivers["total"] = driveTotal
	drivers["evo"] = driveEvo
}

//----------------------------------------
// C03

// reach adds the types that a type refers to.
func reach(rt reflect.Type, m map[reflect.Type]bool) {
	if m[rt] {
		return
	}
	m[rt] = true
	if r := reprOf(rt); r != nil {
		reach(r, m)
	}
	switch rt.Kind() {
	case reflect.Slice, reflect.Array, reflect.Ptr, reflect.Map:
		reach(rt.Elem(), m)
	case reflect.Struct:
		if rt != timeType {
			for j := 0; j < rt.NumField(); j++ {
				reach(rt.Field(j).Type, m)
			}
		}
	}
}

// early uses an interface with one of its implementers while some of the
// registrations are still to be made.
func (g *gen) early(r *run, t *codec, i, j int) {
	if i == 0 || j == 0 {
		return
	}
	it, k := t.ifs[g.Intn(i)], t.cons[g.Intn(j)]
	if g.oneIn(2) {
		k = t.cons[j-1]
	}
	v := reflect.New(k.rt)
	if k.rt.Implements(it.rt) && g.oneIn(2) {
		v = v.Elem()
	}
	if !v.Type().Implements(it.rt) {
		return
	}
	m := map[reflect.Type]bool{}
	reach(it.rt, m)
	reach(k.rt, m)
	for _, o := range t.ifs[i:] {
		if m[o.rt] {
			return
		}
	}
	for _, o := range t.cons[j:] {
		if m[o.rt] {
			return
		}
	}
	p := reflect.New(it.rt)
	p.Elem().Set(v)
	var bz []byte
	r.do(func() (err error) { bz, err = t.cdc.MarshalBinaryBare(p.Interface()); return })
	if g.oneIn(2) {
		r.do(func() (err error) { return t.cdc.UnmarshalBinaryBare(bz, reflect.New(it.rt).Interface()) })
	}
}

// twin makes a codec with the same registrations, made in another order and
// among other calls.
func (g *gen) twin(r *run, c *codec) *codec {
	t := &codec{cdc: newCodec()}
	for _, i := range g.Perm(len(c.ifs)) {
		t.ifs = append(t.ifs, c.ifs[i])
	}
	for _, i := range g.Perm(len(c.cons)) {
		t.cons = append(t.cons, c.cons[i])
	}
	i, j := 0, 0
	for i < len(t.ifs) || j < len(t.cons) {
		if j == len(t.cons) || (i < len(t.ifs) && g.oneIn(4)) {
			t.ifs[i].register(t.cdc)
			i++
		} else {
			t.cons[j].register(t.cdc)
			j++
		}
		if g.oneIn(2) {
			g.early(r, t, i, j)
		}
	}
	g.u.add(t)
	return t
}

// clone makes a value that has the same content but other pointers,
// capacities, locations of times, nil instead of empty lists, and other
// things in the fields that do not count.
func (g *gen) clone(rv reflect.Value) reflect.Value {
	out := reflect.New(rv.Type()).Elem()
	g.cloneInto(out, rv)
	return out
}

func (g *gen) cloneInto(dst, src reflect.Value) {
	rt := src.Type()
	if reprOf(rt) != nil {
		dst.Set(src)
		return
	}
	if rt == timeType {
		t := src.Interface().(time.Time)
		switch g.Intn(3) {
		case 0:
			t = t.UTC()
		case 1:
			t = t.Round(0).In(time.FixedZone("Y", g.Intn(80000)-40000))
		}
		dst.Set(reflect.ValueOf(t))
		return
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		p := reflect.New(rt.Elem())
		g.cloneInto(p.Elem(), src.Elem())
		dst.Set(p)
	case reflect.Slice:
		n := src.Len()
		if n == 0 {
			if g.oneIn(2) {
				dst.Set(reflect.MakeSlice(rt, 0, g.Intn(4)))
			}
			return
		}
		s := reflect.MakeSlice(rt, n+g.Intn(3), n+5)
		if g.oneIn(2) && rt.Elem().Kind() == reflect.Uint8 {
			for i := 0; i < s.Len(); i++ {
				s.Index(i).SetUint(uint64(g.Intn(256)))
			}
		}
		for i := 0; i < n; i++ {
			g.cloneInto(s.Index(i), src.Index(i))
		}
		dst.Set(s.Slice(0, n))
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			g.cloneInto(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if f.PkgPath != "" {
				continue
			}
			if f.Tag.Get("json") == "-" {
				if k := f.Type.Kind(); k != reflect.Interface && k != reflect.Map && g.oneIn(2) {
					g.fill(dst.Field(i), 1)
				}
				continue
			}
			g.cloneInto(dst.Field(i), src.Field(i))
		}
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		x := src.Elem()
		y := g.clone(x)
		// The pointer and value forms are encoded in the same way.
		if y.Kind() == reflect.Ptr && !y.IsNil() && y.Elem().Type().Implements(rt) && y.Elem().Kind() != reflect.Ptr && g.oneIn(3) {
			y = y.Elem()
		} else if y.Kind() != reflect.Ptr && g.oneIn(3) {
			p := reflect.New(y.Type())
			p.Elem().Set(y)
			y = p
		}
		dst.Set(y)
	default:
		dst.Set(src)
	}
}

type outcome struct {
	N string `json:"n"` // what was done
	C int    `json:"c"` // codec
	L int    `json:"l"` // length-prefixed?
	O string `json:"o"`
	B raw    `json:"b"`
}

// history does something else on the codec.
func (g *gen) history(r *run, c *codec) {
	switch g.Intn(5) {
	case 0:
		rv := g.value(g.topNoIface(), c)
		r.do(func() error { _, err := c.cdc.MarshalBinaryBare(rv.Interface()); return err })
	case 1:
		p := reflect.New(g.topNoIface())
		bz := make([]byte, g.Intn(30))
		g.Read(bz)
		r.do(func() error { return c.cdc.UnmarshalBinaryBare(bz, p.Interface()) })
	case 2:
		r.do(func() error { return c.cdc.PrintTypes(io.Discard) })
	case 3:
		r.do(func() error { _, err := c.cdc.MarshalBinaryBare(struct{ F func() }{}); return err })
	case 4:
		if len(c.cons) > 0 {
			k := c.cons[g.Intn(len(c.cons))]
			r.do(func() error { k.register(c.cdc); return nil })
		}
	}
}

func (g *gen) topNoIface() reflect.Type {
	for {
		rt := g.topType()
		if baseType(rt).Kind() != reflect.Interface {
			return rt
		}
	}
}

func driveEncs(r *run) {
	b := newBinCase(r)
	g := b.g
	var c, t *codec
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.next()
		if b.c != c {
			c, t = b.c, g.twin(r, b.c)
			if g.oneIn(2) {
				t.cdc.Seal()
			}
		}
		r.encs(g, c, t, rv)
	}
}

// encs encodes a value in many ways, on two codecs.
func (r *run) encs(g *gen, c, t *codec, rv reflect.Value) {
	p := reflect.New(rv.Type())
	p.Elem().Set(rv)
	pp := reflect.New(p.Type())
	pp.Elem().Set(p)
	vals := []reflect.Value{rv, p, pp, g.clone(rv)}
	e := ev{"op": "encs", "t": r.u.t(rv.Type()), "v": r.u.proj(rv), "w": raw("0"), "re": raw("[]"), "do": "", "ro": ""}
	r.note(e)
	var outs []outcome
	var bare []byte
	add := func(name string, c *codec, lp int, f func() ([]byte, error)) {
		var bz []byte
		x := r.do(func() (err error) { bz, err = f(); return })
		o := outcome{N: name, C: c.id, L: lp, O: x.o, B: raw("[]")}
		if x.o == "ok" {
			o.B = rawBytes(bz)
			if lp == 0 {
				bare = bz
			}
		}
		outs = append(outs, o)
	}
	k := 6
	for j := 0; j < k; j++ {
		cc := []*codec{c, t}[g.Intn(2)]
		v := vals[g.Intn(len(vals))]
		if j == 0 {
			cc, v = c, rv
		}
		n := g.Intn(6)
		if j == 0 {
			n = 0
		}
		if j == 1 {
			n = 1
		}
		switch n {
		case 0:
			add("bare", cc, 0, func() ([]byte, error) { return cc.cdc.MarshalBinaryBare(v.Interface()) })
		case 1:
			add("lp", cc, 1, func() ([]byte, error) { return cc.cdc.MarshalBinaryLengthPrefixed(v.Interface()) })
		case 2:
			add("must", cc, 0, func() ([]byte, error) { return cc.cdc.MustMarshalBinaryBare(v.Interface()), nil })
		case 3:
			add("mustlp", cc, 1, func() ([]byte, error) { return cc.cdc.MustMarshalBinaryLengthPrefixed(v.Interface()), nil })
		case 4:
			add("writer", cc, 1, func() ([]byte, error) {
				var buf bytes.Buffer
				n, err := cc.cdc.MarshalBinaryLengthPrefixedWriter(&buf, v.Interface())
				if err == nil && n != int64(buf.Len()) {
					return nil, fmt.Errorf("wrong count")
				}
				return buf.Bytes(), err
			})
		case 5:
			g.history(r, cc)
			k++
		}
	}
	e["outs"] = outs
	// Encode what was decoded.
	if outs[0].O == "ok" {
		w := reflect.New(rv.Type())
		x := r.do(func() error { return t.cdc.UnmarshalBinaryBare(bare, w.Interface()) })
		e["do"] = x.o
		if x.o == "ok" {
			var bz []byte
			e["w"] = r.u.proj(w.Elem())
			x = r.do(func() (err error) { bz, err = c.cdc.MarshalBinaryBare(w.Interface()); return })
			e["ro"] = x.o
			e["re"] = rawBytes(bz)
		}
	}
	r.stat(outs[0].O)
	r.session(e)
}

//----------------------------------------
// C04

func driveTotal(r *run) {
	b := newBinCase(r)
	b.g.big = 40
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.next()
		lp := b.g.oneIn(4)
		bz := b.g.message(b.c, rv, lp)
		for b.g.oneIn(3) {
			bz = b.g.mutate(bz)
		}
		if b.g.oneIn(12) && len(bz) > 2 {
			// claim a great length somewhere
			j := b.g.Intn(len(bz))
			bz = append(append(append([]byte{}, bz[:j]...), b.g.uvarint(uint64(1)<<uint(20+b.g.Intn(44))-uint64(b.g.Intn(3)))...), bz[j:]...)
		}
		rt := b.rt
		if b.g.oneIn(8) {
			rt = b.g.pick(ifaceTypes)
			if b.g.oneIn(2) && baseType(b.rt).Kind() != reflect.Interface {
				rt = reflect.PtrTo(b.rt)
			}
		}
		b.totalEvent(r, rt, bz, lp)
	}
}

func (b *binCase) totalEvent(r *run, rt reflect.Type, bz []byte, lp bool) {
	g := b.g
	p := reflect.New(rt)
	if g.oneIn(3) {
		g.budget, g.c = 20, b.c
		g.fill(p.Elem(), 3)
	}
	for baseType(rt).Kind() != reflect.Interface && g.oneIn(6) {
		q := reflect.New(p.Type())
		q.Elem().Set(p)
		p = q
	}
	mode := "bare"
	if lp {
		mode = "lp"
		if g.oneIn(2) {
			mode = "reader"
		}
	}
	c := b.c
	e := ev{"op": "total", "m": "", "b": rawBytes(bz), "c": c.id, "t": r.u.t(rt), "mode": mode, "o": "", "al": 0}
	r.note(e)
	in := exact(bz)
	x := r.doAlloc(func() error {
		switch mode {
		case "bare":
			return c.cdc.UnmarshalBinaryBare(in, p.Interface())
		case "lp":
			return c.cdc.UnmarshalBinaryLengthPrefixed(in, p.Interface())
		default:
			_, err := c.cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(in), p.Interface(), int64(g.Intn(3)*1000))
			return err
		}
	})
	e["o"], e["m"], e["al"] = x.o, x.msg, x.al
	r.stat(x.o)
	r.session(e)
}

//----------------------------------------
// C07

// grow makes a type that has additional fields at the end, also in nested
// structs.
func (g *gen) grow(rt reflect.Type, depth int, top bool) reflect.Type {
	if rt.Name() != "" {
		return rt
	}
	switch rt.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(g.grow(rt.Elem(), depth, false))
	case reflect.Slice:
		return reflect.SliceOf(g.grow(rt.Elem(), depth, false))
	case reflect.Array:
		return reflect.ArrayOf(rt.Len(), g.grow(rt.Elem(), depth, false))
	case reflect.Struct:
		var fs []reflect.StructField
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			f.Type = g.grow(f.Type, depth-1, false)
			fs = append(fs, reflect.StructField{Name: f.Name, Type: f.Type, Tag: f.Tag})
		}
		n := g.Intn(3)
		if top {
			n++
		}
		for i := 0; i < n; i++ {
			fs = append(fs, g.field(fmt.Sprintf("N%d", i), depth-1))
		}
		return reflect.StructOf(fs)
	}
	return rt
}

func driveEvo(r *run) {
	b := newBinCase(r)
	g := b.g
	var old, new reflect.Type
	for i := 0; i < r.n && !r.overtime(); i++ {
		b.next()
		if i%4 == 0 {
			old = g.structType(2, g.Intn(5))
			if g.oneIn(4) {
				// a struct somewhere inside
				f := reflect.StructField{Name: "S", Type: g.structType(1, 1+g.Intn(3))}
				switch g.Intn(4) {
				case 0:
					f.Type = reflect.SliceOf(f.Type)
				case 1:
					f.Type = reflect.PtrTo(f.Type)
				case 2:
					f.Type = reflect.SliceOf(reflect.PtrTo(f.Type))
				}
				old = reflect.StructOf([]reflect.StructField{f, g.field("T", 1)})
			}
			new = g.grow(old, 2, true)
		}
		down := g.oneIn(2)
		from, to := old, new
		if down {
			from, to = new, old
		}
		rv := g.value(from, b.c)
		r.evo(b.c, from, to, rv, down, g.oneIn(4))
	}
}

// evo encodes a value and decodes it as a type with more or fewer fields.
func (r *run) evo(c *codec, from, to reflect.Type, rv reflect.Value, down, lp bool) {
	e := ev{"op": "evo", "c": c.id, "t": r.u.t(from), "tt": r.u.t(to), "down": b2i(down), "v": r.u.proj(rv), "eo": "", "do": "",
		"w": raw("0"), "b0": raw("[]"), "b1": raw("[]"), "m": ""}
	r.note(e)
	var bz []byte
	x := r.do(func() (err error) { bz, err = encode(c, rv, lp); return })
	e["eo"], e["m"] = x.o, x.msg
	if x.o == "ok" {
		p := reflect.New(to)
		y := r.do(func() error { return decode(c, bz, p.Interface(), lp) })
		e["do"], e["m"] = y.o, y.msg
		if y.o == "ok" {
			e["w"] = r.u.projD(p.Elem())
		}
		if !down {
			// The value in the new type with defaults in the added fields.
			q := reflect.New(to).Elem()
			if widen(q, rv) {
				e["b0"] = rawBytes(bz)
				var bz1 []byte
				z := r.do(func() (err error) { bz1, err = encode(c, q, lp); return })
				if z.o == "ok" {
					e["b1"] = rawBytes(bz1)
				} else {
					e["b1"] = raw("[999]")
				}
			}
		}
	}
	r.stat(x.o)
	r.stat(fmt.Sprint("down ", down))
	r.session(e)
}

// widen copies a value into the grown type.  It reports whether the added
// fields are such that their zero values are left out.
func widen(dst, src reflect.Value) bool {
	if dst.Type() == src.Type() {
		dst.Set(src)
		return true
	}
	ok := true
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			return widen(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			ok = widen(dst.Index(i), src.Index(i)) && ok
		}
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			if i < src.NumField() {
				ok = widen(dst.Field(i), src.Field(i)) && ok
			} else {
				ok = leftOut(dst.Type().Field(i)) && ok
			}
		}
	}
	return ok
}

// leftOut tells whether a field with the zero value is certainly left out.
func leftOut(f reflect.StructField) bool {
	if f.Tag.Get("json") == "-" {
		return true
	}
	if fieldOpts(f, 1).we || reprOf(f.Type) != nil {
		return false
	}
	switch f.Type.Kind() {
	case reflect.Array, reflect.Struct, reflect.Float32, reflect.Float64:
		return false
	}
	return true
}
