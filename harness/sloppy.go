package main

import (
	"bytes"
	"math"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

// A sloppy encoder writes messages that are mostly right: valid except for a
// few deviations anywhere in the tree, with the lengths around them correct.
type sloppy struct {
	g    *gen
	c    *codec
	rate int // one deviation in so many places; 0: none
}

type opts struct {
	num      int
	f64, f32 bool
	we, ee   bool
}

func (g *gen) sloppyTop(c *codec, rv reflect.Value) []byte {
	s := &sloppy{g: g, c: c, rate: []int{0, 60, 25, 10, 4}[g.Intn(5)]}
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return nil
		}
		rv = rv.Elem()
	}
	rt := rv.Type()
	var out []byte
	for _, r := range c.cons {
		if r.rt == rt {
			db, pb := amino.NameToDisfix(r.name)
			if s.dev() {
				out = append(append(out, 0), db.Bytes()...)
			}
			out = append(out, pb.Bytes()...)
		}
	}
	return append(out, s.top(rv)...)
}

func (s *sloppy) top(rv reflect.Value) []byte {
	rt := rv.Type()
	if structish(rt) != s.dev() {
		return s.val(rv, opts{num: 1}, true)
	}
	return append(s.key(1, typ3(rt, opts{})), s.val(rv, opts{num: 1}, typ3(rt, opts{}) != 2)...)
}

func structish(rt reflect.Type) bool {
	if rt.Kind() == reflect.Struct {
		return true
	}
	return (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && rt.Elem().Kind() == reflect.Struct
}

func (s *sloppy) dev() bool { return s.rate > 0 && s.g.oneIn(s.rate) }

func (s *sloppy) key(num, typ int) []byte {
	x := uint64(num)<<3 | uint64(typ)
	if s.dev() && s.g.oneIn(2) {
		switch s.g.Intn(5) {
		case 0:
			x ^= uint64(1 + s.g.Intn(7))
		case 1:
			x += 8
		case 2:
			x -= 8
		case 3:
			x = x&7 | uint64(s.g.Intn(4)+(1<<29)-2)<<3
		case 4:
			x |= 1 << uint(s.g.Intn(64))
		}
	}
	return s.g.uvarint(x)
}

func typ3(rt reflect.Type, o opts) int {
	switch rt.Kind() {
	case reflect.Int64, reflect.Uint64:
		if o.f64 {
			return 1
		}
		return 0
	case reflect.Int32, reflect.Uint32:
		if o.f32 {
			return 5
		}
		return 0
	case reflect.Int8, reflect.Int16, reflect.Int, reflect.Uint8, reflect.Uint16, reflect.Uint, reflect.Bool:
		return 0
	case reflect.Float64:
		return 1
	case reflect.Float32:
		return 5
	}
	return 2
}

func (s *sloppy) lp(bz []byte) []byte {
	n := uint64(len(bz))
	if s.dev() {
		switch s.g.Intn(8) {
		case 0:
			n++
		case 1:
			n--
		case 2:
			bz = append(bz, byte(s.g.Intn(30)))
			n++
		case 3:
			if n > 0 {
				bz = bz[:n-1]
				n--
			}
		case 4:
			n = 1 << uint(s.g.Intn(64))
		case 5:
			bz = append(bz, s.unknown(1+s.g.Intn(30))...)
			n = uint64(len(bz))
		case 6:
			n = math.MaxUint64 - uint64(s.g.Intn(40))
		case 7:
			n = math.MaxInt64 - uint64(s.g.Intn(12))
		}
	}
	return append(s.g.uvarint(n), bz...)
}

func le(x uint64, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(x >> (8 * i))
	}
	return out
}

func (s *sloppy) int(x uint64) uint64 {
	if s.dev() {
		switch s.g.Intn(3) {
		case 0:
			return uint64(s.g.int64())
		case 1:
			return x + 1<<uint(8*s.g.Intn(8))
		default:
			return 0
		}
	}
	return x
}

func zigzag(x int64) uint64 { return uint64(x<<1) ^ uint64(x>>63) }

// unknown makes a field with some number.
func (s *sloppy) unknown(num int) []byte {
	typ := []int{0, 1, 2, 5, 0, 1, 2, 5, 0, 2, 2, 3, 4, 6, 7}[s.g.Intn(15)]
	out := s.key(num, typ)
	switch typ {
	case 0:
		out = append(out, s.g.uvarint(uint64(s.g.int64()))...)
	case 1:
		out = append(out, le(s.g.Uint64(), 8)...)
	case 5:
		out = append(out, le(s.g.Uint64(), 4)...)
	case 2:
		str := s.g.str()
		if len(str) > 300 {
			str = str[:3]
		}
		out = append(out, s.lp([]byte(str))...)
	}
	if s.dev() && len(out) > 1 {
		out = out[:len(out)-1]
	}
	return out
}

// rfields lists the fields of a struct type as they are numbered.
func rfields(rt reflect.Type) (out []int) {
	for i := 0; i < rt.NumField(); i++ {
		if f := rt.Field(i); f.PkgPath == "" && strings.Split(f.Tag.Get("json"), ",")[0] != "-" {
			out = append(out, i)
		}
	}
	return
}

func fieldOpts(f reflect.StructField, num int) opts {
	o := opts{num: num}
	switch f.Tag.Get("binary") {
	case "fixed64":
		o.f64 = true
	case "fixed32":
		o.f32 = true
	}
	o.we = strings.Contains(f.Tag.Get("amino"), "write_empty")
	o.ee = strings.Contains(f.Tag.Get("amino"), "empty_elements")
	return o
}

func deref(rv reflect.Value) (reflect.Value, bool) {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return rv, false
		}
		rv = rv.Elem()
	}
	return rv, true
}

func baseType(rt reflect.Type) reflect.Type {
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	return rt
}

func isBytes(rt reflect.Type) bool {
	return (rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array) && rt.Elem().Kind() == reflect.Uint8
}

func (s *sloppy) val(rv reflect.Value, o opts, bare bool) []byte {
	rt := rv.Type()
	if reprOf(rt) != nil {
		return s.val(rv.MethodByName("MarshalAmino").Call(nil)[0], o, bare)
	}
	wrap := func(bz []byte) []byte {
		if s.dev() && len(bz) > 0 && s.g.oneIn(3) {
			// cut short, with a length that says so
			bz = bz[:s.g.Intn(len(bz))]
		}
		if bare {
			return bz
		}
		return s.lp(bz)
	}
	if rt == timeType {
		t := rv.Interface().(time.Time)
		var out []byte
		if x := s.int(uint64(t.Unix())); x != 0 || s.dev() {
			out = append(out, s.key(1, 0)...)
			out = append(out, s.g.uvarint(x)...)
		}
		if x := s.int(uint64(t.Nanosecond())); x != 0 || s.dev() {
			out = append(out, s.key(2, 0)...)
			out = append(out, s.g.uvarint(x)...)
		}
		if s.dev() {
			out = append(out, s.unknown(1+s.g.Intn(4))...)
		}
		return wrap(out)
	}
	switch rt.Kind() {
	case reflect.Bool:
		x := uint64(b2i(rv.Bool()))
		if s.dev() {
			return []byte{byte(s.g.Intn(256))}
		}
		return s.g.uvarint(x)
	case reflect.Int8, reflect.Int16:
		return s.g.uvarint(s.int(zigzag(rv.Int())))
	case reflect.Int32, reflect.Int64, reflect.Int:
		x := s.int(uint64(rv.Int()))
		if t := typ3(rt, o); t == 1 {
			return le(x, 8)
		} else if t == 5 {
			return le(x, 4)
		}
		return s.g.uvarint(x)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		x := s.int(rv.Uint())
		if t := typ3(rt, o); t == 1 {
			return le(x, 8)
		} else if t == 5 {
			return le(x, 4)
		}
		return s.g.uvarint(x)
	case reflect.Float32:
		return le(uint64(math.Float32bits(float32(rv.Float()))), 4)
	case reflect.Float64:
		return le(math.Float64bits(rv.Float()), 8)
	case reflect.String:
		return s.lp([]byte(rv.String()))
	case reflect.Slice, reflect.Array:
		if isBytes(rt) {
			bz := make([]byte, rv.Len())
			for i := range bz {
				bz[i] = byte(rv.Index(i).Uint())
			}
			return s.lp(bz)
		}
		if typ3(baseType(rt.Elem()), o) != 2 {
			var out []byte
			for i := 0; i < rv.Len(); i++ {
				out = append(out, s.elem(rv.Index(i), o)...)
			}
			if s.dev() && rv.Len() > 0 {
				out = append(out, s.elem(rv.Index(0), o)...)
			}
			return wrap(out)
		}
		return wrap(s.elems(rv, o))
	case reflect.Struct:
		return wrap(s.fields(rv))
	case reflect.Interface:
		if rv.IsNil() {
			return wrap(nil)
		}
		x, ok := deref(rv.Elem())
		if !ok {
			return []byte{0}
		}
		var out []byte
		for _, r := range s.c.cons {
			if r.rt == x.Type() || s.dev() && s.g.oneIn(10) {
				db, pb := amino.NameToDisfix(r.name)
				out = nil
				if s.g.oneIn(2) {
					out = append(append(out, 0), db.Bytes()...)
				}
				out = append(out, pb.Bytes()...)
			}
		}
		if s.dev() && s.g.oneIn(2) {
			if out = out[:s.g.Intn(len(out)+1)]; !bare {
				return s.lp(out)
			}
			return out
		}
		if s.dev() && len(out) > 0 {
			out[s.g.Intn(len(out))] ^= byte(1 << uint(s.g.Intn(8)))
		}
		if bare && !structish(x.Type()) {
			return append(out, s.top(x)...)
		}
		return wrap(append(out, s.val(x, opts{num: o.num, f64: o.f64, f32: o.f32}, true)...))
	}
	return nil
}

func (s *sloppy) elem(e reflect.Value, o opts) []byte {
	x, ok := deref(e)
	if !ok {
		x = reflect.Zero(baseType(e.Type()))
	}
	return s.val(x, o, false)
}

func (s *sloppy) elems(rv reflect.Value, o opts) []byte {
	var out []byte
	n := rv.Len()
	for i := 0; i < n; i++ {
		e := rv.Index(i)
		x, ok := deref(e)
		out = append(out, s.key(o.num, 2)...)
		if !ok || (s.g.oneIn(2) && x.IsZero() && x.Kind() != reflect.Struct && x.Kind() != reflect.Array) {
			out = append(out, 0)
			continue
		}
		p := o
		p.num = 1
		out = append(out, s.val(x, p, false)...)
		if s.dev() && s.g.oneIn(4) {
			i--
			n--
		}
	}
	return out
}

func (s *sloppy) fields(rv reflect.Value) []byte {
	rt := rv.Type()
	var parts [][]byte
	idx := rfields(rt)
	for j, i := range idx {
		f := rt.Field(i)
		o := fieldOpts(f, j+1)
		x, ok := deref(rv.Field(i))
		if !ok && !(s.dev() && f.Type != rt && baseType(f.Type).Kind() != reflect.Struct) {
			continue
		}
		if !ok {
			x = reflect.Zero(baseType(f.Type))
		}
		bt := x.Type()
		if bt.Kind() == reflect.Interface && x.IsNil() && !s.dev() {
			continue
		}
		if x.IsZero() && !o.we && f.Type.Kind() != reflect.Ptr && !s.dev() {
			continue
		}
		var out []byte
		if (bt.Kind() == reflect.Slice || bt.Kind() == reflect.Array) && reprOf(bt) == nil && !isBytes(bt) &&
			typ3(baseType(bt.Elem()), o) == 2 {
			out = s.elems(x, o)
		} else {
			out = append(s.key(o.num, typ3(bt, o)), s.val(x, o, false)...)
		}
		parts = append(parts, out)
	}
	if s.dev() && len(parts) > 0 {
		i, j := s.g.Intn(len(parts)), s.g.Intn(len(parts))
		switch s.g.Intn(5) {
		case 0:
			parts[i], parts[j] = parts[j], parts[i]
		case 1:
			parts = append(parts, parts[i])
		case 2:
			parts[i] = append(parts[i], parts[i]...)
		case 3:
			parts[i] = nil
		case 4:
			if len(parts[i]) > 0 {
				parts[i] = parts[i][:len(parts[i])-1]
			}
		}
	}
	if s.dev() {
		num := len(idx) + s.g.Intn(6)
		for n := 1 + s.g.Intn(3); n > 0; n-- {
			parts = append(parts, s.unknown(num))
			num += s.g.Intn(3)
		}
	}
	return bytes.Join(parts, nil)
}
