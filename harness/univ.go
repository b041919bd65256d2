package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

var timeType = reflect.TypeOf(time.Time{})

// univ is the table of types that the events of a trace refer to.
type univ struct {
	idx    map[reflect.Type]int
	types  []reflect.Type
	codecs []*codec
	names  []string
	nidx   map[string]int
	all    bool // projections include the fields tagged json "-"
}

func newUniv() *univ { return &univ{idx: map[reflect.Type]int{}, nidx: map[string]int{}} }

// name returns the index of a registered name (from 1).
func (u *univ) name(n string) int {
	if i, ok := u.nidx[n]; ok {
		return i
	}
	u.names = append(u.names, n)
	u.nidx[n] = len(u.names)
	return len(u.names)
}

type regIf struct {
	rt   reflect.Type
	alw  bool
	prio []string
}
type regCon struct {
	rt   reflect.Type
	name string
	ptr  bool
}

// codec is a real codec with the registrations made on it.
type codec struct {
	id   int // 1-based
	cdc  *amino.Codec
	pkg  bool // the functions of the package
	ifs  []regIf
	cons []regCon
}

func (u *univ) newCodec(ifs []regIf, cons []regCon) *codec {
	c := &codec{ifs: ifs, cons: cons, cdc: amino.NewCodec()}
	for _, i := range ifs {
		i.register(c.cdc)
	}
	for _, r := range cons {
		r.register(c.cdc)
	}
	u.add(c)
	return c
}

func (u *univ) add(c *codec) {
	u.codecs = append(u.codecs, c)
	c.id = len(u.codecs)
	for _, i := range c.ifs {
		u.t(i.rt)
	}
	for _, r := range c.cons {
		u.t(r.rt)
	}
}

func (i regIf) register(cdc *amino.Codec) {
	var o *amino.InterfaceOptions
	if i.alw || i.prio != nil {
		o = &amino.InterfaceOptions{AlwaysDisambiguate: i.alw, Priority: i.prio}
	}
	cdc.RegisterInterface(reflect.New(i.rt).Interface(), o)
}

func (r regCon) register(cdc *amino.Codec) {
	p := reflect.New(r.rt)
	if r.ptr {
		cdc.RegisterConcrete(p.Interface(), r.name, nil)
	} else {
		cdc.RegisterConcrete(p.Elem().Interface(), r.name, nil)
	}
}

// t returns the index of a type (from 1), adding it and all it refers to.
func (u *univ) t(rt reflect.Type) int {
	if i, ok := u.idx[rt]; ok {
		return i
	}
	u.types = append(u.types, rt)
	i := len(u.types)
	u.idx[rt] = i
	if r := reprOf(rt); r != nil {
		u.t(r)
	}
	switch rt.Kind() {
	case reflect.Slice, reflect.Array, reflect.Ptr, reflect.Map:
		u.t(rt.Elem())
	case reflect.Struct:
		if rt != timeType {
			for j := 0; j < rt.NumField(); j++ {
				u.t(rt.Field(j).Type)
			}
		}
	}
	return i
}

// reprOf returns the type of the representation, or nil.
func reprOf(rt reflect.Type) reflect.Type {
	if rt.Kind() == reflect.Ptr || rt.Kind() == reflect.Interface {
		return nil
	}
	m, ok := rt.MethodByName("MarshalAmino")
	if !ok {
		return nil
	}
	return m.Type.Out(0)
}

func kindOf(rt reflect.Type) string {
	if rt == timeType {
		return "time"
	}
	switch rt.Kind() {
	case reflect.Bool:
		return "bool"
	case reflect.Int8:
		return "i8"
	case reflect.Int16:
		return "i16"
	case reflect.Int32:
		return "i32"
	case reflect.Int64:
		return "i64"
	case reflect.Int:
		return "int"
	case reflect.Uint8:
		return "u8"
	case reflect.Uint16:
		return "u16"
	case reflect.Uint32:
		return "u32"
	case reflect.Uint64:
		return "u64"
	case reflect.Uint:
		return "uint"
	case reflect.Float32:
		return "f32"
	case reflect.Float64:
		return "f64"
	case reflect.String:
		return "str"
	case reflect.Slice:
		return "slice"
	case reflect.Array:
		return "array"
	case reflect.Ptr:
		return "ptr"
	case reflect.Struct:
		return "struct"
	case reflect.Interface:
		return "iface"
	case reflect.Map:
		return "map"
	}
	return "bad"
}

type jField struct {
	X  int      `json:"x"`
	T  int      `json:"t"`
	NM string   `json:"nm"`
	JN []int    `json:"jn"`
	JT []string `json:"jt"`
	BT string   `json:"bt"`
	AT []string `json:"at"`
}

type jType struct {
	Name string          `json:"name"`
	K    string          `json:"k"`
	E    int             `json:"e"`
	N    int             `json:"n"`
	F    []jField        `json:"f"`
	Repr int             `json:"repr"`
	MErr json.RawMessage `json:"merr"`
	UErr json.RawMessage `json:"uerr"`
	ImpP []int           `json:"impP"`
	ImpV []int           `json:"impV"`
	KT   int             `json:"kt"`
	Size []int           `json:"size"`
	TN   []int           `json:"tn"`
	JM   int             `json:"jm"`
	DC   string          `json:"dc"`
}

func ints(s string) []int {
	out := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = int(s[i])
	}
	return out
}

func bytesJSON(b []byte) json.RawMessage {
	var buf bytes.Buffer
	wBytes(&buf, b)
	return buf.Bytes()
}

// The representations that a type refuses to give or to take.
var merr = map[reflect.Type][]interface{}{ty(RErr{}): {"no"}, ty(RErrI(0)): {int64(13)}, ty(RErrS{}): {RErrSRepr{13}}}
var uerr = map[reflect.Type][]interface{}{ty(RErr{}): {"never", "no"}, ty(RErrI(0)): {int64(13), int64(14)},
	ty(RErrS{}): {RErrSRepr{13}, RErrSRepr{14}}, ty(RU(0)): {uint64(77)}}

// env writes the tables of types and codecs.
func (u *univ) env() []byte {
	var ts []jType
	// NOTE: t may grow.
	for i := 0; i < len(u.types); i++ {
		rt := u.types[i]
		jt := jType{Name: rt.String(), K: kindOf(rt), MErr: []byte("[]"), UErr: []byte("[]"),
			F: []jField{}, ImpP: []int{}, ImpV: []int{}, TN: ints(rt.Name())}
		switch jt.K {
		case "slice", "ptr", "map", "array":
			jt.E = u.t(rt.Elem())
			if jt.K == "array" {
				jt.N = rt.Len()
			}
		case "struct":
			for j := 0; j < rt.NumField(); j++ {
				f := rt.Field(j)
				jf := jField{T: u.t(f.Type), NM: f.Name, BT: f.Tag.Get("binary")}
				if f.PkgPath == "" {
					jf.X = 1
				}
				jf.JT = strings.Split(f.Tag.Get("json"), ",")
				jf.AT = strings.Split(f.Tag.Get("amino"), ",")
				jn := f.Name
				if jf.JT[0] != "" {
					jn = jf.JT[0]
				}
				jf.JN = ints(jn)
				jt.F = append(jt.F, jf)
			}
		}
		if r := reprOf(rt); r != nil {
			jt.Repr = u.t(r)
			jt.MErr = u.reprErrs(merr[rt])
			jt.UErr = u.reprErrs(uerr[rt])
		}
		jt.DC = dcOf[rt]
		jt.JM = b2i(rt == reflect.TypeOf(JText{}) || rt == reflect.TypeOf(JRe{}))
		switch rt.Kind() {
		case reflect.Array, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Float32, reflect.Float64:
			jt.Size = ints(fmt.Sprintf("0x%X", rt.Size()))
		default:
			jt.Size = ints("variable")
		}
		ts = append(ts, jt)
	}
	for i := range u.types {
		rt := u.types[i]
		if rt.Kind() == reflect.Interface || rt.Kind() == reflect.Ptr {
			continue
		}
		for j, it := range u.types {
			if it.Kind() != reflect.Interface {
				continue
			}
			if reflect.PtrTo(rt).Implements(it) {
				ts[i].ImpP = append(ts[i].ImpP, j+1)
			}
			if rt.Implements(it) {
				ts[i].ImpV = append(ts[i].ImpV, j+1)
			}
		}
	}
	type jif struct {
		T    int     `json:"t"`
		Alw  int     `json:"alw"`
		Prio [][]int `json:"prio"`
	}
	type jcon struct {
		T   int `json:"t"`
		N   int `json:"n"`
		Ptr int `json:"ptr"`
	}
	type jcdc struct {
		Ifs  []jif  `json:"ifs"`
		Cons []jcon `json:"cons"`
	}
	cs := []jcdc{}
	for _, c := range u.codecs {
		j := jcdc{Ifs: []jif{}, Cons: []jcon{}}
		for _, i := range c.ifs {
			p := [][]int{}
			for _, n := range i.prio {
				p = append(p, ints(n))
			}
			j.Ifs = append(j.Ifs, jif{u.t(i.rt), b2i(i.alw), p})
		}
		for _, r := range c.cons {
			j.Cons = append(j.Cons, jcon{u.t(r.rt), u.name(r.name), b2i(r.ptr)})
		}
		cs = append(cs, j)
	}
	names := [][]int{}
	for _, n := range u.names {
		names = append(names, ints(n))
	}
	out, err := json.Marshal(map[string]interface{}{"types": ts, "codecs": cs, "names": names})
	if err != nil {
		panic(err)
	}
	return out
}

func (u *univ) reprErrs(l []interface{}) json.RawMessage {
	var b bytes.Buffer
	b.WriteByte('[')
	for i, x := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		u.p(&b, reflect.ValueOf(x), false)
	}
	b.WriteByte(']')
	return b.Bytes()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

//----------------------------------------
// Projection of Go values to abstract values (see AminoTypes.tla).

func wBytes(b *bytes.Buffer, bz []byte) {
	b.WriteByte('[')
	for i, x := range bz {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(int(x)))
	}
	b.WriteByte(']')
}

func wLE(b *bytes.Buffer, x uint64, n int) {
	var a [8]byte
	for i := range a {
		a[i] = byte(x >> (8 * i))
	}
	wBytes(b, a[:n])
}

func (u *univ) proj(rv reflect.Value) json.RawMessage {
	var b bytes.Buffer
	u.p(&b, rv, false)
	return b.Bytes()
}

// projD is the projection of a decoded value: times must be in UTC and have
// no monotonic reading, unexported fields must be untouched.
func (u *univ) projD(rv reflect.Value) json.RawMessage {
	var b bytes.Buffer
	u.p(&b, rv, true)
	return b.Bytes()
}

func (u *univ) p(b *bytes.Buffer, rv reflect.Value, strict bool) {
	rt := rv.Type()
	if r := reprOf(rt); r != nil {
		outs := rv.MethodByName("MarshalAmino").Call(nil)
		u.p(b, outs[0], strict)
		return
	}
	if rt == timeType {
		t := rv.Interface().(time.Time)
		b.WriteByte('[')
		wLE(b, uint64(t.Unix()), 8)
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(t.Nanosecond()))
		if strict && (t.Location() != time.UTC || t != t.Round(0)) {
			b.WriteString(",1") // not what a decoded time looks like
		}
		b.WriteByte(']')
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.Itoa(b2i(rv.Bool())))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		wLE(b, uint64(rv.Int()), 8)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		wLE(b, rv.Uint(), 8)
	case reflect.Float32:
		wLE(b, uint64(math.Float32bits(float32(rv.Float()))), 4)
	case reflect.Float64:
		wLE(b, math.Float64bits(rv.Float()), 8)
	case reflect.String:
		wBytes(b, []byte(rv.String()))
	case reflect.Slice, reflect.Array:
		slice := rt.Kind() == reflect.Slice
		if slice {
			if rv.IsNil() {
				b.WriteString("[]")
				return
			}
			b.WriteByte('[')
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			bz := make([]byte, rv.Len())
			for i := range bz {
				bz[i] = byte(rv.Index(i).Uint())
			}
			wBytes(b, bz)
		} else {
			b.WriteByte('[')
			for i := 0; i < rv.Len(); i++ {
				if i > 0 {
					b.WriteByte(',')
				}
				u.p(b, rv.Index(i), strict)
			}
			b.WriteByte(']')
		}
		if slice {
			b.WriteByte(']')
		}
	case reflect.Ptr:
		b.WriteByte('[')
		if !rv.IsNil() {
			u.p(b, rv.Elem(), strict)
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('[')
		for i := 0; i < rt.NumField(); i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			if f := rt.Field(i); f.PkgPath != "" || (f.Tag.Get("json") == "-" && !u.all) {
				if strict && !rv.Field(i).IsZero() && f.PkgPath != "" {
					b.WriteString("[1]")
				} else {
					b.WriteString("[]")
				}
			} else {
				u.p(b, rv.Field(i), strict)
			}
		}
		b.WriteByte(']')
	case reflect.Interface:
		if rv.IsNil() {
			b.WriteString("[]")
			return
		}
		x := rv.Elem()
		d := 0
		xt := x.Type()
		for xt.Kind() == reflect.Ptr {
			xt = xt.Elem()
			if x.IsValid() {
				if x.IsNil() {
					x = reflect.Value{}
				} else {
					x = x.Elem()
				}
			}
			d++
		}
		if !x.IsValid() {
			fmt.Fprintf(b, `[{"t":%d,"d":-1,"v":[]}]`, u.t(xt))
			return
		}
		fmt.Fprintf(b, `[{"t":%d,"d":%d,"v":`, u.t(xt), d)
		u.p(b, x, strict)
		b.WriteString("}]")
	case reflect.Map:
		if rv.IsNil() {
			b.WriteString("[]")
			return
		}
		keys := sortedKeys(rv)
		b.WriteString("[[")
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteByte('[')
			u.p(b, k, strict)
			b.WriteByte(',')
			u.p(b, rv.MapIndex(k), strict)
			b.WriteByte(']')
		}
		b.WriteString("]]")
	case reflect.Func, reflect.Chan:
		b.WriteString("[]")
	default:
		panic("cannot project " + rt.String())
	}
}

func sortedKeys(rv reflect.Value) []reflect.Value {
	keys := rv.MapKeys()
	sort.Slice(keys, func(i, j int) bool {
		switch rv.Type().Key().Kind() {
		case reflect.String:
			return keys[i].String() < keys[j].String()
		case reflect.Bool:
			return !keys[i].Bool() && keys[j].Bool()
		}
		return keys[i].Int() < keys[j].Int()
	})
	return keys
}
