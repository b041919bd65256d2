package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	amino "github.com/tendermint/go-amino"
)

func init() {
	drivers["jrt"] = driveJRT
	drivers["jenc"] = driveJEnc
	drivers["jdec"] = driveJDec
}

var jsonCons = []reflect.Type{reflect.TypeOf(JMap{}), reflect.TypeOf(JText{}), reflect.TypeOf(JHold{})}

func newJSONCase(r *run) *binCase {
	b := newBinCase(r)
	b.g.json, b.g.mapsOK = true, true
	b.g.big = 1 << 30
	return b
}

// nextJSON is next with a codec that also has the types for JSON.
func (b *binCase) nextJSON() reflect.Value {
	if b.n%200 == 0 {
		saved := conTypes
		conTypes = append(append([]reflect.Type{}, conTypes...), jsonCons...)
		b.c = b.g.randCodec()
		conTypes = saved
	}
	if b.n%4 == 0 {
		b.rt = b.g.topType()
	}
	b.n++
	for b.rt.Kind() == reflect.Interface {
		b.rt = b.g.topType()
	}
	b.g.u.t(b.rt)
	return b.g.value(b.rt, b.c)
}

func (c *codec) marshalJSON(x interface{}) ([]byte, error) {
	if c.pkg {
		return amino.MarshalJSON(x)
	}
	return c.cdc.MarshalJSON(x)
}

// jfloat is the text of a float according to the standard library, or the
// value of a text (empty if it has none).
type jfloat struct {
	K string `json:"k"`
	V raw    `json:"v"`
	S raw    `json:"s"`
}

func f64of(f float64) raw {
	var b bytes.Buffer
	wLE(&b, math.Float64bits(f), 8)
	return b.Bytes()
}

func f32of(f float32) raw {
	var b bytes.Buffer
	wLE(&b, uint64(math.Float32bits(f)), 4)
	return b.Bytes()
}

// floatTexts has the texts of all floats in a value.
func floatTexts(rv reflect.Value, out []jfloat) []jfloat {
	rt := rv.Type()
	if rt == timeType {
		return out
	}
	if reprOf(rt) != nil {
		return floatTexts(rv.MethodByName("MarshalAmino").Call(nil)[0], out)
	}
	switch rt.Kind() {
	case reflect.Float64:
		if t, err := json.Marshal(rv.Float()); err == nil {
			out = append(out, jfloat{"f64", f64of(rv.Float()), rawBytes(t)})
		}
	case reflect.Float32:
		if t, err := json.Marshal(float32(rv.Float())); err == nil {
			out = append(out, jfloat{"f32", f32of(float32(rv.Float())), rawBytes(t)})
		}
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			return floatTexts(rv.Elem(), out)
		}
	case reflect.Slice, reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			return out
		}
		for i := 0; i < rv.Len(); i++ {
			out = floatTexts(rv.Index(i), out)
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			out = floatTexts(rv.MapIndex(k), out)
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				out = floatTexts(rv.Field(i), out)
			}
		}
	}
	return out
}

var numRE = regexp.MustCompile(`-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?`)

// hasKind is whether there is a type of one of the kinds inside a type.
func hasKind(rt reflect.Type, ks ...reflect.Kind) bool {
	seen := map[reflect.Type]bool{}
	var f func(rt reflect.Type) bool
	f = func(rt reflect.Type) bool {
		if seen[rt] || rt == timeType {
			return false
		}
		seen[rt] = true
		if r := reprOf(rt); r != nil && f(r) {
			return true
		}
		for _, k := range ks {
			if rt.Kind() == k {
				return true
			}
		}
		switch rt.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			return f(rt.Elem())
		case reflect.Struct:
			for i := 0; i < rt.NumField(); i++ {
				if f(rt.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return f(rt)
}

// numTexts has the values of all numbers in a text.
func numTexts(rt reflect.Type, bz []byte) []jfloat {
	out := []jfloat{}
	if !hasKind(rt, reflect.Float32, reflect.Float64, reflect.Interface) {
		return out
	}
	done := map[string]bool{}
	for _, t := range numRE.FindAll(bz, -1) {
		if done[string(t)] {
			continue
		}
		done[string(t)] = true
		a, b := jfloat{"f32", raw("[]"), rawBytes(t)}, jfloat{"f64", raw("[]"), rawBytes(t)}
		var x float32
		var y float64
		if json.Unmarshal(t, &x) == nil {
			a.V = f32of(x)
		}
		if json.Unmarshal(t, &y) == nil {
			b.V = f64of(y)
		}
		out = append(out, a, b)
	}
	return out
}

//----------------------------------------
// Round trips

func driveJRT(r *run) {
	b := newJSONCase(r)
	pkg := &codec{pkg: true}
	r.u.add(pkg)
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.nextJSON()
		c := b.c
		if b.g.oneIn(6) && !hasKind(b.rt, reflect.Interface) {
			c = pkg
		}
		e := ev{"op": "jrt", "c": c.id, "t": r.u.t(b.rt), "v": r.u.proj(rv), "fl": floatTexts(rv, []jfloat{}), "eo": "", "do": "",
			"w": raw("0"), "m": "", "b": raw("[]")}
		r.note(e)
		var bz []byte
		how := b.g.Intn(5)
		x := r.do(func() (err error) {
			switch {
			case how == 0 && c.pkg:
				bz, err = amino.MarshalJSONIndent(rv.Interface(), "", "  ")
			case how == 0:
				bz, err = c.cdc.MarshalJSONIndent(rv.Interface(), " ", "\t")
			case how == 1 && !c.pkg:
				p := reflect.New(b.rt)
				p.Elem().Set(rv)
				bz, err = c.cdc.MarshalJSON(p.Interface())
			default:
				bz, err = c.marshalJSON(rv.Interface())
			}
			return
		})
		e["eo"], e["m"] = x.o, x.msg
		if x.o == "ok" {
			e["b"] = rawBytes(bz)
			p := reflect.New(b.rt)
			y := r.do(func() error {
				switch {
				case c.pkg:
					return amino.UnmarshalJSON(bz, p.Interface())
				case how == 2:
					c.cdc.MustUnmarshalJSON(bz, p.Interface())
					return nil
				}
				return c.cdc.UnmarshalJSON(bz, p.Interface())
			})
			e["do"], e["m"] = y.o, y.msg
			if y.o == "ok" {
				e["w"] = r.u.projD(p.Elem())
			}
		}
		r.stat(x.o)
		r.session(e)
	}
}

//----------------------------------------
// Encoding

func driveJEnc(r *run) {
	b := newJSONCase(r)
	b.g.simple = false
	pkg := &codec{pkg: true}
	r.u.add(pkg)
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.nextJSON()
		c := b.c
		if b.g.oneIn(12) {
			c = pkg
		}
		if b.g.oneIn(20) {
			b.g.json = false // strings that are no text, floats that are no numbers
			rv = b.g.value(b.rt, c)
			b.g.json = true
			if dupKeys(rv) || zonedZero(rv) {
				continue
			}
		}
		e := ev{"op": "jenc", "c": c.id, "t": r.u.t(b.rt), "v": r.u.proj(rv), "fl": floatTexts(rv, []jfloat{}), "o": "", "b": raw("[]"),
			"m": "", "outs": []raw{}, "ind": []raw{}}
		r.note(e)
		var bz []byte
		x := r.do(func() (err error) { bz, err = c.marshalJSON(rv.Interface()); return })
		e["o"], e["m"] = x.o, x.msg
		if x.o == "ok" {
			e["b"] = rawBytes(bz)
		}
		// Again, and in other ways.
		var outs []raw
		p := reflect.New(b.rt)
		p.Elem().Set(rv)
		ways := []func() ([]byte, error){
			func() ([]byte, error) { return c.marshalJSON(rv.Interface()) },
			func() ([]byte, error) { return c.marshalJSON(p.Interface()) },
		}
		if !c.pkg {
			ways = append(ways, func() ([]byte, error) { return c.cdc.MustMarshalJSON(rv.Interface()), nil })
		}
		for _, w := range ways {
			w := w
			var out []byte
			y := r.do(func() (err error) { out, err = w(); return })
			if y.o != "ok" {
				out = []byte{0}
			}
			outs = append(outs, rawBytes(out))
		}
		e["outs"] = outs
		if b.g.oneIn(4) {
			prefix := []string{"", " ", "\t", "> "}[b.g.Intn(4)]
			indent := []string{"", " ", "\t", "    "}[b.g.Intn(4)]
			var out []byte
			y := r.do(func() (err error) {
				if c.pkg {
					out, err = amino.MarshalJSONIndent(rv.Interface(), prefix, indent)
				} else {
					out, err = c.cdc.MarshalJSONIndent(rv.Interface(), prefix, indent)
				}
				return
			})
			if y.o != "ok" {
				out = []byte{0}
			}
			e["ind"] = []raw{rawBytes([]byte(prefix)), rawBytes([]byte(indent)), rawBytes(out)}
		}
		r.stat(x.o)
		r.session(e)
	}
}

// walk calls f for every value inside rv that is part of its encoding.
func walk(rv reflect.Value, f func(reflect.Value)) {
	rt := rv.Type()
	f(rv)
	if rt == timeType {
		return
	}
	if reprOf(rt) != nil {
		walk(rv.MethodByName("MarshalAmino").Call(nil)[0], f)
		return
	}
	switch rt.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !rv.IsNil() {
			walk(rv.Elem(), f)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			walk(rv.Index(i), f)
		}
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			walk(rv.MapIndex(k), f)
		}
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).PkgPath == "" {
				walk(rv.Field(i), f)
			}
		}
	}
}

// dupKeys is whether map keys that are no text become equal.
func dupKeys(rv reflect.Value) (dup bool) {
	walk(rv, func(x reflect.Value) {
		if x.Kind() == reflect.Map {
			seen := map[string]bool{}
			for _, k := range x.MapKeys() {
				s := strings.ToValidUTF8(k.String(), "?")
				dup = dup || seen[s] || s != k.String()
				seen[s] = true
			}
		}
	})
	return
}

// zonedZero is whether there is a zero time which is not in UTC.
func zonedZero(rv reflect.Value) (zoned bool) {
	walk(rv, func(x reflect.Value) {
		if x.Type() == timeType {
			t := x.Interface().(time.Time)
			zoned = zoned || (t.IsZero() && t != time.Time{})
		}
	})
	return
}

//----------------------------------------
// Decoding

func driveJDec(r *run) {
	b := newJSONCase(r)
	b.g.utc = true
	pkg := &codec{pkg: true}
	r.u.add(pkg)
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.nextJSON()
		c := b.c
		if b.g.oneIn(15) {
			c = pkg
		}
		pop := b.g.oneIn(3)
		if pop && b.g.oneIn(3) {
			b.rt = b.g.pick(optTypes)
			b.g.u.t(b.rt)
			rv = b.g.value(b.rt, b.c)
		}
		t := &jtext{gen: b.g, c: c, pop: pop, odds: []int{12, 40, 40, 200, 1 << 30}[b.g.Intn(5)]}
		bz := t.top(rv)
		if t.oneIn(10) {
			for n := 1 + b.g.Intn(2); n > 0; n-- {
				bz = t.mutateText(bz)
			}
		}
		p := reflect.New(b.rt)
		if pop {
			b.g.budget = 20
			b.g.c = c
			b.g.fill(p.Elem(), 3)
		}
		e := ev{"op": "jdec", "c": c.id, "t": r.u.t(b.rt), "b": rawBytes(bz), "tv": r.u.proj(p.Elem()), "fl": numTexts(b.rt, bz),
			"o": "", "v": raw("0"), "m": "", "al": 0, "text": strings.ToValidUTF8(string(bz), "?")}
		r.note(e)
		must := !c.pkg && b.g.oneIn(5)
		in := exact(bz)
		x := r.doAlloc(func() error {
			switch {
			case c.pkg:
				return amino.UnmarshalJSON(in, p.Interface())
			case must:
				c.cdc.MustUnmarshalJSON(in, p.Interface())
				return nil
			}
			return c.cdc.UnmarshalJSON(in, p.Interface())
		})
		if must && x.o == "panic" && !strings.Contains(x.msg, "runtime error") && !strings.Contains(x.msg, "reflect") {
			x.o = "err"
		}
		e["o"], e["m"], e["al"] = x.o, x.msg, x.al
		if x.o == "ok" {
			e["v"] = r.u.projD(p.Elem())
		}
		r.stat(x.o)
		r.session(e)
	}
}

// jtext writes texts of values which deviate from the proper ones now and
// then.
type jtext struct {
	*gen
	c    *codec
	w    bytes.Buffer
	odds int
	pop  bool
}

func (t *jtext) dev() bool { return t.oneIn(t.odds) }

func (t *jtext) ws() {
	for t.odds < 1<<20 && t.oneIn(14) {
		t.w.WriteByte(" \t\n\r"[t.Intn(4)])
	}
}

func (t *jtext) p(s string) {
	t.ws()
	t.w.WriteString(s)
}

func (t *jtext) top(rv reflect.Value) []byte {
	rt := rv.Type()
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	reg := ""
	for _, r := range t.c.cons {
		if r.rt == rt {
			reg = r.name
		}
	}
	surround := t.oneIn(25)
	if reg != "" && !t.dev() {
		t.wrapper(reg, rv)
	} else {
		t.val(rv)
	}
	out := t.w.Bytes()
	if !surround {
		out = bytes.TrimSpace(out)
	} else {
		out = append([]byte([]string{"", " ", "\n"}[t.Intn(3)]), out...)
		out = append(out, []string{"", " ", "\t", "x", "null", "}", " 1"}[t.Intn(7)]...)
	}
	return append([]byte{}, out...)
}

var oddValues = []string{"null", "true", "false", "0", "1", "-1", "1.5", "-0", "1e2", `""`, `"x"`, `"5"`, `"-5"`, "[]", "{}", "[0]", "[null]",
	`{"a":1}`, `"AA=="`, "[1,2,3]", `"1970-01-01T00:00:00Z"`, "256", "128", "-129", "65536", "4294967296", `"18446744073709551616"`, `" 7 "`,
	`"null"`, `"1.0"`, `"\u0031"`, "nul", "tru", "[1,]", `{"a"}`, `{"a":1,}`, "01", "+1", ".5", "1.", "--1", `"`, "[", "{", "'a'", "NaN"}

func (t *jtext) val(rv reflect.Value) {
	rt := rv.Type()
	if t.dev() {
		if t.oneIn(3) {
			t.p("null")
		} else {
			s := oddValues[t.Intn(len(oddValues))]
			if t.pop && strings.Contains(s, "[null]") {
				s = "[]" // bytes keep what they hold
			}
			t.p(s)
		}
		return
	}
	if rt.Kind() == reflect.Ptr {
		if rv.IsNil() {
			t.p("null")
			return
		}
		t.val(rv.Elem())
		return
	}
	if rt == timeType {
		t.time(rv.Interface().(time.Time))
		return
	}
	if rt == reflect.TypeOf(JText{}) {
		t.str(rv.Field(0).String())
		return
	}
	if reprOf(rt) != nil {
		out := rv.MethodByName("MarshalAmino").Call(nil)
		t.val(out[0])
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		t.p(fmt.Sprint(rv.Bool()))
	case reflect.Int, reflect.Int64:
		t.quoted(strconv.FormatInt(rv.Int(), 10))
	case reflect.Uint, reflect.Uint64:
		t.quoted(strconv.FormatUint(rv.Uint(), 10))
	case reflect.Int8, reflect.Int16, reflect.Int32:
		t.number(strconv.FormatInt(rv.Int(), 10))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		t.number(strconv.FormatUint(rv.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		bits := 64
		if rt.Kind() == reflect.Float32 {
			bits = 32
		}
		s := strconv.FormatFloat(rv.Float(), "eEfgG"[t.Intn(5)], []int{-1, -1, 3, 20}[t.Intn(4)], bits)
		if t.dev() {
			s = []string{"1e400", "1e39", "-1e39", "1e-400", "0.0", "-0.0", "-0", "1E5", `"1.5"`, "NaN", "3"}[t.Intn(11)]
		}
		t.p(s)
	case reflect.String:
		t.str(rv.String())
	case reflect.Slice, reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			bz := make([]byte, rv.Len())
			for i := range bz {
				bz[i] = byte(rv.Index(i).Uint())
			}
			if rt.Kind() == reflect.Slice && rv.IsNil() && t.oneIn(2) {
				t.p("null")
				return
			}
			t.bytes(bz)
			return
		}
		if rt.Kind() == reflect.Slice && rv.IsNil() && t.oneIn(2) {
			t.p("null")
			return
		}
		var items []func()
		for i := 0; i < rv.Len(); i++ {
			x := rv.Index(i)
			items = append(items, func() { t.val(x) })
		}
		if t.dev() && len(items) > 0 {
			items = items[1:]
		}
		if t.dev() {
			items = append(items, func() { t.p("null") })
		}
		t.list("[", "]", items)
	case reflect.Struct:
		t.structure(rv)
	case reflect.Map:
		if rv.IsNil() && t.oneIn(2) {
			t.p("null")
			return
		}
		var items []func()
		keys := rv.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		t.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			k := k
			f := func() { t.str(k.String()); t.p(":"); t.val(rv.MapIndex(k)) }
			items = append(items, f)
			if t.dev() {
				items = append(items, f)
			}
		}
		t.list("{", "}", items)
	case reflect.Interface:
		if rv.IsNil() {
			t.p("null")
			return
		}
		x := rv.Elem()
		for x.Kind() == reflect.Ptr {
			x = x.Elem()
		}
		name := "unregistered"
		for _, r := range t.c.cons {
			if r.rt == x.Type() {
				name = r.name
			}
		}
		t.wrapper(name, x)
	default:
		panic("harness: no text for " + rt.String())
	}
}

func (t *jtext) list(open, end string, items []func()) {
	t.p(open)
	for i, f := range items {
		if i > 0 {
			t.p(",")
		}
		f()
	}
	t.p(end)
}

func (t *jtext) wrapper(name string, rv reflect.Value) {
	if t.dev() {
		switch t.Intn(4) {
		case 0:
			name = ""
		case 1:
			name += "x"
		case 2:
			if len(t.c.cons) > 0 {
				name = t.c.cons[t.Intn(len(t.c.cons))].name
			}
		case 3:
			name = strings.ToUpper(name)
		}
	}
	kt, kv := `"type"`, `"value"`
	if t.dev() {
		kt = []string{`"Type"`, `"TYPE"`, `"tYpe"`, `"\u0074ype"`, `"typ"`, `"types"`}[t.Intn(6)]
	}
	if t.dev() {
		kv = []string{`"Value"`, `"VALUE"`, `"valuE"`, `"v\u0061lue"`, `"val"`, `"values"`}[t.Intn(6)]
	}
	ty := func() { t.p(kt); t.p(":"); t.str(name) }
	va := func() { t.p(kv); t.p(":"); t.val(rv) }
	items := []func(){ty, va}
	if t.oneIn(6) {
		items = []func(){va, ty}
	}
	if t.dev() {
		x := [][]func(){{ty}, {va}, {}, {ty, va, ty}, {va, ty, va},
			{ty, va, func() { t.p(`"type":null`) }},
			{func() { t.p(`"type":null`) }, va, ty},
			{func() { t.p(`"type":5`) }, va, ty},
			{ty, func() { t.p(`"value":null`) }},
			{ty, va, func() { t.p(`"value":null`) }},
			{ty, va, func() { t.p(`"extra":[1,{}]`) }},
			{ty, va, func() { t.p(`"type":"other"`) }},
			{func() { t.p(`"TYPE":"other"`) }, ty, va},
		}
		items = x[t.Intn(len(x))]
	}
	t.list("{", "}", items)
}

func (t *jtext) structure(rv reflect.Value) {
	rt := rv.Type()
	var items []func()
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if f.PkgPath != "" {
			continue
		}
		tag := f.Tag.Get("json")
		name := strings.Split(tag, ",")[0]
		if tag == "-" {
			if t.oneIn(4) {
				k := f.Name
				items = append(items, func() { t.str(k); t.p(":5") })
			}
			continue
		}
		if name == "" {
			name = f.Name
		}
		if t.oneIn(15) || t.pop && t.oneIn(4) {
			continue // missing
		}
		if t.dev() {
			name = []string{strings.ToUpper(name), strings.ToLower(name), name + "x", f.Name, ""}[t.Intn(5)]
		}
		x := rv.Field(i)
		g := func() { t.str(name); t.p(":"); t.val(x) }
		items = append(items, g)
		if t.dev() {
			if t.oneIn(2) {
				items = append(items, g)
			} else {
				items = append([]func(){func() { t.str(name); t.p(":"); t.p(oddValues[t.Intn(24)]) }}, items...)
			}
		}
	}
	if t.oneIn(10) && t.odds < 1<<20 {
		items = append(items, func() { t.str("unknown"); t.p(":"); t.p(oddValues[t.Intn(24)]) })
	}
	if t.oneIn(3) && t.odds < 1<<20 {
		t.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	}
	t.list("{", "}", items)
}

func (t *jtext) number(s string) {
	if t.dev() {
		s = []string{s + ".0", s + "e0", "0" + s, "+" + s, "-" + s, s + "0", `"` + s + `"`, "127", "128", "-128", "-129", "255", "256", "32767", "32768",
			"-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
			"-0", "99999999999999999999", "18446744073709551616", "-1", "1.5", "1e3"}[t.Intn(31)]
	}
	t.p(s)
}

func (t *jtext) quoted(s string) {
	if t.dev() {
		s = []string{s + ".0", s + "e0", "0" + s, "+" + s, "-" + s, s + "0", " " + s, s + " ", " " + s + "\t", "null", " null ", "", " ", "-", "9223372036854775807",
			"9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"99999999999999999999", "100000000000000000000", "-1", "-0", "true", "[]", "0x10", "1_000", `\u0035`, `5\n`, `\"5\"`, `"5"`, "5\n", "1 2",
			"00", "123456789012345678901234567890"}[t.Intn(36)]
		if t.oneIn(4) {
			t.p(s) // not quoted
			return
		}
	}
	t.p(`"` + s + `"`)
}

func (t *jtext) bytes(bz []byte) {
	s := base64.StdEncoding.EncodeToString(bz)
	if t.dev() {
		switch t.Intn(9) {
		case 0:
			s = base64.RawStdEncoding.EncodeToString(bz)
		case 1:
			s = base64.URLEncoding.EncodeToString(bz)
		case 2:
			s += "="
		case 3:
			i := t.Intn(len(s) + 1)
			s = s[:i] + []string{"\n", "\r", " ", "!", "=", "é"}[t.Intn(6)] + s[i:]
		case 4:
			s = []string{"AB==", "AAB=", "A===", "A", "AA", "AAA", "====", "AA=A", "AA==AA==", "////", "++//", "AAA=\r\n", "AA=\n=", "//==", "\n"}[t.Intn(15)]
		case 5:
			s = strings.TrimRight(s, "=")
		default: // an array of numbers
			var items []func()
			for _, x := range bz {
				x := x
				items = append(items, func() {
					if t.dev() {
						n := []string{"256", "-1", "1.0", "true", `"5"`, "1e1", "-0", "null"}
						if t.pop {
							n = n[:7]
						}
						t.p(n[t.Intn(len(n))])
						return
					}
					t.p(strconv.Itoa(int(x)))
				})
			}
			t.list("[", "]", items)
			return
		}
	}
	t.str(s)
}

func (t *jtext) time(x time.Time) {
	s := x.UTC().Round(0).Format(time.RFC3339Nano)
	if t.dev() {
		base := strings.TrimSuffix(s, "Z")
		whole := x.UTC().Format("2006-01-02T15:04:05")
		s = []string{base + "z", base + "+00:00", base, s + "Z", base + ".Z", whole + ".0Z", whole + ".1234567891Z", whole + ".9999999999Z",
			whole + ".000000000000000001Z", whole + ",5Z", strings.Replace(s, "T", " ", 1), strings.Replace(s, "T", "t", 1),
			"0000-01-01T00:00:00Z", "0000-02-29T23:59:59.5Z", "9999-12-31T23:59:59.999999999Z", "10000-01-01T00:00:00Z", "2023-02-29T00:00:00Z",
			"2024-02-29T00:00:00Z", "1900-02-29T00:00:00Z", "2000-02-29T12:00:00Z", "2021-13-01T00:00:00Z", "2021-00-01T00:00:00Z",
			"2021-04-31T00:00:00Z", "2021-01-00T00:00:00Z", "2021-01-01T24:00:00Z", "2021-01-01T23:60:00Z", "2021-01-01T23:59:60Z",
			"2021-01-01T1:00:00Z", "21-01-01T01:00:00Z", "2021-1-01T01:00:00Z", "-001-01-01T00:00:00Z", "Z", "", "0001-01-01T00:00:00Z",
			"1969-12-31T23:59:59.1Z", "2021-01-01T00:00:00.5+00:00Z", "2021-01-01T00:00:00.Z", "2021-01-01T00:00Z",
			"2021-01-01T00:00:00\\u005a", "2021-01-01T00:00:0\\u0030Z"}[t.Intn(40)]
	}
	t.p(`"` + s + `"`)
}

// str writes a string in one of the ways there are.
func (t *jtext) str(s string) {
	t.ws()
	if t.dev() {
		t.w.WriteString([]string{`"\ud83d\ude00"`, `"\ud83d"`, `"\ude00x"`, `"\ud83d\u0041"`, `"\uD83D\uDE0"`, `"\x"`, "\"a\tb\"", "\"a\nb\"", "\"\x80\"",
			"\"\xed\xa0\x80\"", "\"\xf4\x90\x80\x80\"", "\"\xc3\"", "\"\xe2\x82\"", `"\/\b\f\n\r\t\\\""`, `"\u0000"`, `"\u00e9\u20ac"`, `"unterminated`, "\"\x7f\"",
			"\"\xf0\x9f\x98\x80\"", "\"\xc0\x80\"", `"\ud83d\ud83d\ude00"`, `"\uFFFF"`, "\"\xff\\u0041\"", `"\u12"`, `"\`, `"\u`}[t.Intn(26)])
		return
	}
	plain := t.odds > 1<<20 || !t.oneIn(4)
	t.w.WriteByte('"')
	for _, r := range s {
		switch {
		case !plain && t.oneIn(4) || r < 32:
			if short := map[rune]string{'\n': `\n`, '\r': `\r`, '\t': `\t`, '\b': `\b`, '\f': `\f`}[r]; short != "" && t.oneIn(2) {
				t.w.WriteString(short)
			} else if a, b := utf16.EncodeRune(r); a != 0xfffd {
				fmt.Fprintf(&t.w, []string{`\u%04x\u%04x`, `\u%04X\u%04X`}[t.Intn(2)], a, b)
			} else {
				fmt.Fprintf(&t.w, []string{`\u%04x`, `\u%04X`}[t.Intn(2)], r)
			}
		case r == '"' || r == '\\':
			t.w.WriteByte('\\')
			t.w.WriteRune(r)
		case r == '/' && t.oneIn(3):
			t.w.WriteString(`\/`)
		default:
			t.w.WriteRune(r)
		}
	}
	t.w.WriteByte('"')
}

// mutateText changes one thing in a text.
func (t *jtext) mutateText(bz []byte) []byte {
	out := append([]byte{}, bz...)
	if len(out) == 0 {
		return out
	}
	i := t.Intn(len(out))
	switch t.Intn(6) {
	case 0:
		return out[:i]
	case 1:
		out[i] = `{}[]",:\0192eE+-.tfn Z=`[t.Intn(23)]
	case 2:
		return append(out[:i], out[i+1:]...)
	case 3:
		return append(out[:i:i], append([]byte{`{}[]",:\0192eE+-.tfn Z=`[t.Intn(23)]}, out[i:]...)...)
	case 4:
		out[i] ^= 1 << uint(t.Intn(8))
	case 5:
		j := t.Intn(len(out))
		if i > j {
			i, j = j, i
		}
		return append(append(append([]byte{}, out[:j]...), out[i:j]...), out[j:]...)
	}
	return out
}
