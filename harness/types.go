package main

import (
	"encoding/json"
	"errors"
	"time"
)

// The static types of the harness: interfaces, implementers, types with a
// representation, and some containers with unexported fields and recursion.

type (
	I0 interface{}
	I1 interface{ M1() }
	I2 interface{ M2() }
	I3 interface {
		M1()
		M3()
	}
	IP interface{ P() }
	IN interface{ Nobody() } // nobody implements it
)

type A1 struct{ X int64 }
type A2 struct {
	S string
	B []byte
	L []A1
	P *A1
}
type A3 struct {
	N int32
	T time.Time
}
type A4 string
type A5 int
type A6 [4]byte
type A7 []byte
type A8 []A1
type A9 []string
type A10 bool
type A11 uint8
type A12 [2]string
type A13 []int32
type A14 [3]A1
type A15 int64
type A16 struct{}
type A17 []*A1
type A18 uint64
type A19 [3]int16
type A20 []time.Time
type A21 struct {
	I I1
	J I2
	K I0
	L []I1
}
type A22 int8
type A23 [][]byte
type A24 [0]int32
type A25 struct {
	L []string
	N []int16
	T time.Time
}

func (A1) M1()   {}
func (A2) M1()   {}
func (*A3) M1()  {}
func (A4) M1()   {}
func (A5) M1()   {}
func (A6) M1()   {}
func (A7) M1()   {}
func (A8) M1()   {}
func (A9) M1()   {}
func (A10) M1()  {}
func (A11) M1()  {}
func (A12) M1()  {}
func (A13) M1()  {}
func (A14) M1()  {}
func (A15) M1()  {}
func (A16) M1()  {}
func (A17) M1()  {}
func (*A18) M1() {}
func (A19) M1()  {}
func (A20) M1()  {}
func (*A21) M1() {}
func (*A22) M1() {}
func (A23) M1()  {}
func (A24) M1()  {}
func (A25) M1()  {}

func (A1) M2()  {}
func (A5) M2()  {}
func (A6) M2()  {}
func (A9) M2()  {}
func (*A3) M2() {}
func (A25) M2() {}

func (A2) M3()  {}
func (*A3) M3() {}
func (A8) M3()  {}

func (*A1) P()  {}
func (*A3) P()  {}
func (*A4) P()  {}
func (A10) P()  {}
func (A12) P()  {}
func (*A14) P() {}

// Rec is recursive.
type Rec struct {
	V    int
	Next *Rec
	Kids []Rec
	PK   []*Rec
	I    I1
}

func (Rec) M1()  {}
func (*Rec) M2() {}

// Hidden has fields that are not part of its value.
type Hidden struct {
	a   int
	B   string
	C   int `json:"-"`
	d   []byte
	E   *int16 `json:"e_e,omitempty"`
	F   []A1   `json:",omitempty"`
	G   bool   `json:"g"`
	H   I1     `json:"-"`
	I   uint32 `json:"i" binary:"fixed32"`
	Zzz time.Time
}

func (Hidden) M1() {}

// Tagged has every option.
type Tagged struct {
	A   int64     `binary:"fixed64"`
	B   int32     `binary:"fixed32"`
	C   uint64    `binary:"fixed64"`
	D   uint32    `binary:"fixed32"`
	E   float64   `amino:"unsafe"`
	F   float32   `amino:"unsafe"`
	G   int64     `amino:"write_empty"`
	H   string    `amino:"write_empty"`
	I   []*A1     `amino:"empty_elements"`
	J   []A1      `amino:"write_empty"`
	K   []int64   `binary:"fixed64"`
	L   []uint32  `binary:"fixed32"`
	M   []int64   `amino:"write_empty"`
	N   *int64    `amino:"write_empty"`
	O   *A1       `amino:"write_empty"`
	P   I1        `amino:"write_empty"`
	Q   []float64 `amino:"unsafe"`
	R   [2]int32  `binary:"fixed32"`
	S   *int64    `binary:"fixed64"`
	T   []*int64  `binary:"fixed64"`
	U   []I1      `binary:"fixed64"`
	V   int64     `binary:"fixed32"`
	W   int32     `binary:"fixed64"`
	X   bool      `amino:"write_empty"`
	Y   time.Time `amino:"write_empty"`
	Z   A1        `amino:"write_empty"`
	A6  A6        `amino:"write_empty"`
	A15 A15       `amino:"write_empty,unsafe" binary:"fixed64"`
}

func (Tagged) M1() {}

//----------------------------------------
// Types with a representation.  All map zero to zero.

// RStr: a struct represented as a string.
type RStr struct{ first, rest string }

func (r RStr) MarshalAmino() (string, error) { return r.first + r.rest, nil }
func (r *RStr) UnmarshalAmino(s string) error {
	*r = RStr{}
	if s != "" {
		*r = RStr{s[:1], s[1:]}
	}
	return nil
}
func (RStr) M1() {}

// RInt: an int64 represented as an int64.
type RInt int64

func (r RInt) MarshalAmino() (int64, error)  { return int64(r), nil }
func (r *RInt) UnmarshalAmino(x int64) error { *r = RInt(x); return nil }
func (RInt) M1()                             {}

// RBytes: a string represented as bytes.
type RBytes string

func (r RBytes) MarshalAmino() ([]byte, error)  { return []byte(r), nil }
func (r *RBytes) UnmarshalAmino(x []byte) error { *r = RBytes(x); return nil }
func (RBytes) M1()                              {}
func (RBytes) M2()                              {}

// RSt: a struct represented as another struct.
type RSt struct{ hi, lo uint32 }
type RStRepr struct{ V uint64 }

func (r RSt) MarshalAmino() (RStRepr, error) {
	return RStRepr{V: uint64(r.hi)<<32 | uint64(r.lo)}, nil
}
func (r *RSt) UnmarshalAmino(x RStRepr) error {
	r.hi, r.lo = uint32(x.V>>32), uint32(x.V)
	return nil
}
func (RSt) M1() {}

// RList: a list of small ints represented as a string.
type RList []int32

func (r RList) MarshalAmino() (string, error) {
	bz := make([]byte, len(r))
	for i, x := range r {
		bz[i] = byte(x)
	}
	return string(bz), nil
}
func (r *RList) UnmarshalAmino(s string) error {
	*r = nil
	for i := 0; i < len(s); i++ {
		*r = append(*r, int32(s[i]))
	}
	return nil
}
func (RList) M1() {}

// RArr: an array represented as a struct.
type RArr [2]uint16
type RArrRepr struct{ A, B uint16 }

func (r RArr) MarshalAmino() (RArrRepr, error) { return RArrRepr{r[0], r[1]}, nil }
func (r *RArr) UnmarshalAmino(x RArrRepr) error {
	*r = RArr{x.A, x.B}
	return nil
}
func (*RArr) M1() {}

// RSlice: a struct represented as a list of structs.
type RSlice struct{ xs []int64 }

func (r RSlice) MarshalAmino() ([]A1, error) {
	var out []A1
	for _, x := range r.xs {
		out = append(out, A1{x})
	}
	return out, nil
}
func (r *RSlice) UnmarshalAmino(l []A1) error {
	r.xs = nil
	for _, x := range l {
		r.xs = append(r.xs, x.X)
	}
	return nil
}
func (RSlice) M1() {}

// RErr: errors for some values.
type RErr struct{ N string }

func (r RErr) MarshalAmino() (string, error) {
	if r.N == "no" {
		return r.N, errors.New("RErr refuses to marshal")
	}
	return r.N, nil
}
func (r *RErr) UnmarshalAmino(s string) error {
	r.N = s
	if s == "never" || s == "no" {
		return errors.New("RErr refuses to unmarshal")
	}
	return nil
}
func (RErr) M1() {}

// RNest: represented as a type with a representation.
type RNest struct{ s string }

func (r RNest) MarshalAmino() (RBytes, error) { return RBytes(r.s), nil }
func (r *RNest) UnmarshalAmino(x RBytes) error {
	r.s = string(x)
	return nil
}
func (RNest) M1() {}

// RU: refuses to unmarshal one value.
type RU uint64

func (r RU) MarshalAmino() (uint64, error) { return uint64(r), nil }
func (r *RU) UnmarshalAmino(x uint64) error {
	if x == 77 {
		return errors.New("RU refuses to unmarshal")
	}
	*r = RU(x)
	return nil
}
func (*RU) M1() {}

// RMix: a representation that holds others.
type RIn struct {
	A RStr
	B []RInt
	C *RBytes
}
type RMix struct{ in RIn }

func (r RMix) MarshalAmino() (RIn, error)  { return r.in, nil }
func (r *RMix) UnmarshalAmino(x RIn) error { r.in = x; return nil }
func (RMix) M1()                           {}

// RBool: a bool.
type RBool bool

func (r RBool) MarshalAmino() (bool, error)  { return bool(r), nil }
func (r *RBool) UnmarshalAmino(x bool) error { *r = RBool(x); return nil }
func (RBool) M1()                            {}

// RErrI: an int64 with errors.
type RErrI int64

func (r RErrI) MarshalAmino() (int64, error) {
	if r == 13 {
		return 13, errors.New("RErrI refuses to marshal")
	}
	return int64(r), nil
}
func (r *RErrI) UnmarshalAmino(x int64) error {
	*r = RErrI(x)
	if x == 13 || x == 14 {
		return errors.New("RErrI refuses to unmarshal")
	}
	return nil
}
func (RErrI) M1() {}

// RErrS: a struct with errors, for zero too.
type RErrS struct{ v int32 }
type RErrSRepr struct{ V int32 }

func (r RErrS) MarshalAmino() (RErrSRepr, error) {
	if r.v == 13 {
		return RErrSRepr{13}, errors.New("RErrS refuses to marshal")
	}
	return RErrSRepr{r.v}, nil
}
func (r *RErrS) UnmarshalAmino(x RErrSRepr) error {
	r.v = x.V
	if x.V == 13 || x.V == 14 {
		return errors.New("RErrS refuses to unmarshal")
	}
	return nil
}
func (RErrS) M1() {}
func (RErrS) M2() {}

// RIfc: a struct with interfaces.
type RIfcRepr struct {
	I I1
	L []I1
	P *RErrI
}
type RIfc struct{ x RIfcRepr }

func (r RIfc) MarshalAmino() (RIfcRepr, error)  { return r.x, nil }
func (r *RIfc) UnmarshalAmino(x RIfcRepr) error { r.x = x; return nil }
func (*RIfc) M1()                               {}

// RStrs: a list represented as a list.
type RStrs []string

func (r RStrs) MarshalAmino() ([]string, error) { return append([]string(r)[:0:0], r...), nil }
func (r *RStrs) UnmarshalAmino(x []string) error {
	*r = append(RStrs(x)[:0:0], x...)
	return nil
}
func (RStrs) M1() {}

// RText: bytes represented as a string; nil when it is empty, as the string does not tell.
type RText []byte

func (r RText) MarshalAmino() (string, error)  { return string(r), nil }
func (r *RText) UnmarshalAmino(s string) error { *r = append(RText(nil), s...); return nil }
func (RText) M1()                              {}

// RMap: a map, for JSON only.
type RMap struct{ m map[string]RInt }

func (r RMap) MarshalAmino() (map[string]RInt, error)  { return r.m, nil }
func (r *RMap) UnmarshalAmino(m map[string]RInt) error { r.m = m; return nil }
func (RMap) M1()                                       {}

// RMore uses more of them.
type RMore struct {
	A RBool
	B []RBool
	C *RBool
	D RErrI
	E []RErrI
	F [2]*RErrI
	G RErrS
	H []RErrS
	I []*RErrS
	J RIfc
	K []RIfc
	L RStrs
	M *RStrs
	N RText
	O []RText
	P I2
	Q RErrI   `binary:"fixed64"`
	R []RErrI `binary:"fixed64"`
	S RErrS   `amino:"write_empty"`
	T [3]RBool
	U []*RStr
	V **RInt
}

func (RMore) M1() {}
func (RMore) M3() {}

// RHold uses them everywhere.
type RHold struct {
	A  RStr
	B  []RStr
	C  *RStr
	D  RInt
	E  []RInt
	F  *RInt
	G  RBytes
	H  []RBytes
	I  RSt
	J  []RSt
	K  []*RSt
	L  RList
	M  []RList
	N  RArr
	O  []RArr
	P  RSlice
	Q  []RSlice
	R  RNest
	S  map[string]RStr `json:"-"`
	T  I1
	U  []I1
	V  RU `binary:"fixed64"`
	W  [2]RInt
	X  [2]RStr
	Y  RMix
	Z  RErr
	AA RInt `amino:"write_empty"`
	AB *RBytes
	AC []*RBytes
}

func (RHold) M1() {}

// Map types, for JSON and DeepCopy only.
type MapKey string
type JMap struct {
	A map[string]int64
	B map[MapKey]*A1
	C map[string][]string `json:"c,omitempty"`
	D map[string]I1
	E map[string]map[string]bool
	F map[string]RStr
	G []map[string]uint8
}

func (JMap) M1() {}

func (*JMap) M2() {}

// JText makes its own JSON.
type JText struct{ S string }

func (j JText) MarshalJSON() ([]byte, error) { return json.Marshal(j.S) }
func (j *JText) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	j.S = s
	return nil
}
func (JText) M1() {}

// JOpt has fields that JSON decoding may leave as they are.
type JOpt struct {
	A int32
	B string  `json:",omitempty"`
	C []int16 `json:"c,omitempty"`
	D *int64  `json:",omitempty"`
}

// JOpts holds them in all kinds of ways.
type JOpts struct {
	L []JOpt
	P *JOpt
	M map[string]JOpt
	A [2]JOpt
	O []JOpt `json:",omitempty"`
	Q *JOpt  `json:",omitempty"`
}

// JHold has JSON options on every kind of field.
type JHold struct {
	A  bool             `json:"a,omitempty"`
	B  int64            `json:"b<>&,omitempty"`
	C  uint32           `json:",omitempty"`
	D  string           `json:"d,omitempty"`
	E  []byte           `json:"e,omitempty"`
	F  [2]byte          `json:"f,omitempty"`
	G  []int64          `json:"g,omitempty"`
	H  *int64           `json:"h,omitempty"`
	I  *[]string        `json:"i,omitempty"`
	J  time.Time        `json:"j,omitempty"`
	K  *time.Time       `json:"k,omitempty"`
	L  A2               `json:"l,omitempty"`
	M  I1               `json:"m,omitempty"`
	N  map[string]int8  `json:"n,omitempty"`
	O  float64          `json:"o,omitempty" amino:"unsafe"`
	P  []float32        `json:"p" amino:"unsafe"`
	Q  [2]A1            `json:"q,omitempty"`
	R  RInt             `json:"r,omitempty"`
	S  RBytes           `json:"s,omitempty"`
	T  JText            `json:"t,omitempty"`
	U  []JText          `json:"u"`
	V  *string          `json:"v,omitempty"`
	W  map[MapKey]I1    `json:"w"`
	X  uint             `json:"\u00e9"`
	Y  **int32          `json:"y,omitempty"`
	Z  [0]string        `json:"z,omitempty"`
	AA []A11            `json:"aa"`
	AB [2]A11           `json:"ab"`
	AC [][]int64        `json:"ac"`
	AD map[string][]int `json:"ad"`
}

func (JHold) M1()  {}
func (*JHold) M3() {}
