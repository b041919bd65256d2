package main

import (
	"encoding/json"
	"reflect"
)

// All short histories of some registrations and other calls, which the
// specification enumerates (ModelRegistry.tla).

func init() {
	drivers["regenv"] = driveRegEnv
	drivers["histories"] = driveHistories
}

// HoldI has interfaces.
type HoldI struct {
	I I1
	J I2
	L []I1
}

type regOp struct {
	Op   string  `json:"op"`
	T    int     `json:"t"`
	Alw  int     `json:"alw"`
	Prio [][]int `json:"prio"`
	N    int     `json:"n"`
	Ptr  int     `json:"ptr"`
	Dyn  []int   `json:"dyn"`

	i regIf
	k regCon
	v interface{} // what is encoded or decoded into
	b []byte
}

// regOps are the operations of histories: registrations with names that have
// the same prefix, and, for each focus, other calls.
func regOps(u *univ, focus string) []regOp {
	var out []regOp
	x, y := collisions[0][0], collisions[0][1]
	i2 := reflect.TypeOf((*I2)(nil)).Elem()
	for _, i := range []regIf{{i1Type, false, nil}, {i1Type, false, []string{x, y}}, {i1Type, true, []string{y}}, {i2, false, []string{x}},
		{i2, true, []string{y, x}}} {
		out = append(out, regOp{Op: "regif", T: u.t(i.rt), Alw: b2i(i.alw), Prio: prioJSON(i.prio), Dyn: []int{}, i: i})
	}
	for _, k := range []regCon{{ty(A1{}), x, false}, {ty(A1{}), y, true}, {ty(A3{}), y, true}, {ty(A3{}), x, false}, {ty(A5(0)), y, false},
		{ty(A5(0)), zeroNames[0], true}} {
		out = append(out, regOp{Op: "regcon", T: u.t(k.rt), N: u.name(k.name), Ptr: b2i(k.ptr), Prio: [][]int{}, Dyn: []int{}, k: k})
	}
	use := func(op string, v interface{}, b []byte, dyn ...interface{}) {
		o := regOp{Op: op, Prio: [][]int{}, Dyn: []int{}, v: v, b: b}
		if v != nil {
			o.T = u.t(ty(v))
		}
		for _, d := range dyn {
			o.Dyn = append(o.Dyn, u.t(ty(d)))
		}
		out = append(out, o)
	}
	switch focus {
	case "conflict":
		use("enc", HoldI{I: &A1{5}}, nil, A1{})
		use("dec", HoldI{}, []byte{10, 4, 1, 2, 3, 4})
		use("enc", A3{N: 3}, nil)
	case "seal":
		use("seal", nil, nil)
		use("enc", HoldI{J: A1{5}}, nil, A1{})
		use("dec", A1{}, []byte{8, 3})
	case "list":
		use("seal", nil, nil)
		use("print", nil, nil)
		use("enc", []A1{{5}}, nil)
	case "fail":
		use("bad", nil, nil, A1{}, A3{}, A25{})
		use("bad", nil, []byte{1}, A1{}, A3{}, A25{})
		use("enc", HoldI{L: []I1{A5(3)}}, nil, A5(0))
	default:
		panic("harness: no such focus")
	}
	return out
}

func driveRegEnv(r *run) {
	r.u.newCodec(nil, nil)
	ops := regOps(r.u, r.only)
	for _, p := range histProbes() {
		r.u.t(ty(p))
	}
	r.modelEnv(ev{"ops": ops})
}

func histProbes() []interface{} {
	return []interface{}{A1{5}, &A3{N: 7}, A5(9), HoldI{I: A1{1}}, HoldI{I: &A3{N: 2}, J: &A1{3}}, HoldI{J: A5(4), L: []I1{A5(1), &A1{2}, nil}},
		HoldI{I: &A1{}}}
}

func driveHistories(r *run) {
	r.u.newCodec(nil, nil)
	ops := regOps(r.u, r.only)
	ids := map[string]int{}
	done := map[string]bool{}
	g := newGen(r.seed, r.u)
	r.modelCases(func(_ int, _ string, x []json.RawMessage) {
		var h []int
		key := ""
		for _, m := range x {
			h = append(h, unInt(m))
			key += string(m) + " "
		}
		if done[key] {
			return // another outcome
		}
		done[key] = true
		s := &regSession{r: r, g: g, focus: "fail", ids: ids, c: &codec{cdc: newCodec()}}
		s.snap()
		s.add(ev{"op": "new"})
		for _, q := range h {
			o := ops[q-1]
			switch o.Op {
			case "regif":
				s.doRegIf(o.i)
			case "regcon":
				s.doRegCon(o.k)
			case "seal":
				s.seal()
			case "print":
				s.doPrint(-1)
			case "enc":
				s.doEnc(s.c, reflect.ValueOf(o.v), false, false)
			case "dec":
				s.doDec(s.c, ty(o.v), o.b, false, false)
			case "bad":
				k := (r.lines*7 + q*len(failures)/2) % len(failures)
				s.doFail(failures[k].name, failures[k].f)
			}
		}
		for i, p := range histProbes() {
			if bz := s.doEnc(s.c, reflect.ValueOf(p), i%3 == 1, false); bz != nil {
				s.doDec(s.c, baseType(ty(p)), bz, i%3 == 1, false)
			}
		}
		s.doPrint(-1)
		r.session(s.evs...)
	})
}
