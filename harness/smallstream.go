package main

import (
	"encoding/json"
	"io"
	"reflect"
)

// Short streams with all the ways to get them, which the specification
// enumerates (ModelStream.tla).

func init() {
	drivers["streamenv"] = driveStreamEnv
	drivers["small-read"] = driveSmallRead
}

func streamTargets() []reflect.Type {
	return []reflect.Type{strct(ty(uint8(0)), ``, false), ty([]byte{}), ty(uint(0)), strct(ty([]byte{}), ``, false)}
}

func driveStreamEnv(r *run) {
	c := r.u.newCodec(nil, nil)
	type target struct {
		C int `json:"c"`
		T int `json:"t"`
	}
	var ts []target
	for _, rt := range streamTargets() {
		ts = append(ts, target{c.id, r.u.t(rt)})
	}
	r.modelEnv(ev{"targets": ts})
}

// pieceReader gives out what it has in such pieces.
type pieceReader struct {
	chunkReader
	pieces []int
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(p.pieces) == 0 {
		return p.chunkReader.Read(b)
	}
	n := p.pieces[0]
	if n > len(b) {
		p.pieces[0] -= len(b)
		n = len(b)
	} else {
		p.pieces = p.pieces[1:]
	}
	if n == 0 {
		return 0, nil
	}
	return p.chunkReader.Read(b[:n])
}

func driveSmallRead(r *run) {
	c := r.u.newCodec(nil, nil)
	g := newGen(r.seed, r.u)
	b := &binCase{g: g, c: c}
	r.modelCases(func(i int, _ string, x []json.RawMessage) {
		var ti, max int
		var pieces []int
		var end string
		for k, p := range map[int]interface{}{0: &ti, 2: &end, 3: &max, 4: &pieces} {
			must(json.Unmarshal(x[k], p))
		}
		bz := unBytes(x[1])
		rt := streamTargets()[ti-1]
		cr := &pieceReader{chunkReader{g: g, bz: bz, end: io.EOF, mode: 2, late: i%3 == 0}, pieces}
		if end == "fail" {
			cr.end = errFail
		}
		evs := []interface{}{ev{"op": "stream", "b": rawBytes(bz), "end": end}}
		for k := 0; k < 2; k++ {
			evs = append(evs, b.readInto(r, cr, &cr.at, reflect.New(rt), int64(max)))
		}
		r.session(evs...)
	})
}
