package main

import (
	"bytes"
	"errors"
	"io"
	"reflect"

	pkgerrors "github.com/pkg/errors"
)

func init() {
	drivers["stream"] = driveStream
	drivers["limit"] = driveLimit
}

var errFail = errors.New("the stream fails")

// chunkReader gives out bytes as it likes.
type chunkReader struct {
	g    *gen
	bz   []byte
	at   int
	end  error
	mode int // 0 anything, 1 single bytes, 2 all there is
	late bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	left := len(c.bz) - c.at
	if left == 0 {
		return 0, c.end
	}
	n := len(p)
	if n > left {
		n = left
	}
	switch c.mode {
	case 0:
		if c.g.oneIn(4) {
			return 0, nil
		}
		if m := 1 + c.g.Intn(n); c.g.oneIn(2) {
			n = m
		}
	case 1:
		n = 1
	}
	copy(p, c.bz[c.at:c.at+n])
	// What is beyond n is scratch space.
	for i := n; i < len(p) && i < n+3; i++ {
		p[i] = 0xee
	}
	c.at += n
	if c.at == len(c.bz) && c.late {
		return n, c.end // the error comes with the last bytes
	}
	return n, nil
}

// failWriter takes so many bytes, then fails.
type failWriter struct {
	buf  bytes.Buffer
	room int // -1: endless
}

func (f *failWriter) Write(p []byte) (int, error) {
	if f.room < 0 || len(p) <= f.room {
		f.buf.Write(p)
		if f.room >= 0 {
			f.room -= len(p)
		}
		return len(p), nil
	}
	n := f.room
	f.buf.Write(p[:n])
	f.room = 0
	return n, errFail
}

// errClass says which error it is.
func errClass(x res, err error) string {
	if x.o != "err" {
		return x.o
	}
	for _, e := range []error{err, pkgerrors.Cause(err)} {
		if e == io.EOF {
			return "eof"
		}
		if errors.Is(e, errFail) {
			return "fail"
		}
	}
	return "err"
}

// readEvent reads a message, perhaps into a populated target.
func (b *binCase) readEvent(r *run, cr *chunkReader, rt reflect.Type, max int64) ev {
	g := b.g
	p := reflect.New(rt)
	if g.oneIn(6) {
		g.budget, g.c = 10, b.c
		g.fill(p.Elem(), 2)
	}
	return b.readInto(r, cr, &cr.at, p, max)
}

func (b *binCase) readInto(r *run, rd io.Reader, at *int, p reflect.Value, max int64) ev {
	rt := p.Type().Elem()
	e := ev{"op": "read", "c": b.c.id, "t": r.u.t(rt), "max": rawBytes(le(uint64(max), 8)), "tv": r.u.proj(p.Elem()),
		"o": "", "n": 0, "v": raw("0"), "at": 0, "al": 0, "m": ""}
	r.note(e)
	var n int64
	var err error
	x := r.doAlloc(func() error {
		n, err = b.c.cdc.UnmarshalBinaryLengthPrefixedReader(rd, p.Interface(), max)
		return err
	})
	e["o"], e["m"], e["n"], e["at"], e["al"] = errClass(x, err), x.msg, int(n), *at, x.al
	if x.o == "ok" {
		e["v"] = r.u.proj(p.Elem())
	}
	r.stat("read " + e["o"].(string))
	return e
}

// driveStream writes messages to a stream and reads them back.
func driveStream(r *run) {
	b := newBinCase(r)
	g := b.g
	for i := 0; i < r.n && !r.overtime(); i++ {
		var evs []interface{}
		var stream []byte
		var rts []reflect.Type
		var ends []int
		k := g.Intn(6)
		for j := 0; j < k; j++ {
			rv := b.next()
			fw := &failWriter{room: -1}
			if g.oneIn(8) {
				fw.room = g.Intn(12)
			}
			e := ev{"op": "write", "c": b.c.id, "t": r.u.t(b.rt), "v": r.u.proj(rv), "room": fw.room, "o": "", "n": 0, "b": raw("[]")}
			r.note(e)
			room := fw.room
			var n int64
			var err error
			x := r.do(func() error { n, err = b.c.cdc.MarshalBinaryLengthPrefixedWriter(fw, rv.Interface()); return err })
			e["o"], e["n"], e["b"] = errClass(x, err), int(n), rawBytes(fw.buf.Bytes())
			evs = append(evs, e)
			r.stat("write " + e["o"].(string))
			if x.o == "ok" {
				stream = append(stream, fw.buf.Bytes()...)
				rts = append(rts, b.rt)
				ends = append(ends, len(stream))
			}
			_ = room
			if b.n%200 == 0 {
				break // another codec comes
			}
		}
		cr := &chunkReader{g: g, bz: stream, end: io.EOF, mode: g.Intn(4), late: g.oneIn(3)}
		switch g.Intn(4) {
		case 0: // truncated
			if len(stream) > 0 {
				cr.bz = stream[:g.Intn(len(stream))]
			}
		case 1:
			cr.bz = g.mutate(stream)
		}
		end := "eof"
		if g.oneIn(4) {
			end, cr.end = "fail", errFail
		}
		evs = append(evs, ev{"op": "stream", "b": rawBytes(cr.bz), "end": end})
		if b.c == nil {
			continue
		}
		prev := 0
		for j := 0; j < len(rts)+2; j++ {
			rt := reflect.TypeOf(A1{})
			max := int64(0)
			if j < len(rts) {
				rt = rts[j]
				if g.oneIn(2) {
					max = int64(ends[j] - prev)
					if g.oneIn(2) {
						max += int64(g.Intn(200))
					}
				}
				prev = ends[j]
			}
			e := b.readEvent(r, cr, rt, max)
			evs = append(evs, e)
		}
		r.session(evs...)
	}
}

// driveLimit reads single messages with prefixes and limits of all kinds.
func driveLimit(r *run) {
	b := newBinCase(r)
	g := b.g
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.next()
		bz, err := encode(b.c, rv, false)
		if err != nil || g.oneIn(10) {
			bz = make([]byte, g.Intn(20))
		}
		var pre []byte
		switch g.Intn(8) {
		case 0: // never ends
			pre = bytes.Repeat([]byte{0x80 | byte(g.Intn(128))}, 1+g.Intn(14))
		case 1: // about 64 bits
			for len(pre) < 9 {
				pre = append(pre, 0x80|byte(g.Intn(128)))
			}
			pre = append(pre, byte(g.Intn(4)))
		case 2: // not minimal, perhaps too long
			pre = minimal(uint64(len(bz)))
			for k := g.Intn(11); k > 0; k-- {
				pre[len(pre)-1] |= 0x80
				pre = append(pre, 0)
			}
		case 3: // huge
			pre = minimal(uint64(1)<<uint(20+g.Intn(44)) - uint64(g.Intn(2)))
		case 4: // somewhat more than there is
			pre = minimal(uint64(len(bz) + g.Intn(4)))
		default:
			pre = minimal(uint64(len(bz)))
		}
		var max int64
		switch g.Intn(7) {
		case 0:
		case 1:
			max = int64(1 + g.Intn(12))
		case 2:
			max = int64(1) << uint(g.Intn(63))
		case 3:
			max = 1<<63 - 1
		default:
			max = int64(len(pre)+len(bz)) + int64(g.Intn(5)) - 2
			if max < 0 {
				max = 0
			}
		}
		stream := append(pre, bz...)
		if g.oneIn(3) {
			stream = append(stream, bytes.Repeat([]byte{1, 0}, g.Intn(20))...)
		}
		cr := &chunkReader{g: g, bz: stream, end: io.EOF, mode: g.Intn(4), late: g.oneIn(3)}
		end := "eof"
		if g.oneIn(4) {
			end, cr.end = "fail", errFail
		}
		evs := []interface{}{ev{"op": "stream", "b": rawBytes(stream), "end": end}, b.readEvent(r, cr, b.rt, max)}
		if g.oneIn(3) {
			evs = append(evs, b.readEvent(r, cr, b.rt, max))
		}
		r.session(evs...)
	}
}

func minimal(x uint64) []byte {
	var out []byte
	for x >= 0x80 {
		out = append(out, byte(x)|0x80)
		x >>= 7
	}
	return append(out, byte(x))
}
