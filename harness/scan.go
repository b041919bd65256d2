package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
)

func init() { drivers["scan"] = driveScan }

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// tool runs aminoscan: its exit code and what it prints without colours.
func tool(args ...string) (int, string) {
	path := os.Getenv("AMINOSCAN")
	if path == "" {
		panic("harness: no AMINOSCAN")
	}
	cmd := exec.Command(path, args...)
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	t := time.AfterFunc(hangLimit, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic("harness: " + err.Error())
		}
	}
	return cmd.ProcessState.ExitCode(), ansi.ReplaceAllString(out.String(), "")
}

func driveScan(r *run) {
	b := newBinCase(r)
	b.g.big = 1 << 30
	for i := 0; i < r.n && !r.overtime(); i++ {
		rv := b.next()
		rt := b.rt
		for rt.Kind() == reflect.Ptr {
			rt = rt.Elem()
		}
		if rt.Kind() != reflect.Struct || rt == timeType || reprOf(rt) != nil {
			continue
		}
		e := ev{"op": "walk", "c": b.c.id, "t": r.u.t(b.rt), "v": r.u.proj(rv), "o": "", "b": raw("[]")}
		r.note(e)
		var bz []byte
		x := r.do(func() (err error) { bz, err = encode(b.c, rv, false); return })
		e["o"] = x.o
		r.stat(x.o)
		if x.o == "ok" {
			e["b"] = rawBytes(bz)
		}
		evs := []interface{}{e}
		if x.o == "ok" && i%6 == 0 {
			for _, reg := range b.c.cons {
				if reg.rt == rt && len(bz) >= 4 {
					bz = bz[4:]
					break
				}
			}
			evs = append(evs, r.scan(bz))
			if sub := b.g.contents(bz); sub != nil {
				evs = append(evs, r.scan(sub))
			}
			m := append([]byte{}, bz...)
			for n := 1 + b.g.Intn(2); n > 0; n-- {
				m = b.g.mutate(m)
			}
			evs = append(evs, r.scan(m), r.scan(b.g.wild()))
			if b.g.oneIn(4) && len(m) > 0 {
				evs = append(evs, r.colour(m))
			}
		}
		r.session(evs...)
	}
}

// contents is what is in one of the byte-length fields.
func (g *gen) contents(bz []byte) (sub []byte) {
	for seen := 1; len(bz) > 0; {
		key, n := binary.Uvarint(bz)
		if n <= 0 {
			return
		}
		bz = bz[n:]
		switch key & 7 {
		case 0:
			_, n = binary.Uvarint(bz)
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			l, m := binary.Uvarint(bz)
			if m <= 0 || l > uint64(len(bz)-m) {
				return
			}
			n = m + int(l)
			if l > 0 && g.Intn(seen) == 0 {
				sub = bz[m:n]
			}
			seen++
		default:
			return
		}
		if n <= 0 || n > len(bz) {
			return
		}
		bz = bz[n:]
	}
	return
}

// wild is a sequence of odd fields.
func (g *gen) wild() (bz []byte) {
	for n := g.Intn(5); n > 0; n-- {
		num := uint64(g.Intn(20))
		switch g.Intn(12) {
		case 0:
			num = 1 << uint(g.Intn(61))
		case 1:
			num = 1<<29 - 1 + uint64(g.Intn(2))
		}
		typ := uint64([]int{0, 1, 2, 5, 0, 1, 2, 5, 3, 4, 6, 7}[g.Intn(12)])
		if g.oneIn(2) {
			typ &= 2
		}
		bz = append(bz, g.uvarint(num<<3|typ)...)
		switch typ {
		case 0:
			bz = append(bz, g.uvarint(uint64(g.int64()))...)
		case 1:
			bz = append(bz, g.bytes(8)...)
		case 5:
			bz = append(bz, g.bytes(4)...)
		case 2:
			l := uint64(g.Intn(9))
			if g.oneIn(12) {
				l = 1 << uint(g.Intn(64))
			}
			bz = append(bz, g.uvarint(l)...)
			if l > 40 {
				l = 40
			}
			bz = append(bz, g.bytes(int(l))...)
		}
	}
	if g.oneIn(6) && len(bz) > 0 {
		bz = bz[:g.Intn(len(bz))]
	}
	return bz
}

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

var lastLine = regexp.MustCompile(`^([0-9A-F]*) (-?[0-9]+) (.*)$`)

func (r *run) scan(bz []byte) ev {
	e := ev{"op": "scan", "b": rawBytes(bz), "code": 0, "lines": []raw{}, "tail": raw("[]"), "n": 0, "err": 0}
	r.note(e)
	code, out := tool(hex.EncodeToString(bz))
	e["code"] = code
	if code != 0 {
		r.stat("crash")
		return e
	}
	// What is between the headings.
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	body := []raw{}
	for _, l := range lines[:len(lines)-1] {
		if !strings.HasPrefix(l, "##") {
			body = append(body, rawBytes([]byte(strings.TrimSpace(l))))
		}
	}
	e["lines"] = body
	if m := lastLine.FindStringSubmatch(lines[len(lines)-1]); m != nil {
		n, _ := strconv.Atoi(m[2])
		e["tail"], e["n"], e["err"] = rawBytes([]byte(m[1])), n, b2i(m[3] != "<nil>")
	}
	r.stat([]string{"scanned", "malformed"}[e["err"].(int)])
	return e
}

func (r *run) colour(bz []byte) ev {
	e := ev{"op": "colour", "b": rawBytes(bz), "code": 0, "out": raw("[]")}
	r.note(e)
	code, out := tool("--color", hex.EncodeToString(bz))
	e["code"], e["out"] = code, rawBytes([]byte(strings.TrimSuffix(out, "\n")))
	r.stat("colour")
	return e
}

func (r *run) concrete(name string) ev {
	e := ev{"op": "concrete", "n": ints(name), "code": 0, "lines": []raw{}}
	r.note(e)
	code, out := tool("--concrete-name=" + name)
	e["code"] = code
	body := []raw{}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		body = append(body, rawBytes([]byte(l)))
	}
	e["lines"] = body
	r.stat("concrete")
	return e
}
