package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/metrics"
	"sort"
	"time"
)

// A driver runs the real code and records what it did as sessions of events.
var drivers = map[string]func(r *run){}

// run is one execution of a driver.
type run struct {
	seed  int64
	n     int // amount of work
	tier  string
	out   string
	u     *univ
	w     *bufio.Writer
	cur   *os.File
	lines int
	stats map[string]int
	samp  []string
	start time.Time
	limit time.Duration
	only  string
}

func (r *run) stat(k string) { r.stats[k]++ }

// note says what is about to be done, for when the process does not survive.
func (r *run) note(ev interface{}) {
	bz, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	r.noteBytes(bz)
}

func (r *run) noteBytes(bz []byte) {
	bz = append(bz, '\n')
	if _, err := r.cur.WriteAt(bz, 0); err != nil {
		panic(err)
	}
	_ = r.cur.Truncate(int64(len(bz)))
}

// session writes the events of a session.
func (r *run) session(evs ...interface{}) {
	bz, err := json.Marshal(evs)
	if err != nil {
		panic(err)
	}
	r.w.Write(bz)
	r.w.WriteByte('\n')
	if len(r.samp) < 5 && len(bz) < 600+r.lines*20 && r.lines%7 == 0 {
		r.samp = append(r.samp, string(bz))
	}
	r.lines++
}

func (r *run) overtime() bool { return time.Since(r.start) > r.limit }

// raw is a value for json.Marshal.
type raw = json.RawMessage

type ev map[string]interface{}

// exact is a copy without any capacity to spare: reading past its end panics.
func exact(b []byte) []byte {
	out := make([]byte, len(b))
	copy(out, b)
	return out[:len(b):len(b)]
}

func rawBytes(b []byte) raw {
	var buf bytes.Buffer
	wBytes(&buf, b)
	return buf.Bytes()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh driver [flags]")
		os.Exit(2)
	}
	name := os.Args[1]
	d, ok := drivers[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such driver", name)
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 1000, "amount of work")
	out := fs.String("out", "", "output directory")
	tier := fs.String("tier", "quick", "tier")
	only := fs.String("only", "", "the small types with these only")
	limit := fs.Int("limit", 600, "seconds after which to stop early")
	_ = fs.Parse(os.Args[2:])
	if err := os.MkdirAll(*out, 0o755); err != nil {
		panic(err)
	}
	f, err := os.Create(filepath.Join(*out, "trace.ndjson"))
	if err != nil {
		panic(err)
	}
	cur, err := os.Create(filepath.Join(*out, "current.json"))
	if err != nil {
		panic(err)
	}
	r := &run{seed: *seed, n: *n, tier: *tier, out: *out, u: newUniv(), w: bufio.NewWriterSize(f, 1<<20), cur: cur,
		stats: map[string]int{}, start: time.Now(), limit: time.Duration(*limit) * time.Second, only: *only}
	d(r)
	if err := r.w.Flush(); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(*out, "env.json"), r.u.env(), 0o644); err != nil {
		panic(err)
	}
	var keys []string
	for k := range r.stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	st, _ := json.Marshal(map[string]interface{}{"sessions": r.lines, "stats": r.stats, "samples": r.samp,
		"types": len(r.u.types), "codecs": len(r.u.codecs)})
	if err := os.WriteFile(filepath.Join(*out, "stats.json"), st, 0o644); err != nil {
		panic(err)
	}
}

//----------------------------------------
// Calls of the real code

// hangLimit is how long a single call may take.
const hangLimit = 30 * time.Second

// res is what a call did: "ok", "err" or "panic".
type res struct {
	o   string
	msg string
	al  int // KB allocated
}

// do makes a call, which must end within the limit.
func (r *run) do(f func() error) (x res) {
	t := time.AfterFunc(hangLimit, func() {
		fmt.Println("HANG")
		os.Exit(9)
	})
	defer t.Stop()
	defer func() {
		if p := recover(); p != nil {
			x = res{o: "panic", msg: fmt.Sprint(p)}
		}
	}()
	if err := f(); err != nil {
		return res{o: "err", msg: err.Error()}
	}
	return res{o: "ok"}
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// doAlloc also measures what the call allocates.
func (r *run) doAlloc(f func() error) res {
	a := allocated()
	x := r.do(f)
	x.al = int((allocated() - a) >> 10)
	return x
}
