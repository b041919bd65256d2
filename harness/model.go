package main

import (
	"bufio"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// What models get and give: an environment with more in it, and cases.

func (r *run) modelEnv(more ev) {
	var env map[string]json.RawMessage
	must(json.Unmarshal(r.u.env(), &env))
	for k, v := range more {
		bz, err := json.Marshal(v)
		must(err)
		env[k] = bz
	}
	bz, err := json.Marshal(env)
	must(err)
	must(os.WriteFile(filepath.Join(r.out, "model-env.json"), bz, 0o644))
}

// modelCases calls f with each case: its number, kind and parts.
func (r *run) modelCases(f func(i int, kind string, x []json.RawMessage)) {
	in, err := os.Open(os.Getenv("AMINO_MODEL"))
	must(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<24)
	for i := 0; sc.Scan() && !r.overtime(); i++ {
		kind, rest, _ := strings.Cut(sc.Text(), " ")
		f(i, kind, unList(json.RawMessage(rest)))
	}
	must(sc.Err())
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func unInt(m json.RawMessage) (n int) {
	must(json.Unmarshal(m, &n))
	return
}
