package main

import (
	"crypto/sha256"
	"strconv"
)

// Names whose hashes are special.
var (
	zeroNames  []string    // zero bytes where they have to be dropped
	collisions [][2]string // pairs with the same prefix bytes
)

func init() {
	seen := map[[4]byte]int{}
	const n = 500000
	buf := make([]byte, 0, 20)
	count := map[string]int{}
	for i := 0; i < n; i++ {
		buf = strconv.AppendInt(append(buf[:0], "n/"...), int64(i), 36)
		h := sha256.Sum256(buf)
		a := 0
		for h[a] == 0 {
			a++
		}
		b := a + 3
		for h[b] == 0 {
			b++
		}
		kind := strconv.Itoa(a) + "," + strconv.Itoa(b-a-3)
		if kind != "0,0" && count[kind] < 3 {
			count[kind]++
			zeroNames = append(zeroNames, string(buf))
		} else if kind == "0,0" && count["in"] < 4 && (h[1] == 0 || h[2] == 0 || h[4] == 0 || h[6] == 0) {
			count["in"]++
			zeroNames = append(zeroNames, string(buf))
		}
		p := [4]byte{h[b], h[b+1], h[b+2], h[b+3]}
		if j, ok := seen[p]; ok {
			collisions = append(collisions, [2]string{"n/" + strconv.FormatInt(int64(j), 36), string(buf)})
		} else {
			seen[p] = i
		}
	}
}
