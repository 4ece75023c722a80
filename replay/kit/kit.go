// Package zzverif is the support package of the replay harness. It is added to
// a module by a build overlay only; it is never part of the repository.
package zzverif

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

// H records what one harness test covered and the inputs on which the real
// code disagreed with the executable form of the contract.
type H struct {
	T     *testing.T
	R     *rand.Rand
	n     int
	evals int64
	seen  map[uint64]bool
	rule  string
	bound string
	fails int
}

// New starts a harness test.
func New(t *testing.T, rule, bound string) *H {
	log.SetOutput(io.Discard)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("VERIF_N"))
	if n <= 0 {
		n = 1
	}
	h := &H{T: t, R: rand.New(rand.NewSource(seed + 7)), n: n, seen: map[uint64]bool{}, rule: rule, bound: bound}
	t.Cleanup(func() {
		b, _ := json.Marshal(map[string]interface{}{"evaluations": h.evals, "distinct_nontrivial": len(h.seen), "rule": rule, "bound": bound})
		fmt.Printf("\nREPLAY-STAT %s %s\n", t.Name(), b)
	})
	return h
}

// N scales an iteration count by the requested effort.
func (h *H) N(base int) int { return base * h.n }

// Case counts one evaluated input.
func (h *H) Case(desc string) {
	h.evals++
	f := fnv.New64a()
	f.Write([]byte(desc))
	h.seen[f.Sum64()] = true
}

// Casef counts one evaluated input.
func (h *H) Casef(format string, a ...interface{}) { h.Case(fmt.Sprintf(format, a...)) }

// Fail reports a concrete failing input.
func (h *H) Fail(format string, a ...interface{}) {
	s := strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " ")
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Printf("\nREPLAY-FAIL %s %s\n", h.T.Name(), s)
	h.T.Fail()
	h.fails++
	if h.fails >= 3 {
		h.T.FailNow()
	}
}

// Check reports the input when the condition does not hold.
func (h *H) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		h.Fail(format, a...)
	}
}

// NoPanic runs f and reports the input when it panics; it returns false then.
func (h *H) NoPanic(desc string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			h.Fail("panic %v on %s", r, desc)
			ok = false
		}
	}()
	f()
	return true
}

// Bytes returns n random bytes.
func (h *H) Bytes(n int) []byte {
	b := make([]byte, n)
	h.R.Read(b)
	return b
}

// U64 returns a boundary-biased uint64.
func (h *H) U64() uint64 {
	switch h.R.Intn(6) {
	case 0:
		return uint64(h.R.Intn(4))
	case 1:
		return ^uint64(0) - uint64(h.R.Intn(4))
	case 2:
		return uint64(1)<<63 - 2 + uint64(h.R.Intn(5))
	case 3:
		return uint64(1) << uint(h.R.Intn(64))
	case 4:
		return uint64(h.R.Intn(1000))
	}
	return h.R.Uint64()
}
