// Package zzgvc is the contract vocabulary of the govc verifier. The verifier gives every function here a
// logical meaning; this file gives the same functions an executable meaning, so that the contracts can also
// be evaluated on concrete inputs against the compiled code.
package zzgvc

import (
	"bytes"
	"fmt"
	"sort"
)

// Skip is panicked when a precondition does not hold for a concrete input.
type Skip struct{}

// Failure is panicked when a contract is violated on a concrete input.
type Failure struct{ Label string }

// Symbolic is true only inside the verifier.
func Symbolic() bool { return false }

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Assume is an unproved assumption (listed in the evidence).
func Assume(why string, c bool) {
	if !c {
		panic(Skip{})
	}
}

// Ensures states a postcondition.
func Ensures(label string, c bool) {
	if !c {
		panic(Failure{label})
	}
}

// Assert is an intermediate assertion: proved, then available.
func Assert(label string, c bool) {
	if !c {
		panic(Failure{label})
	}
}

// Lemma introduces a fact that the verifier proves at this point and may use afterwards.
func Lemma(c bool) {
	if !c {
		panic(Failure{"lemma"})
	}
}

// Hint mentions terms to the solver.
func Hint(xs ...interface{}) {}

// AtEntry is the value of f when the loop an invariant belongs to was entered.
func AtEntry(f func() int64) int64 { return f() }

// Forall over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Implies is logical implication; both sides are evaluated.
func Implies(a, b bool) bool { return !a || b }

// Imp is implication with a lazily evaluated conclusion.
func Imp(a bool, f func() bool) bool { return !a || f() }

// At is s[i], 0 when out of range.
func At(s string, i int) byte {
	if i < 0 || i >= len(s) {
		return 0
	}
	return s[i]
}

// Sub is s[lo:hi]; empty when out of range.
func Sub(s string, lo, hi int) string {
	if lo < 0 || hi < lo || hi > len(s) {
		return ""
	}
	return s[lo:hi]
}

// Cmp is the lexicographic order on byte strings.
func Cmp(a, b string) int { return bytes.Compare([]byte(a), []byte(b)) }

// FirstDiff is the length of the longest common prefix.
func FirstDiff(a, b string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// HasPrefix tells whether s begins with p.
func HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// BE64 is the 8-byte big-endian encoding.
func BE64(v uint64) string {
	return string([]byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}

// Byte is the one-byte string.
func Byte(b byte) string { return string([]byte{b}) }

// Trigger declares the pattern of an axiom or lemma function.
func Trigger(xs ...interface{}) {}

// Loop gives a loop invariant template: its parameters are bound to the variables of the loop.
func Loop(f interface{}) {}

// NoLoops forgets the loop templates given so far.
func NoLoops() {}

// Unroll makes the following loops be unrolled n times with an unwinding obligation.
func Unroll(n int) {}

// Visited says whether the innermost range over a map has visited a key (loop invariants only).
func Visited(key interface{}) bool { return true }

// NonNil assumes that a map or slice, and the maps and slices in it, hold no nil pointers.
func NonNil(m interface{}) {}

// Copy is an independent copy of what a pointer points to (contracts only).
func Copy(p interface{}) interface{} { return p }

// Guard declares the fields a lock protects and the invariant that holds whenever the lock is free.
func Guard(mu interface{}, inv func() bool, fields ...interface{}) {}

// Retain marks byte slices as retained by the callee: they must not be modified afterwards.
func Retain(bs ...[]byte) {
	for _, b := range bs {
		retained = append(retained, retainedSlice{b, string(b)})
	}
}

type retainedSlice struct {
	b []byte
	s string
}

var retained []retainedSlice

// CheckRetained verifies that no retained slice changed (called by the concrete runner).
func CheckRetained() {
	for _, r := range retained {
		if string(r.b) != r.s {
			retained = nil
			panic(Failure{"no write to retained or shared bytes"})
		}
	}
	retained = nil
}

// AnyBool, AnyInt... are arbitrary values.
func AnyBool(hint string) bool     { return Cur.Bool() }
func AnyInt64(hint string) int64   { return Cur.Int64() }
func AnyInt(hint string) int       { return int(Cur.Int64()) }
func AnyUint64(hint string) uint64 { return uint64(Cur.Int64()) }
func AnyString(hint string) string { return Cur.Str() }
func AnyError(hint string) error   { return Cur.Err() }
func AnyBytes(hint string) []byte  { return []byte(Cur.Str()) }

// Fault is an arbitrary injected failure: nil, or an opaque error distinct from every package-level error.
func Fault(hint string) error {
	if Cur.FaultRate > 0 && Cur.R.Intn(100) < Cur.FaultRate {
		return fmt.Errorf("injected fault %s %d", hint, Cur.R.Intn(1000))
	}
	return nil
}

// ---------- ghost map ----------

// Map is an immutable map from byte strings to byte strings.
type Map struct{ m map[string]string }

// Has tells whether k is present.
func (m Map) Has(k string) bool { _, ok := m.m[k]; return ok }

// Get is the value of k, "" when absent.
func (m Map) Get(k string) string { return m.m[k] }

// Put is m with k set to v.
func (m Map) Put(k, v string) Map {
	n := make(map[string]string, len(m.m)+1)
	for a, b := range m.m {
		n[a] = b
	}
	n[k] = v
	return Map{n}
}

// Del is m without k.
func (m Map) Del(k string) Map {
	n := make(map[string]string, len(m.m))
	for a, b := range m.m {
		if a != k {
			n[a] = b
		}
	}
	return Map{n}
}

// AnyMap is an arbitrary map.
func AnyMap(hint string) Map { return Map{Cur.Map()} }

// NewMap is the empty map.
func NewMap() Map { return Map{} }

// ForKeys tells whether f holds for every byte string; concretely for every key of the maps and the extra keys.
func ForKeys(ms []Map, extra []string, f func(k string) bool) bool {
	for _, m := range ms {
		for k := range m.m {
			if !f(k) {
				return false
			}
		}
	}
	for _, k := range extra {
		if !f(k) {
			return false
		}
	}
	return true
}

// Keys lists keys in order.
func (m Map) Keys() []string {
	var ks []string
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Same: both maps agree on every key.
func Same(a, b Map) bool {
	if len(a.m) != len(b.m) {
		return false
	}
	for k, v := range a.m {
		if w, ok := b.m[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// Entry is the content of a byte slice when the loop was entered (loop invariants only).
func Entry(b []byte) string { return string(b) }

// CopyOf is a private slice holding s; it may be nil when s is empty.
func CopyOf(s string) []byte {
	if s == "" && Cur.Bool() {
		return nil
	}
	return []byte(s)
}

// Scratch is memory holding s that is lent to a callback.
func Scratch(s string) []byte { return []byte(s) }

// Scramble overwrites memory that was lent.
func Scramble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] = 0xA5
		}
	}
}

// ScanKeys lists the keys of m with the prefix in scan order from the offset (inclusive).
func ScanKeys(m Map, prefix, offset string, hasOffset, reverse bool) []string {
	var out []string
	for _, k := range m.Keys() {
		if !HasPrefix(k, prefix) || hasOffset && (!reverse && k < offset || reverse && k > offset) {
			continue
		}
		out = append(out, k)
	}
	if reverse {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	lastScan = out
	return out
}

var lastScan []string

// ScanPos is the position of k in the last scan; -1 when it was not visited.
func ScanPos(k string) int {
	for i, s := range lastScan {
		if s == k {
			return i
		}
	}
	return -1
}

// ScanAt is the i-th key of the last scan; "" out of range.
func ScanAt(i int) string {
	if i < 0 || i >= len(lastScan) {
		return ""
	}
	return lastScan[i]
}

// ScanLen is the number of keys of the last scan.
func ScanLen() int { return len(lastScan) }

// Int is 1 when c holds, 0 otherwise.
func Int(c bool) int {
	if c {
		return 1
	}
	return 0
}
