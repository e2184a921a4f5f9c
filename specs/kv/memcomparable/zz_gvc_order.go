package memcomparable

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// The encoding preserves the lexicographic order.
//gvc:lemma
//gvc:prove C02
//gvc:uses zzEncDef
func zzEncOrder(s, t string) {
	gvc.Trigger(gvc.Cmp(zzEnc(s), zzEnc(t)))
	gvc.Requires(gvc.Cmp(s, t) < 0)
	x, y := zzEnc(s), zzEnc(t)
	f := gvc.FirstDiff(s, t)
	g := f / 8
	d := gvc.FirstDiff(x, y)
	gvc.Lemma(9*g+8 < len(x) && 9*g+8 < len(y))
	gvc.Lemma(gvc.Forall(0, 9*g, func(p int) bool { return gvc.At(x, p) == gvc.At(y, p) }))
	gvc.Lemma(gvc.At(x, d) != gvc.At(y, d) || d == len(x) || d == len(y))
	gvc.Lemma(d >= 9*g)
	gvc.Lemma(gvc.Implies(f == len(s), gvc.At(x, 9*g+8) < gvc.At(y, 9*g+8)))
	gvc.Lemma(gvc.Implies(f < len(s), gvc.At(x, 9*g+f%8) < gvc.At(y, 9*g+f%8)))
	gvc.Lemma(d <= 9*g+8)
	gvc.Ensures("encodings of different byte strings differ before the end of either", d < len(x) && d < len(y) && gvc.At(x, d) < gvc.At(y, d))
	gvc.Ensures("a smaller byte string has a smaller encoding", gvc.Cmp(x, y) < 0)
}

// The descending encoding inverts it.
//gvc:lemma
//gvc:prove C02
//gvc:uses zzEncDef zzEncDescDef zzEncOrder
func zzEncDescOrder(s, t string) {
	gvc.Trigger(gvc.Cmp(zzEncDesc(s), zzEncDesc(t)))
	gvc.Requires(gvc.Cmp(s, t) < 0)
	x, y := zzEnc(s), zzEnc(t)
	u, v := zzEncDesc(s), zzEncDesc(t)
	gvc.Lemma(gvc.Cmp(x, y) < 0)
	d := gvc.FirstDiff(x, y)
	gvc.Lemma(d < len(x) && d < len(y) && gvc.At(x, d) < gvc.At(y, d))
	gvc.Lemma(gvc.Forall(0, len(x), func(p int) bool { return gvc.At(u, p) == 255-gvc.At(x, p) }))
	gvc.Lemma(gvc.Forall(0, len(y), func(p int) bool { return gvc.At(v, p) == 255-gvc.At(y, p) }))
	gvc.Lemma(len(u) == len(x) && len(v) == len(y))
	gvc.Lemma(gvc.At(u, d) > gvc.At(v, d))
	gvc.Lemma(gvc.Forall(0, d, func(p int) bool { return gvc.At(u, p) == gvc.At(v, p) }))
	gvc.Lemma(gvc.FirstDiff(u, v) == d)
	gvc.Ensures("descending encodings of different byte strings differ before the end of either", gvc.FirstDiff(u, v) < len(u) && gvc.FirstDiff(u, v) < len(v))
	gvc.Ensures("a smaller byte string has a larger descending encoding", gvc.Cmp(u, v) > 0)
}

// Encodings stay ordered when followed by further data, so concatenated keys order by their first component.
//gvc:prove C02
//gvc:uses zzEncOrder
func zzEncOrderConcat(s, t, a, b string) {
	gvc.Requires(gvc.Cmp(s, t) < 0)
	x, y := zzEnc(s), zzEnc(t)
	gvc.Lemma(gvc.Cmp(x, y) < 0)
	d := gvc.FirstDiff(x, y)
	u, v := x+a, y+b
	gvc.Lemma(gvc.Forall(0, d, func(p int) bool { return gvc.At(u, p) == gvc.At(v, p) }))
	gvc.Lemma(gvc.At(u, d) == gvc.At(x, d) && gvc.At(v, d) == gvc.At(y, d))
	gvc.Lemma(gvc.FirstDiff(u, v) == d)
	gvc.Ensures("longer keys order by the first encoded component", gvc.Cmp(u, v) < 0)
	gvc.Ensures("no encoding is a prefix of another one", !gvc.HasPrefix(u, y) && !gvc.HasPrefix(v, x))
}

// The order of the keys the encoder really produces, whatever is appended to them.
//gvc:prove C02
//gvc:uses zzEncOrder
func zzKeyOrder(b1, b2, s, t []byte, a, b string) {
	p, q := string(b1), string(b2)
	s0, t0 := string(s), string(t)
	gvc.Requires(gvc.Cmp(s0, t0) < 0)
	u := gvc.Sub(string(EncodeBytes(b1, s)), len(p), len(p)+len(zzEnc(s0)))
	v := gvc.Sub(string(EncodeBytes(b2, t)), len(q), len(q)+len(zzEnc(t0)))
	gvc.Ensures("a smaller byte string has a smaller encoding", gvc.Cmp(u, v) < 0)
	gvc.Lemma(u == zzEnc(s0) && v == zzEnc(t0))
	d := gvc.FirstDiff(u, v)
	u2, v2 := u+a, v+b
	gvc.Lemma(gvc.Forall(0, d, func(p int) bool { return gvc.At(u2, p) == gvc.At(v2, p) }))
	gvc.Lemma(gvc.At(u2, d) == gvc.At(u, d) && gvc.At(v2, d) == gvc.At(v, d))
	gvc.Lemma(gvc.FirstDiff(u2, v2) == d)
	gvc.Ensures("longer keys order by the first encoded component", gvc.Cmp(u2, v2) < 0)
	gvc.Ensures("no encoding is a prefix of another one", !gvc.HasPrefix(u2, v) && !gvc.HasPrefix(v2, u))
}

// The same, descending.
//gvc:prove C02
//gvc:uses zzEncDescOrder zzEncDef zzEncDescDef
func zzKeyOrderDesc(b1, b2, s, t []byte, a, b string) {
	p, q := string(b1), string(b2)
	s0, t0 := string(s), string(t)
	gvc.Requires(gvc.Cmp(s0, t0) < 0)
	u := gvc.Sub(string(EncodeBytesDesc(b1, s)), len(p), len(p)+len(zzEncDesc(s0)))
	v := gvc.Sub(string(EncodeBytesDesc(b2, t)), len(q), len(q)+len(zzEncDesc(t0)))
	gvc.Lemma(u == zzEncDesc(s0) && v == zzEncDesc(t0))
	gvc.Ensures("a smaller byte string has a larger descending encoding", gvc.Cmp(u, v) > 0)
	d := gvc.FirstDiff(u, v)
	gvc.Ensures("neither descending encoding is a prefix of the other", d < len(u) && d < len(v))
	u2, v2 := u+a, v+b
	gvc.Lemma(gvc.Forall(0, d, func(p int) bool { return gvc.At(u2, p) == gvc.At(v2, p) }))
	gvc.Lemma(gvc.At(u2, d) == gvc.At(u, d) && gvc.At(v2, d) == gvc.At(v, d))
	gvc.Lemma(gvc.FirstDiff(u2, v2) == d)
	gvc.Ensures("longer descending keys order by the first encoded component", gvc.Cmp(u2, v2) > 0)
}
