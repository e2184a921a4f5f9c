package memcomparable

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// Fixed-width big-endian words compare like the numbers they hold.
//gvc:lemma
//gvc:prove C03
func zzBE64Order(a, b uint64) {
	gvc.Trigger(gvc.Cmp(gvc.BE64(a), gvc.BE64(b)))
	x, y := gvc.BE64(a), gvc.BE64(b)
	d := gvc.FirstDiff(x, y)
	gvc.Ensures("word order below", gvc.Implies(gvc.Cmp(x, y) < 0, a < b))
	gvc.Ensures("word order above", gvc.Implies(gvc.Cmp(x, y) > 0, a > b))
	gvc.Ensures("word order equal", gvc.Implies(gvc.Cmp(x, y) == 0, a == b))
	_ = d
}

//gvc:prove C03
func zzUint64(b []byte, v uint64) {
	b0 := string(b)
	r := EncodeUint64(b, v)
	gvc.Ensures("EncodeUint64 appends 8 bytes after the existing ones", len(r) == len(b0)+8 && gvc.HasPrefix(string(r), b0))
	left, w, err := DecodeUint64(r[len(b0):])
	gvc.Ensures("DecodeUint64 inverts EncodeUint64", err == nil && w == v && len(left) == 0)
	gvc.Ensures("EncodeUint64 does not change the existing bytes", string(b) == b0)
}

//gvc:prove C03
func zzUint64Desc(b []byte, v uint64) {
	b0 := string(b)
	r := EncodeUint64Desc(b, v)
	gvc.Ensures("EncodeUint64Desc appends 8 bytes after the existing ones", len(r) == len(b0)+8 && gvc.HasPrefix(string(r), b0))
	left, w, err := DecodeUint64Desc(r[len(b0):])
	gvc.Ensures("DecodeUint64Desc inverts EncodeUint64Desc", err == nil && w == v && len(left) == 0)
}

//gvc:prove C03
func zzInt64(b []byte, v int64) {
	b0 := string(b)
	r := EncodeInt64(b, v)
	gvc.Ensures("EncodeInt64 appends 8 bytes after the existing ones", len(r) == len(b0)+8 && gvc.HasPrefix(string(r), b0))
	left, w, err := DecodeInt64(r[len(b0):])
	gvc.Ensures("DecodeInt64 inverts EncodeInt64", err == nil && w == v && len(left) == 0)
}

//gvc:prove C03
func zzInt64Desc(b []byte, v int64) {
	b0 := string(b)
	r := EncodeInt64Desc(b, v)
	gvc.Ensures("EncodeInt64Desc appends 8 bytes after the existing ones", len(r) == len(b0)+8 && gvc.HasPrefix(string(r), b0))
	left, w, err := DecodeInt64Desc(r[len(b0):])
	gvc.Ensures("DecodeInt64Desc inverts EncodeInt64Desc", err == nil && w == v && len(left) == 0)
}

//gvc:prove C03
func zzUint8(b []byte, v uint8) {
	b0 := string(b)
	r := EncodeUint8(b, v)
	gvc.Ensures("EncodeUint8 appends one byte after the existing ones", len(r) == len(b0)+1 && gvc.HasPrefix(string(r), b0))
	left, w, err := DecodeUint8(r[len(b0):])
	gvc.Ensures("DecodeUint8 inverts EncodeUint8", err == nil && w == v && len(left) == 0)
	q := EncodeUint8Desc(nil, v)
	left, w, err = DecodeUint8Desc(q)
	gvc.Ensures("DecodeUint8Desc inverts EncodeUint8Desc", err == nil && w == v && len(left) == 0 && len(q) == 1)
}

//gvc:prove C03
func zzFloat64(b []byte, v float64) {
	gvc.Requires(v == v) // not a NaN
	b0 := string(b)
	r := EncodeFloat64(b, v)
	gvc.Ensures("EncodeFloat64 appends 8 bytes after the existing ones", len(r) == len(b0)+8 && gvc.HasPrefix(string(r), b0))
	left, w, err := DecodeFloat64(r[len(b0):])
	gvc.Ensures("DecodeFloat64 inverts EncodeFloat64", err == nil && w == v && len(left) == 0)
}

//gvc:prove C03
func zzFloat64Desc(b []byte, v float64) {
	gvc.Requires(v == v)
	b0 := string(b)
	r := EncodeFloat64Desc(b, v)
	gvc.Ensures("EncodeFloat64Desc appends 8 bytes after the existing ones", len(r) == len(b0)+8 && gvc.HasPrefix(string(r), b0))
	left, w, err := DecodeFloat64Desc(r[len(b0):])
	gvc.Ensures("DecodeFloat64Desc inverts EncodeFloat64Desc", err == nil && w == v && len(left) == 0)
}

// The decoders accept exactly the inputs of sufficient length, keep the rest and never panic.
//gvc:prove C03
func zzDecodeNumbers(in []byte) {
	in0 := string(in)
	l1, v1, e1 := DecodeUint64(in)
	gvc.Ensures("DecodeUint64 fails exactly on short input", (e1 != nil) == (len(in0) < 8))
	if e1 == nil {
		gvc.Ensures("DecodeUint64 consumes 8 bytes", string(l1) == gvc.Sub(in0, 8, len(in0)) && gvc.BE64(v1) == gvc.Sub(in0, 0, 8))
	}
	l2, _, e2 := DecodeInt64(in)
	gvc.Ensures("DecodeInt64 fails exactly on short input", (e2 != nil) == (len(in0) < 8))
	l3, _, e3 := DecodeUint64Desc(in)
	gvc.Ensures("DecodeUint64Desc fails exactly on short input", (e3 != nil) == (len(in0) < 8))
	l4, _, e4 := DecodeInt64Desc(in)
	gvc.Ensures("DecodeInt64Desc fails exactly on short input", (e4 != nil) == (len(in0) < 8))
	l5, _, e5 := DecodeFloat64(in)
	gvc.Ensures("DecodeFloat64 fails exactly on short input", (e5 != nil) == (len(in0) < 8))
	l6, _, e6 := DecodeFloat64Desc(in)
	gvc.Ensures("DecodeFloat64Desc fails exactly on short input", (e6 != nil) == (len(in0) < 8))
	if e2 == nil && e3 == nil && e4 == nil && e5 == nil && e6 == nil {
		r := gvc.Sub(in0, 8, len(in0))
		gvc.Ensures("the number decoders keep the rest", string(l2) == r && string(l3) == r && string(l4) == r && string(l5) == r && string(l6) == r)
	}
	l7, v7, e7 := DecodeUint8(in)
	gvc.Ensures("DecodeUint8 fails exactly on empty input", (e7 != nil) == (len(in0) == 0))
	l8, _, e8 := DecodeUint8Desc(in)
	gvc.Ensures("DecodeUint8Desc fails exactly on empty input", (e8 != nil) == (len(in0) == 0))
	if e7 == nil && e8 == nil {
		r := gvc.Sub(in0, 1, len(in0))
		gvc.Ensures("the uint8 decoders keep the rest", string(l7) == r && string(l8) == r && v7 == gvc.At(in0, 0))
	}
	gvc.Ensures("decoding does not change the input", string(in) == in0)
}

//gvc:prove C03
//gvc:uses zzBE64Order
func zzOrderUint64(a, b uint64) {
	x, y := string(EncodeUint64(nil, a)), string(EncodeUint64(nil, b))
	gvc.Ensures("uint64 encodings order like the values", (gvc.Cmp(x, y) < 0) == (a < b) && (gvc.Cmp(x, y) == 0) == (a == b))
	x, y = string(EncodeUint64Desc(nil, a)), string(EncodeUint64Desc(nil, b))
	gvc.Ensures("descending uint64 encodings order inversely", (gvc.Cmp(x, y) < 0) == (a > b) && (gvc.Cmp(x, y) == 0) == (a == b))
}

//gvc:prove C03
//gvc:uses zzBE64Order
func zzOrderInt64(a, b int64) {
	x, y := string(EncodeInt64(nil, a)), string(EncodeInt64(nil, b))
	gvc.Ensures("int64 encodings order like the values", (gvc.Cmp(x, y) < 0) == (a < b) && (gvc.Cmp(x, y) == 0) == (a == b))
	x, y = string(EncodeInt64Desc(nil, a)), string(EncodeInt64Desc(nil, b))
	gvc.Ensures("descending int64 encodings order inversely", (gvc.Cmp(x, y) < 0) == (a > b) && (gvc.Cmp(x, y) == 0) == (a == b))
}

//gvc:prove C03
func zzOrderUint8(a, b uint8) {
	x, y := string(EncodeUint8(nil, a)), string(EncodeUint8(nil, b))
	gvc.Ensures("uint8 encodings order like the values", (gvc.Cmp(x, y) < 0) == (a < b) && (gvc.Cmp(x, y) == 0) == (a == b))
	x, y = string(EncodeUint8Desc(nil, a)), string(EncodeUint8Desc(nil, b))
	gvc.Ensures("descending uint8 encodings order inversely", (gvc.Cmp(x, y) < 0) == (a > b) && (gvc.Cmp(x, y) == 0) == (a == b))
}

//gvc:prove C03
//gvc:uses zzBE64Order
func zzOrderFloat64(a, b float64) {
	gvc.Requires(a == a && b == b)
	x, y := string(EncodeFloat64(nil, a)), string(EncodeFloat64(nil, b))
	gvc.Ensures("float64 encodings order like the values", gvc.Implies(a < b, gvc.Cmp(x, y) < 0) && gvc.Implies(gvc.Cmp(x, y) < 0, a <= b))
	x, y = string(EncodeFloat64Desc(nil, a)), string(EncodeFloat64Desc(nil, b))
	gvc.Ensures("descending float64 encodings order inversely", gvc.Implies(a < b, gvc.Cmp(x, y) > 0) && gvc.Implies(gvc.Cmp(x, y) > 0, a <= b))
}
