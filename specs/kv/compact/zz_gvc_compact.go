package compact

import (
	"encoding/binary"

	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// ---- library contract of encoding/binary (assumed, executed concretely) ----

// zzUvar is the variable-length encoding of v.
//gvc:opaque
func zzUvar(v uint64) string { return string(binary.AppendUvarint(nil, v)) }

// zzUvarLen is the number of bytes binary.Uvarint consumes (not positive on failure).
//gvc:opaque
func zzUvarLen(s string) int { _, n := binary.Uvarint([]byte(s)); return n }

// zzUvarVal is the value binary.Uvarint returns.
//gvc:opaque
func zzUvarVal(s string) uint64 { v, _ := binary.Uvarint([]byte(s)); return v }

//gvc:axiom encoding/binary: an encoded varint is 1 to 10 bytes long
func zzUvarBounds(v uint64) {
	gvc.Trigger(zzUvar(v))
	gvc.Ensures("length of a varint", 1 <= len(zzUvar(v)) && len(zzUvar(v)) <= 10)
}

//gvc:axiom encoding/binary: Uvarint reads back what PutUvarint wrote, whatever follows
func zzUvarRound(v uint64, s string) {
	gvc.Trigger(zzUvar(v), zzUvarLen(s))
	gvc.Register(zzUvar(v))
	gvc.Requires(gvc.HasPrefix(s, zzUvar(v)))
	gvc.Ensures("varint round trip", zzUvarLen(s) == len(zzUvar(v)) && zzUvarVal(s) == v)
}

//gvc:axiom encoding/binary: Uvarint never consumes more than it was given
func zzUvarRead(s string) {
	gvc.Trigger(zzUvarLen(s))
	gvc.Ensures("consumed length", zzUvarLen(s) <= len(s) && zzUvarLen(s) <= 10 && -11 <= zzUvarLen(s))
}

//gvc:spec std:encoding/binary.PutUvarint
func zzSpecPutUvarint(buf []byte, v uint64) int {
	e := zzUvar(v)
	gvc.Requires(len(buf) >= len(e))
	copy(buf, e)
	return len(e)
}

//gvc:spec std:encoding/binary.Uvarint
func zzSpecUvarint(buf []byte) (uint64, int) {
	s := string(buf)
	return zzUvarVal(s), zzUvarLen(s)
}

// zzVar is the encoding of a signed integer.
func zzVar(v int64) string {
	u := uint64(v) << 1
	if v < 0 {
		u = ^u
	}
	return zzUvar(u)
}

// ---- contracts ----

//gvc:prove C04
//gvc:uses zzUvarBounds
func zzEncodeUvarint(b []byte, v uint64) {
	b0 := string(b)
	r := EncodeUvarint(b, v)
	gvc.Ensures("EncodeUvarint appends the varint", string(r) == b0+zzUvar(v))
	gvc.Ensures("EncodeUvarint does not change the existing bytes", string(b) == b0)
}

//gvc:prove C04
//gvc:uses zzUvarBounds
func zzEncodeVarint(b []byte, v int64) {
	b0 := string(b)
	r := EncodeVarint(b, v)
	gvc.Ensures("EncodeVarint appends the varint", string(r) == b0+zzVar(v))
	gvc.Ensures("EncodeVarint does not change the existing bytes", string(b) == b0)
}

//gvc:prove C04
//gvc:uses zzUvarBounds zzUvarRound zzUvarRead
func zzVarintRound(b []byte, v int64, u uint64, rest string) {
	b0 := string(b)
	r := append(EncodeVarint(b, v), rest...)
	left, w, err := DecodeVarint(r[len(b0):])
	gvc.Ensures("DecodeVarint accepts every encoding", err == nil)
	gvc.Ensures("DecodeVarint returns the encoded integer", w == v)
	gvc.Ensures("DecodeVarint returns the bytes after the encoding", string(left) == rest)
}

//gvc:prove C04
//gvc:uses zzUvarBounds zzUvarRound zzUvarRead
func zzUvarintRound(b []byte, u uint64, rest string) {
	b0 := string(b)
	r2 := append(EncodeUvarint(b, u), rest...)
	left, w, err := DecodeUvarint(r2[len(b0):])
	gvc.Ensures("DecodeUvarint accepts every encoding", err == nil)
	gvc.Ensures("DecodeUvarint returns the encoded integer", w == u)
	gvc.Ensures("DecodeUvarint returns the bytes after the encoding", string(left) == rest)
}

//gvc:prove C04
//gvc:uses zzUvarBounds
func zzEncodeBytes(b, data []byte) {
	b0, d0 := string(b), string(data)
	r := EncodeBytes(b, data)
	gvc.Ensures("EncodeBytes appends length and data", string(r) == b0+zzVar(int64(len(d0)))+d0)
	gvc.Ensures("EncodeBytes does not change data", string(data) == d0)
	gvc.Ensures("EncodeBytes does not change the existing bytes", string(b) == b0)
}

//gvc:prove C04
//gvc:uses zzUvarBounds zzUvarRound zzUvarRead
func zzBytesRound(b, data []byte, rest string) {
	b0, d0 := string(b), string(data)
	r := append(EncodeBytes(b, data), rest...)
	left, d, err := DecodeBytes(r[len(b0):])
	gvc.Ensures("DecodeBytes accepts every encoding", err == nil)
	gvc.Ensures("DecodeBytes returns the encoded bytes", string(d) == d0)
	gvc.Ensures("DecodeBytes returns the bytes after the encoding", string(left) == rest)
}

// Arbitrary input: no panic, and what is returned is part of the input.
//gvc:prove C04
//gvc:uses zzUvarRead
func zzDecodeAny(in []byte) {
	in0 := string(in)
	gvc.Register(zzVar(-1))
	gvc.Register(zzVar(5))
	left, v, err := DecodeVarint(in)
	gvc.Ensures("DecodeVarint consumes at least one byte or fails", err != nil || len(left) < len(in) && string(left) == gvc.Sub(in0, len(in)-len(left), len(in)))
	gvc.Ensures("a failed DecodeVarint returns nothing", err == nil || v == 0 && len(left) == 0)
	left2, u, err := DecodeUvarint(in)
	gvc.Ensures("DecodeUvarint consumes at least one byte or fails", err != nil || len(left2) < len(in) && string(left2) == gvc.Sub(in0, len(in)-len(left2), len(in)))
	gvc.Ensures("a failed DecodeUvarint returns nothing", err == nil || u == 0 && len(left2) == 0)
	left3, d, err := DecodeBytes(in)
	gvc.Ensures("DecodeBytes returns a part of the input followed by the rest", err != nil || len(d)+len(left3) < len(in) && string(d)+string(left3) == gvc.Sub(in0, len(in)-len(d)-len(left3), len(in)))
	gvc.Ensures("input is unchanged", string(in) == in0)
}
