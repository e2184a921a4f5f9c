package numeric

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

//gvc:prove C06
func zzBinary(v uint64, buf []byte) {
	b0 := string(buf)
	r := Encode2Binary(v, buf)
	gvc.Ensures("Encode2Binary appends eight big-endian bytes", string(r) == b0+gvc.BE64(v))
	gvc.Ensures("Encode2Binary does not change the existing bytes", string(buf) == b0)
	w, err := DecodeFromBinary(r[len(b0):])
	gvc.Ensures("DecodeFromBinary reads the value back", err == nil && w == v)
}

//gvc:prove C06
func zzBinaryAny(in []byte) {
	in0 := string(in)
	w, err := DecodeFromBinary(in)
	gvc.Ensures("DecodeFromBinary accepts exactly the encodings", (err == nil) == (len(in) == 8) && gvc.Implies(err == nil, gvc.BE64(w) == in0))
	gvc.Ensures("a failed DecodeFromBinary returns zero", err == nil || w == 0)
}

//gvc:prove C06
func zzHuman(v int64) {
	r := Encode2Human(v)
	w, err := DecodeFromHuman(r)
	gvc.Ensures("DecodeFromHuman reads the value back", err == nil && w == v)
	_, err = DecodeFromHuman(nil)
	gvc.Ensures("DecodeFromHuman rejects nil", err != nil)
}
