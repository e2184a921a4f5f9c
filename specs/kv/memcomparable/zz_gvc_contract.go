package memcomparable

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// ---- contracts used by callers in place of the bodies ----

//gvc:spec EncodeBytes
func zzContractEncodeBytes(b, data []byte) []byte { return append(b, zzEnc(string(data))...) }

//gvc:spec EncodeBytesDesc
func zzContractEncodeBytesDesc(b, data []byte) []byte { return append(b, zzEncDesc(string(data))...) }

//gvc:spec reverseBytes
func zzContractReverseBytes(b []byte) { copy(b, zzInv(string(b))) }

// zzDec is the byte string whose encoding s starts with, if any.
//gvc:opaque
func zzDec(s string) string { _, d, _ := DecodeBytes([]byte(s), nil); return string(d) }

// zzDecOK tells whether s starts with an encoding.
func zzDecOK(s string) bool { return gvc.HasPrefix(s, zzEnc(zzDec(s))) }

// What is decoded is what was encoded.
//gvc:lemma
//gvc:prove C01
//gvc:inline zzDec DecodeBytes
//gvc:uses zzEncDef
func zzDecIntro(s, d string) {
	gvc.Trigger(zzDec(s), zzEnc(d))
	gvc.Register(zzEnc(d))
	gvc.Requires(gvc.HasPrefix(s, zzEnc(d)))
	gvc.Loop(func(b, buf []byte) bool {
		k := len(buf) / 8
		return len(buf)%8 == 0 && len(buf) <= len(d) && len(b) == len(s)-9*k && string(b) == gvc.Sub(s, 9*k, len(s)) && string(buf) == gvc.Sub(d, 0, len(buf))
	})
	gvc.Ensures("an encoding decodes to what was encoded", zzDec(s) == d)
}

//gvc:spec DecodeBytes
func zzContractDecodeBytes(b, buf []byte) (left, data []byte, err error) {
	gvc.Requires(len(buf) == 0 && cap(buf) == 0)
	s := string(b)
	if !zzDecOK(s) {
		err = gvc.AnyError("decode")
		gvc.Ensures("", err != nil)
		return
	}
	d := zzDec(s)
	left = b[len(zzEnc(d)):]
	data = []byte(d)
	return
}

//gvc:prove C01
//gvc:proves DecodeBytes
//gvc:inline DecodeBytes
//gvc:uses zzEncDef zzDecIntro
func zzDecodeBytesContract(in []byte) {
	s := string(in)
	ok := zzDecOK(s)
	d := zzDec(s)
	if ok {
		gvc.Loop(func(b, buf []byte) bool {
			k := len(buf) / 8
			return len(buf)%8 == 0 && len(buf) <= len(d) && len(b) == len(s)-9*k && string(b) == gvc.Sub(s, 9*k, len(s)) && string(buf) == gvc.Sub(d, 0, len(buf))
		})
	} else {
		gvc.Loop(func(b, buf []byte) bool {
			k := len(buf) / 8
			return len(buf)%8 == 0 && len(b) == len(s)-9*k && string(b) == gvc.Sub(s, 9*k, len(s)) &&
				gvc.Forall(0, 9*k, func(p int) bool {
					return p%9 < 8 && gvc.At(s, p) == buf[8*(p/9)+p%9] || p%9 == 8 && gvc.At(s, p) == 255
				})
		})
	}
	left, data, err := DecodeBytes(in, nil)
	if err == nil {
		x := string(data)
		e := zzEnc(x)
		gvc.Lemma(len(s) == zzEncLen(x)+len(left))
		gvc.Lemma(gvc.Forall(0, zzEncLen(x), func(p int) bool { return gvc.At(s, p) == zzEncByte(x, p) }))
		gvc.Lemma(gvc.Forall(0, zzEncLen(x), func(p int) bool { return gvc.At(s, p) == gvc.At(e, p) }))
		gvc.Lemma(gvc.HasPrefix(s, e))
		gvc.Lemma(zzDec(s) == x)
	}
	gvc.Ensures("DecodeBytes succeeds only on encodings", err != nil || ok)
	gvc.Ensures("DecodeBytes succeeds on every encoding", !ok || err == nil)
	gvc.Ensures("DecodeBytes returns the decoded bytes", !ok || string(data) == d)
	gvc.Ensures("DecodeBytes returns the rest", !ok || string(left) == gvc.Sub(s, len(zzEnc(d)), len(s)))
}

// ZZEnc is the encoding, for the contracts of other packages.
func ZZEnc(s string) string { return zzEnc(s) }

// ZZDec is the byte string whose encoding s starts with.
func ZZDec(s string) string { return zzDec(s) }

// ZZDecOK tells whether s starts with an encoding.
func ZZDecOK(s string) bool { return zzDecOK(s) }

//gvc:lemma
//gvc:prove C01
//gvc:uses zzDecIntro
func zzDecSelf(d string) {
	gvc.Trigger(zzEnc(d))
	gvc.Lemma(gvc.HasPrefix(zzEnc(d), zzEnc(d)))
	gvc.Ensures("an encoding decodes to what was encoded", zzDec(zzEnc(d)) == d)
}
