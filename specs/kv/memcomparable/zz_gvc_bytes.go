package memcomparable

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// ---- mathematical description of the encoding ----

// zzEncByte is byte p of the encoding of s.
func zzEncByte(s string, p int) byte {
	g, r := p/9, p%9
	if r < 8 {
		if 8*g+r < len(s) {
			return gvc.At(s, 8*g+r)
		}
		return 0
	}
	if len(s)-8*g >= 8 {
		return 255
	}
	return byte(247 + len(s) - 8*g)
}

// zzEncLen is the length of the encoding.
func zzEncLen(s string) int { return 9 * (len(s)/8 + 1) }

// zzEnc is the encoding of s.
//gvc:opaque
func zzEnc(s string) string {
	var out []byte
	n := zzEncLen(s)
	for p := 0; p < n; p++ {
		out = append(out, zzEncByte(s, p))
	}
	return string(out)
}

// zzEncDesc is the descending encoding of s.
//gvc:opaque
func zzEncDesc(s string) string {
	var out []byte
	n := zzEncLen(s)
	for p := 0; p < n; p++ {
		out = append(out, 255-zzEncByte(s, p))
	}
	return string(out)
}

//gvc:def
//gvc:prove C01 C02
//gvc:inline zzEnc
func zzEncDef(s string) {
	gvc.Trigger(zzEnc(s))
	gvc.Loop(func(out []byte, p int) bool {
		return p == len(out) && gvc.Forall(0, len(out), func(q int) bool { return out[q] == zzEncByte(s, q) })
	})
	e := zzEnc(s)
	gvc.Ensures("length of the encoding", len(e) == zzEncLen(s))
	gvc.Ensures("bytes of the encoding", gvc.Forall(0, zzEncLen(s), func(p int) bool { return gvc.At(e, p) == zzEncByte(s, p) }))
}

//gvc:def
//gvc:prove C01 C02
//gvc:inline zzEncDesc
func zzEncDescDef(s string) {
	gvc.Trigger(zzEncDesc(s))
	gvc.Loop(func(out []byte, p int) bool {
		return p == len(out) && gvc.Forall(0, len(out), func(q int) bool { return out[q] == 255-zzEncByte(s, q) })
	})
	e := zzEncDesc(s)
	gvc.Ensures("length of the encoding", len(e) == zzEncLen(s))
	gvc.Ensures("bytes of the encoding", gvc.Forall(0, zzEncLen(s), func(p int) bool { return gvc.At(e, p) == 255-zzEncByte(s, p) }))
}

// zzInv is s with every bit inverted.
//gvc:opaque
func zzInv(s string) string {
	var out []byte
	for p := 0; p < len(s); p++ {
		out = append(out, 255-s[p])
	}
	return string(out)
}

//gvc:def
//gvc:prove C01 C02
//gvc:inline zzInv
func zzInvDef(s string) {
	gvc.Trigger(zzInv(s))
	gvc.Loop(func(out []byte, p int) bool {
		return p == len(out) && gvc.Forall(0, len(out), func(q int) bool { return out[q] == 255-gvc.At(s, q) })
	})
	e := zzInv(s)
	gvc.Ensures("length of the inverse", len(e) == len(s))
	gvc.Ensures("bytes of the inverse", gvc.Forall(0, len(s), func(p int) bool { return gvc.At(e, p) == 255-gvc.At(s, p) }))
}

//gvc:prove C01 C02
//gvc:proves reverseBytes
//gvc:uses zzInvDef
func zzReverseBytes(b []byte) {
	b0 := string(b)
	gvc.Loop(func(b []byte, i int) bool {
		return gvc.Forall(0, len(b), func(q int) bool {
			return q < 8*i && b[q] == 255-gvc.At(gvc.Entry(b), q) || q >= 8*i && b[q] == gvc.At(gvc.Entry(b), q)
		})
	})
	gvc.Loop(func(b []byte, w, i int) bool {
		return gvc.Forall(0, len(b), func(q int) bool {
			return (q < 8*w || q >= i) && b[q] == gvc.At(gvc.Entry(b), q) || q >= 8*w && q < i && b[q] == 255-gvc.At(gvc.Entry(b), q)
		})
	})
	reverseBytes(b)
	gvc.Ensures("every bit is inverted", string(b) == zzInv(b0))
}

// ---- contracts of the encoder ----

//gvc:prove C01 C02
//gvc:proves EncodeBytes
//gvc:uses zzEncDef
func zzEncodeBytes(b, data []byte) {
	b0, d0 := string(b), string(data)
	gvc.Loop(func(idx int) bool { return idx%8 == 0 })
	gvc.Loop(func(idx int) bool { return idx <= 8*(len(d0)/8+1) })
	gvc.Loop(func(result []byte, idx int) bool { return len(result) == len(b0)+9*(idx/8) })
	gvc.Loop(func(result []byte) bool { return gvc.HasPrefix(string(result), b0) })
	gvc.Loop(func(result []byte, idx int) bool {
		return gvc.Forall(0, 9*(idx/8), func(p int) bool { return result[len(b0)+p] == zzEncByte(d0, p) })
	})
	r := EncodeBytes(b, data)
	gvc.Ensures("EncodeBytes appends exactly the encoding of data", string(r) == b0+zzEnc(d0))
	gvc.Ensures("EncodeBytes does not change data", string(data) == d0)
	gvc.Ensures("EncodeBytes does not change the existing bytes", string(b) == b0)
}

//gvc:prove C01
//gvc:inline DecodeBytes
//gvc:uses zzEncDef
func zzDecodeBytes(in, buf []byte, d string) {
	gvc.Register(zzEnc(d))
	in0 := string(in)
	gvc.Requires(gvc.HasPrefix(in0, zzEnc(d)))
	gvc.Loop(func(b, buf []byte) bool {
		k := len(buf) / 8
		return len(buf)%8 == 0 && len(buf) <= len(d) && len(b) == len(in0)-9*k && string(b) == gvc.Sub(in0, 9*k, len(in0)) && string(buf) == gvc.Sub(d, 0, len(buf))
	})
	left, data, err := DecodeBytes(in, buf)
	gvc.Ensures("DecodeBytes accepts every encoding", err == nil)
	gvc.Ensures("DecodeBytes returns the encoded bytes", string(data) == d)
	gvc.Ensures("DecodeBytes returns the bytes after the encoding", string(left) == gvc.Sub(in0, zzEncLen(d), len(in0)))
}

// Canonical acceptance: whatever DecodeBytes accepts is exactly the encoding of what it returns, followed by the leftover.
//gvc:prove C01
//gvc:inline DecodeBytes
//gvc:uses zzEncDef
func zzDecodeBytesAny(in, buf []byte) {
	in0 := string(in)
	gvc.Loop(func(b, buf []byte) bool {
		k := len(buf) / 8
		return len(buf)%8 == 0 && len(b) == len(in0)-9*k && string(b) == gvc.Sub(in0, 9*k, len(in0)) &&
			gvc.Forall(0, 9*k, func(p int) bool {
				return p%9 < 8 && gvc.At(in0, p) == buf[8*(p/9)+p%9] || p%9 == 8 && gvc.At(in0, p) == 255
			})
	})
	left, data, err := DecodeBytes(in, buf)
	gvc.Ensures("input is unchanged", string(in) == in0)
	if err == nil {
		d := string(data)
		e := zzEnc(d)
		gvc.Ensures("accepted input has the length of the encoding", len(in0) == zzEncLen(d)+len(left))
		gvc.Ensures("accepted input starts with the encoding of the result", gvc.Forall(0, zzEncLen(d), func(p int) bool { return gvc.At(in0, p) == zzEncByte(d, p) }))
		gvc.Ensures("accepted input agrees with the encoding of the result", gvc.Forall(0, zzEncLen(d), func(p int) bool { return gvc.At(in0, p) == gvc.At(e, p) }))
		gvc.Ensures("accepted input ends with the leftover", string(left) == gvc.Sub(in0, zzEncLen(d), len(in0)))
		gvc.Ensures("accepted input is the encoding of the result", in0 == e+string(left))
	}
}

//gvc:prove C01 C02
//gvc:proves EncodeBytesDesc
//gvc:uses zzEncDef zzEncDescDef zzInvDef
func zzEncodeBytesDesc(b, data []byte) {
	b0, d0 := string(b), string(data)
	r := EncodeBytesDesc(b, data)
	gvc.Ensures("EncodeBytesDesc appends exactly the descending encoding of data", string(r) == b0+zzEncDesc(d0))
	gvc.Ensures("EncodeBytesDesc does not change data", string(data) == d0)
	gvc.Ensures("EncodeBytesDesc does not change the existing bytes", string(b) == b0)
}

//gvc:prove C01
//gvc:uses zzEncDescDef zzInvDef
func zzDecodeBytesDesc(in, buf []byte, d string) {
	gvc.Register(zzEncDesc(d))
	in0 := string(in)
	gvc.Requires(gvc.HasPrefix(in0, zzEncDesc(d)))
	gvc.Loop(func(b, buf []byte) bool {
		k := len(buf) / 8
		return len(buf)%8 == 0 && len(buf) <= len(d) && len(b) == len(in0)-9*k && string(b) == gvc.Sub(in0, 9*k, len(in0)) && gvc.Forall(0, len(buf), func(i int) bool { return buf[i] == 255-gvc.At(d, i) })
	})
	left, data, err := DecodeBytesDesc(in, buf)
	gvc.Ensures("DecodeBytesDesc accepts every descending encoding", err == nil)
	gvc.Ensures("DecodeBytesDesc returns the encoded bytes", string(data) == d)
	gvc.Ensures("DecodeBytesDesc returns the bytes after the encoding", string(left) == gvc.Sub(in0, zzEncLen(d), len(in0)))
}
