package structure

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// ---- the key space ----

// ZZSK, ZZHM, ZZHK, ZZLM, ZZLK: the keys of a string, of a hash and its fields, of a list and its elements.
//gvc:opaque
func ZZSK(p, k string) string { return p + memcomparable.ZZEnc(k) + "s" }

//gvc:opaque
func ZZHM(p, k string) string { return p + memcomparable.ZZEnc(k) + "H" }

// ZZHP is the prefix of the fields of a hash.
//gvc:opaque
func ZZHP(p, k string) string { return p + memcomparable.ZZEnc(k) + "h" }

//gvc:opaque
func ZZHK(p, k, f string) string { return p + memcomparable.ZZEnc(k) + "h" + memcomparable.ZZEnc(f) }

//gvc:opaque
func ZZLM(p, k string) string { return p + memcomparable.ZZEnc(k) + "L" }

//gvc:opaque
func ZZLK(p, k string, i int64) string {
	return p + memcomparable.ZZEnc(k) + "l" + gvc.BE64(uint64(i)^0x8000000000000000)
}

// ZZName, ZZTag and ZZRest take a key apart.
//gvc:opaque
func ZZName(p, s string) string { return memcomparable.ZZDec(gvc.Sub(s, len(p), len(s))) }

//gvc:opaque
func ZZTag(p, s string) byte { return gvc.At(s, len(p)+len(memcomparable.ZZEnc(ZZName(p, s)))) }

//gvc:opaque
func ZZRest(p, s string) string {
	return gvc.Sub(s, len(p)+len(memcomparable.ZZEnc(ZZName(p, s)))+1, len(s))
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZSK ZZName ZZTag ZZRest
//gvc:uses kv/memcomparable.zzDecIntro
func zzInvSK(p, k string) {
	gvc.Trigger(ZZSK(p, k))
	s := ZZSK(p, k)
	gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, len(p), len(s)), memcomparable.ZZEnc(k)))
	gvc.Ensures("a string key names its string", ZZName(p, s) == k && ZZTag(p, s) == 's' && ZZRest(p, s) == "")
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZHM ZZName ZZTag ZZRest
//gvc:uses kv/memcomparable.zzDecIntro
func zzInvHM(p, k string) {
	gvc.Trigger(ZZHM(p, k))
	s := ZZHM(p, k)
	gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, len(p), len(s)), memcomparable.ZZEnc(k)))
	gvc.Ensures("a hash key names its hash", ZZName(p, s) == k && ZZTag(p, s) == 'H' && ZZRest(p, s) == "")
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZHK ZZName ZZTag ZZRest
//gvc:uses kv/memcomparable.zzDecIntro
func zzInvHK(p, k, f string) {
	gvc.Trigger(ZZHK(p, k, f))
	s := ZZHK(p, k, f)
	gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, len(p), len(s)), memcomparable.ZZEnc(k)))
	gvc.Ensures("a field key names its hash and field", ZZName(p, s) == k && ZZTag(p, s) == 'h' && ZZRest(p, s) == memcomparable.ZZEnc(f))
	gvc.Lemma(gvc.HasPrefix(ZZRest(p, s), memcomparable.ZZEnc(f)))
	gvc.Ensures("a field key names its field", memcomparable.ZZDec(ZZRest(p, s)) == f)
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZLM ZZName ZZTag ZZRest
//gvc:uses kv/memcomparable.zzDecIntro
func zzInvLM(p, k string) {
	gvc.Trigger(ZZLM(p, k))
	s := ZZLM(p, k)
	gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, len(p), len(s)), memcomparable.ZZEnc(k)))
	gvc.Ensures("a list key names its list", ZZName(p, s) == k && ZZTag(p, s) == 'L' && ZZRest(p, s) == "")
}

// ZZIdx is the index whose encoding s is.
func ZZIdx(s string) int64 {
	return int64((uint64(gvc.At(s, 0))<<56 | uint64(gvc.At(s, 1))<<48 | uint64(gvc.At(s, 2))<<40 | uint64(gvc.At(s, 3))<<32 |
		uint64(gvc.At(s, 4))<<24 | uint64(gvc.At(s, 5))<<16 | uint64(gvc.At(s, 6))<<8 | uint64(gvc.At(s, 7))) ^ 0x8000000000000000)
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZLK ZZName ZZTag ZZRest
//gvc:uses kv/memcomparable.zzDecIntro
func zzInvLK(p, k string, i int64) {
	gvc.Trigger(ZZLK(p, k, i))
	s := ZZLK(p, k, i)
	gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, len(p), len(s)), memcomparable.ZZEnc(k)))
	gvc.Ensures("an element key names its list", ZZName(p, s) == k && ZZTag(p, s) == 'l')
	gvc.Ensures("an element key names its index", ZZIdx(ZZRest(p, s)) == i)
}

// ---- contracts of the key functions ----

//gvc:spec (*TxStructure).encodeStringDataKey
func zzContractSK(t *TxStructure, key []byte) kv.Key { return []byte(ZZSK(string(t.prefix), string(key))) }

//gvc:spec (*TxStructure).encodeHashMetaKey
func zzContractHM(t *TxStructure, key []byte) kv.Key { return []byte(ZZHM(string(t.prefix), string(key))) }

//gvc:spec (*TxStructure).hashDataKeyPrefix
func zzContractHP(t *TxStructure, key []byte) kv.Key { return []byte(ZZHP(string(t.prefix), string(key))) }

//gvc:spec (*TxStructure).encodeHashDataKey
func zzContractHK(t *TxStructure, key []byte, field []byte) kv.Key {
	return []byte(ZZHK(string(t.prefix), string(key), string(field)))
}

//gvc:spec (*TxStructure).encodeListMetaKey
func zzContractLM(t *TxStructure, key []byte) kv.Key { return []byte(ZZLM(string(t.prefix), string(key))) }

//gvc:spec (*TxStructure).encodeListDataKey
func zzContractLK(t *TxStructure, key []byte, index int64) kv.Key {
	return []byte(ZZLK(string(t.prefix), string(key), index))
}

//gvc:prove C07
//gvc:proves (*TxStructure).encodeStringDataKey (*TxStructure).encodeHashMetaKey (*TxStructure).hashDataKeyPrefix (*TxStructure).encodeHashDataKey (*TxStructure).encodeListMetaKey (*TxStructure).encodeListDataKey
//gvc:inline ZZSK ZZHM ZZHP ZZHK ZZLM ZZLK
func zzKeys(prefix, key, field []byte, i int64) {
	p, k, f := string(prefix), string(key), string(field)
	t := New(nil, prefix)
	s := t.encodeStringDataKey(key)
	gvc.Ensures("string key", string(s) == ZZSK(p, k))
	hm := t.encodeHashMetaKey(key)
	gvc.Ensures("hash key", string(hm) == ZZHM(p, k))
	hp := t.hashDataKeyPrefix(key)
	gvc.Ensures("prefix of the field keys", string(hp) == ZZHP(p, k))
	hk := t.encodeHashDataKey(key, field)
	gvc.Ensures("field key", string(hk) == ZZHK(p, k, f))
	lm := t.encodeListMetaKey(key)
	gvc.Ensures("list key", string(lm) == ZZLM(p, k))
	lk := t.encodeListDataKey(key, i)
	gvc.Ensures("element key", string(lk) == ZZLK(p, k, i))
	gvc.Ensures("making keys changes nothing", string(prefix) == p && string(key) == k && string(field) == f)
	for _, b := range [][]byte{s, hm, hp, hk, lm, lk} {
		gvc.Ensures("a key has memory of its own", len(b) > 0)
		b[0] = 1
	}
	gvc.Ensures("keys share no memory with their parts", string(prefix) == p && string(key) == k && string(field) == f)
}

// A key keeps its content when more keys are made.
//gvc:prove C07
//gvc:proves (*TxStructure).encodeStringDataKey (*TxStructure).encodeHashMetaKey (*TxStructure).hashDataKeyPrefix (*TxStructure).encodeHashDataKey (*TxStructure).encodeListMetaKey (*TxStructure).encodeListDataKey
//gvc:inline ZZSK ZZHM ZZHP ZZHK ZZLM ZZLK
func zzKeysOwn(prefix, key, field, key2, field2 []byte, i, i2 int64) {
	t := New(nil, prefix)
	s, hm, hp, hk := t.encodeStringDataKey(key), t.encodeHashMetaKey(key), t.hashDataKeyPrefix(key), t.encodeHashDataKey(key, field)
	lm, lk := t.encodeListMetaKey(key), t.encodeListDataKey(key, i)
	p, k, f := string(prefix), string(key), string(field)
	gvc.Retain(s, hm, hp, hk, lm, lk)
	t.encodeStringDataKey(key2)
	t.encodeHashMetaKey(key2)
	t.hashDataKeyPrefix(key2)
	t.encodeHashDataKey(key2, field2)
	t.encodeListMetaKey(key2)
	t.encodeListDataKey(key2, i2)
	gvc.Ensures("keys keep their content", string(s) == ZZSK(p, k) && string(hm) == ZZHM(p, k) && string(hp) == ZZHP(p, k) && string(hk) == ZZHK(p, k, f) && string(lm) == ZZLM(p, k) && string(lk) == ZZLK(p, k, i))
}

// zzField is the field a field key names.
//gvc:opaque
func zzField(p, s string) string { return memcomparable.ZZDec(ZZRest(p, s)) }

// zzIsHK: s is the key of a field.
func zzIsHK(p, s string) bool { return s == ZZHK(p, ZZName(p, s), zzField(p, s)) }

//gvc:lemma
//gvc:prove C07
//gvc:inline zzField
//gvc:uses zzInvHK
func zzInvField(p, k, f string) {
	gvc.Trigger(ZZHK(p, k, f))
	s := ZZHK(p, k, f)
	gvc.Ensures("a field key names its field", zzField(p, s) == f && ZZName(p, s) == k)
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZHK ZZHP
func zzFieldPrefix(p, k, f string) {
	gvc.Trigger(ZZHK(p, k, f), ZZHP(p, k))
	gvc.Ensures("field keys start with the prefix of their hash", gvc.HasPrefix(ZZHK(p, k, f), ZZHP(p, k)))
}

// Field keys of one hash order by field.
//gvc:lemma
//gvc:prove C07
//gvc:inline ZZHK
//gvc:uses kv/memcomparable.zzEncOrder
func zzFieldOrder(p, k, f, g string) {
	gvc.Trigger(gvc.Cmp(ZZHK(p, k, f), ZZHK(p, k, g)))
	gvc.Requires(gvc.Cmp(f, g) < 0)
	x, y := memcomparable.ZZEnc(f), memcomparable.ZZEnc(g)
	gvc.Lemma(gvc.Cmp(x, y) < 0)
	d := gvc.FirstDiff(x, y)
	u, v := ZZHK(p, k, f), ZZHK(p, k, g)
	n := len(p) + len(memcomparable.ZZEnc(k)) + 1
	gvc.Lemma(gvc.Forall(0, d, func(i int) bool { return gvc.At(x, i) == gvc.At(y, i) }))
	gvc.Lemma(gvc.Forall(0, n, func(i int) bool { return gvc.At(u, i) == gvc.At(v, i) }))
	gvc.Lemma(gvc.Forall(n, n+d, func(i int) bool { return gvc.At(u, i) == gvc.At(x, i-n) && gvc.At(v, i) == gvc.At(y, i-n) }))
	gvc.Lemma(gvc.At(u, n+d) == gvc.At(x, d) && gvc.At(v, n+d) == gvc.At(y, d))
	gvc.Lemma(gvc.FirstDiff(u, v) == n+d)
	gvc.Ensures("field keys order by field", gvc.Cmp(u, v) < 0)
}

//gvc:spec (*TxStructure).decodeHashDataKey
func zzContractDecodeHK(t *TxStructure, ek kv.Key) (key, field []byte, err error) {
	p, s := string(t.prefix), string(ek)
	if zzIsHK(p, s) {
		return []byte(ZZName(p, s)), []byte(zzField(p, s)), nil
	}
	return gvc.AnyBytes("key"), gvc.AnyBytes("field"), gvc.AnyError("decode")
}

//gvc:prove C07
//gvc:proves (*TxStructure).decodeHashDataKey
//gvc:inline zzField ZZName ZZRest ZZHK
//gvc:uses kv/memcomparable.zzDecIntro
func zzDecodeHK(prefix []byte, ek []byte, k0, f0 string) {
	p := string(prefix)
	if gvc.AnyBool("key of a field") {
		ek = []byte(ZZHK(p, k0, f0))
	}
	s := string(ek)
	t := New(nil, prefix)
	gvc.Lemma(s != ZZHK(p, k0, f0) || gvc.HasPrefix(gvc.Sub(s, len(p), len(s)), memcomparable.ZZEnc(k0)))
	key, field, err := t.decodeHashDataKey(ek)
	gvc.Ensures("a field key decodes to its hash and field", s != ZZHK(p, k0, f0) || err == nil && string(key) == k0 && string(field) == f0)
	gvc.Ensures("decoding changes nothing", string(ek) == s && string(prefix) == p)
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZHP ZZName ZZTag ZZRest
//gvc:uses kv/memcomparable.zzDecIntro
func zzInvHP(p, k, s string) {
	gvc.Trigger(gvc.HasPrefix(s, ZZHP(p, k)))
	gvc.Register(ZZHP(p, k))
	gvc.Requires(gvc.HasPrefix(s, ZZHP(p, k)))
	e := memcomparable.ZZEnc(k)
	n := len(p) + len(e)
	gvc.Lemma(gvc.Sub(s, 0, n+1) == p+e+"h")
	gvc.Lemma(gvc.HasPrefix(s, p+e))
	gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, len(p), len(s)), e))
	gvc.Lemma(gvc.At(s, n) == 'h')
	gvc.Ensures("a key with the prefix of a hash names the hash", ZZName(p, s) == k && ZZTag(p, s) == 'h')
}

// Keys of different kinds, names, fields or indices differ, and the prefix of a hash selects exactly its fields.
//gvc:prove C07
//gvc:uses zzInvSK zzInvHM zzInvHK zzInvLM zzInvLK zzInvHP zzFieldPrefix
func zzKeySpace(prefix, k1, k2, f1, f2 []byte, i1, i2 int64) {
	t := New(nil, prefix)
	s1, s2 := string(t.encodeStringDataKey(k1)), string(t.encodeStringDataKey(k2))
	hm1, hm2 := string(t.encodeHashMetaKey(k1)), string(t.encodeHashMetaKey(k2))
	hk1, hk2 := string(t.encodeHashDataKey(k1, f1)), string(t.encodeHashDataKey(k2, f2))
	lm1, lm2 := string(t.encodeListMetaKey(k1)), string(t.encodeListMetaKey(k2))
	lk1, lk2 := string(t.encodeListDataKey(k1, i1)), string(t.encodeListDataKey(k2, i2))
	hp := string(t.hashDataKeyPrefix(k1))
	k := string(k1) == string(k2)
	gvc.Ensures("string keys are equal only for equal names", s1 != s2 || k)
	gvc.Ensures("hash keys are equal only for equal names", hm1 != hm2 || k)
	gvc.Ensures("list keys are equal only for equal names", lm1 != lm2 || k)
	gvc.Ensures("field keys are equal only for equal names and fields", hk1 != hk2 || k && string(f1) == string(f2))
	gvc.Ensures("element keys are equal only for equal names and indices", lk1 != lk2 || k && i1 == i2)
	gvc.Ensures("a string key is no other key", s1 != hm2 && s1 != hk2 && s1 != lm2 && s1 != lk2)
	gvc.Ensures("a hash key is no field or list key", hm1 != hk2 && hm1 != lm2 && hm1 != lk2)
	gvc.Ensures("a field key is no list key", hk1 != lm2 && hk1 != lk2)
	gvc.Ensures("a list key is no element key", lm1 != lk2)
	gvc.Ensures("the prefix of a hash selects its fields", gvc.HasPrefix(hk2, hp) == k)
	gvc.Ensures("the prefix of a hash selects nothing else", !gvc.HasPrefix(s2, hp) && !gvc.HasPrefix(hm2, hp) && !gvc.HasPrefix(lm2, hp) && !gvc.HasPrefix(lk2, hp))
}
