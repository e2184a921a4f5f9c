package document

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// ---- the key space ----

// zzI64 is the 8-byte form of an id.
func zzI64(i int64) string { return gvc.BE64(uint64(i) ^ 0x8000000000000000) }

// ZZDP is the prefix of the documents of a collection, ZZDK the key of a document.
//gvc:opaque
func ZZDP(cid int64) string { return "_md_c" + zzI64(cid) + "_d" }

//gvc:opaque
func ZZDK(cid, did int64) string { return "_md_c" + zzI64(cid) + "_d" + zzI64(did) }

// zzXP is the prefix of the index data of a collection.
//gvc:opaque
func zzXP(cid int64) string { return "_md_c" + zzI64(cid) + "_id" }

// zzNP is the prefix of the index names of a collection, zzNK the key of an index name.
//gvc:opaque
func zzNP(cid int64) string { return "_md_c" + zzI64(cid) + "_in" }

//gvc:opaque
func zzNK(cid int64, name string) string {
	return "_md_c" + zzI64(cid) + "_in" + memcomparable.ZZEnc(name)
}

// Meta data: sequences, names of collections, indices.
//gvc:opaque
func zzSQ(w string) string { return "_md_m_s" + w }

//gvc:opaque
func zzCN(name string) string { return "_md_m_cn2id" + memcomparable.ZZEnc(name) }

//gvc:opaque
func zzIX(iid int64) string { return "_md_m_i" + zzI64(iid) }

// zzU64 is the number whose 8-byte form starts at n, zzIdx the id.
func zzU64(s string, n int) uint64 {
	return uint64(gvc.At(s, n))<<56 | uint64(gvc.At(s, n+1))<<48 | uint64(gvc.At(s, n+2))<<40 | uint64(gvc.At(s, n+3))<<32 |
		uint64(gvc.At(s, n+4))<<24 | uint64(gvc.At(s, n+5))<<16 | uint64(gvc.At(s, n+6))<<8 | uint64(gvc.At(s, n+7))
}

func zzIdx(s string, n int) int64 { return int64(zzU64(s, n) ^ 0x8000000000000000) }

// ZZCid and ZZDid are the ids a document key names.
//gvc:opaque
func ZZCid(s string) int64 { return zzIdx(s, 5) }

//gvc:opaque
func ZZDid(s string) int64 { return zzIdx(s, 15) }

//gvc:lemma
//gvc:prove C08
//gvc:inline ZZDK ZZCid ZZDid ZZDP
func zzInvDK(cid, did int64) {
	gvc.Trigger(ZZDK(cid, did))
	s := ZZDK(cid, did)
	gvc.Ensures("a document key names its collection", ZZCid(s) == cid)
	gvc.Ensures("a document key names its document", ZZDid(s) == did)
	gvc.Ensures("a document key has one length", len(s) == 23)
	gvc.Ensures("a document key starts with the prefix of its collection", gvc.HasPrefix(s, ZZDP(cid)))
}

//gvc:lemma
//gvc:prove C08
//gvc:inline ZZDP ZZCid
func zzInvDP(cid int64, s string) {
	gvc.Trigger(gvc.HasPrefix(s, ZZDP(cid)))
	gvc.Register(ZZDP(cid))
	gvc.Requires(gvc.HasPrefix(s, ZZDP(cid)))
	gvc.Ensures("what starts with the prefix of a collection names the collection", ZZCid(s) == cid)
}

// Documents of one collection order by id.
//gvc:lemma
//gvc:prove C08
//gvc:inline ZZDK
//gvc:uses kv/memcomparable.zzBE64Order
func zzDocOrder(cid, a, b int64) {
	gvc.Trigger(gvc.Cmp(ZZDK(cid, a), ZZDK(cid, b)))
	gvc.Requires(a < b)
	x, y := zzI64(a), zzI64(b)
	gvc.Lemma(gvc.Cmp(x, y) < 0)
	d := gvc.FirstDiff(x, y)
	u, v := ZZDK(cid, a), ZZDK(cid, b)
	gvc.Lemma(gvc.Forall(0, d, func(i int) bool { return gvc.At(x, i) == gvc.At(y, i) }))
	gvc.Lemma(gvc.Forall(0, 15, func(i int) bool { return gvc.At(u, i) == gvc.At(v, i) }))
	gvc.Lemma(gvc.Forall(15, 15+d, func(i int) bool { return gvc.At(u, i) == gvc.At(x, i-15) && gvc.At(v, i) == gvc.At(y, i-15) }))
	gvc.Lemma(gvc.At(u, 15+d) == gvc.At(x, d) && gvc.At(v, 15+d) == gvc.At(y, d))
	gvc.Lemma(gvc.FirstDiff(u, v) == 15+d)
	gvc.Ensures("document keys order by id", gvc.Cmp(u, v) < 0)
}

// ---- contracts of the key functions ----

//gvc:spec AppendCollectionDocumentPrefix
func zzContractDP(buf []byte, cid int64) kv.Key { return append(buf, ZZDP(cid)...) }

//gvc:spec EncodeCollectionDocumentKey
func zzContractDK(buf []byte, cid, did int64) kv.Key { return append(buf, ZZDK(cid, did)...) }

//gvc:spec AppendCollectionIndexDataPrefix
func zzContractXP(buf []byte, cid int64) kv.Key { return append(buf, zzXP(cid)...) }

//gvc:spec AppendCollectionIndexNamePrefix
func zzContractNP(buf []byte, cid int64) kv.Key { return append(buf, zzNP(cid)...) }

//gvc:spec EncodeCollectionIndexName2IDKey
func zzContractNK(buf []byte, cid int64, iname string) kv.Key { return append(buf, zzNK(cid, iname)...) }

//gvc:spec EncodeMetaSequenceKey
func zzContractSQ(buf, keyword []byte) kv.Key { return append(buf, zzSQ(string(keyword))...) }

//gvc:spec EncodeMetaCollectionName2IDKey
func zzContractCN(buf []byte, cname string) kv.Key { return append(buf, zzCN(cname)...) }

//gvc:spec EncodeMetaIndexKey
func zzContractIX(buf []byte, iid int64) kv.Key { return append(buf, zzIX(iid)...) }

//gvc:prove C08
//gvc:proves AppendCollectionDocumentPrefix EncodeCollectionDocumentKey AppendCollectionIndexDataPrefix AppendCollectionIndexNamePrefix EncodeMetaIndexKey
//gvc:inline ZZDP ZZDK zzXP zzNP zzIX AppendCollectionDocumentPrefix
func zzKeysOfIDs(buf []byte, cid, did int64) {
	b0 := string(buf)
	which := gvc.AnyInt("which")
	switch which {
	case 0:
		r := AppendCollectionDocumentPrefix(buf, cid)
		gvc.Ensures("prefix of the documents", string(r) == b0+ZZDP(cid))
	case 1:
		r := EncodeCollectionDocumentKey(buf, cid, did)
		gvc.Ensures("document key", string(r) == b0+ZZDK(cid, did))
	case 2:
		r := AppendCollectionIndexDataPrefix(buf, cid)
		gvc.Ensures("prefix of the index data", string(r) == b0+zzXP(cid))
	case 3:
		r := AppendCollectionIndexNamePrefix(buf, cid)
		gvc.Ensures("prefix of the index names", string(r) == b0+zzNP(cid))
	case 4:
		r := EncodeMetaIndexKey(buf, did)
		gvc.Ensures("index key", string(r) == b0+zzIX(did))
	}
	gvc.Ensures("making a key does not change the existing bytes", string(buf) == b0)
}

//gvc:prove C08
//gvc:proves EncodeCollectionIndexName2IDKey EncodeMetaSequenceKey EncodeMetaCollectionName2IDKey
//gvc:inline zzNK zzSQ zzCN
func zzKeysOfNames(buf []byte, cid int64, name string, word []byte) {
	b0, w := string(buf), string(word)
	which := gvc.AnyInt("which")
	switch which {
	case 0:
		r := EncodeCollectionIndexName2IDKey(buf, cid, name)
		gvc.Ensures("index name key", string(r) == b0+zzNK(cid, name))
	case 1:
		r := EncodeMetaCollectionName2IDKey(buf, name)
		gvc.Ensures("collection name key", string(r) == b0+zzCN(name))
	case 2:
		r := EncodeMetaSequenceKey(buf, word)
		gvc.Ensures("sequence key", string(r) == b0+zzSQ(w))
	}
	gvc.Ensures("making a key changes nothing", string(buf) == b0 && string(word) == w)
}

// A key keeps its content when more keys are made or its parts are changed.
//gvc:prove C08
//gvc:proves AppendCollectionDocumentPrefix EncodeCollectionDocumentKey EncodeCollectionIndexName2IDKey EncodeMetaSequenceKey EncodeMetaCollectionName2IDKey EncodeMetaIndexKey
//gvc:inline ZZDP ZZDK zzNK zzSQ zzCN zzIX AppendCollectionDocumentPrefix
func zzKeysOwn(cid, did, cid2, did2 int64, name, name2 string, word, word2 []byte) {
	w := string(word)
	p, dk, nk := AppendCollectionDocumentPrefix(nil, cid), EncodeCollectionDocumentKey(nil, cid, did), EncodeCollectionIndexName2IDKey(nil, cid, name)
	sq, cn, ix := EncodeMetaSequenceKey(nil, word), EncodeMetaCollectionName2IDKey(nil, name), EncodeMetaIndexKey(nil, did)
	gvc.Retain(p, dk, nk, sq, cn, ix)
	AppendCollectionDocumentPrefix(nil, cid2)
	EncodeCollectionDocumentKey(nil, cid2, did2)
	EncodeCollectionIndexName2IDKey(nil, cid2, name2)
	EncodeMetaSequenceKey(nil, word2)
	EncodeMetaCollectionName2IDKey(nil, name2)
	EncodeMetaIndexKey(nil, did2)
	if len(word) > 0 {
		word[0] = 1
	}
	gvc.Ensures("keys keep their content", string(p) == ZZDP(cid) && string(dk) == ZZDK(cid, did) && string(nk) == zzNK(cid, name))
	gvc.Ensures("meta keys keep their content", string(sq) == zzSQ(w) && string(cn) == zzCN(name) && string(ix) == zzIX(did))
}

// ---- decoding ----

//gvc:prove C08
//gvc:inline zzNK
//gvc:uses kv/memcomparable.zzDecIntro kv/memcomparable.zzEncDef
func zzDecodeNK(c0 int64, n0 string) {
	key := []byte(zzNK(c0, n0))
	s := string(key)
	gvc.Lemma(gvc.Sub(s, 16, len(s)) == memcomparable.ZZEnc(n0))
	gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, 16, len(s)), memcomparable.ZZEnc(n0)))
	cid, name, err := DecodeCollectionIndexName2IDKey(key)
	gvc.Lemma(memcomparable.ZZDec(gvc.Sub(s, 16, len(s))) == n0)
	gvc.Ensures("the key of an index name decodes", err == nil)
	gvc.Ensures("the key of an index name decodes to its collection", cid == c0)
	gvc.Ensures("the key of an index name decodes to its name", string(name) == n0)
	gvc.Ensures("decoding changes nothing", string(key) == s)
}

//gvc:prove C08
//gvc:inline zzNK
//gvc:uses kv/memcomparable.zzDecIntro
func zzDecodeNKAny(key []byte, c0 int64, n0 string) {
	if gvc.AnyBool("key of an index name") {
		key = []byte(zzNK(c0, n0))
	}
	s := string(key)
	cid, name, err := DecodeCollectionIndexName2IDKey(key)
	if err == nil {
		e := memcomparable.ZZEnc(string(name))
		gvc.Lemma(len(s) == 16+len(e))
		gvc.Lemma(gvc.HasPrefix(gvc.Sub(s, 16, len(s)), e))
		gvc.Lemma(gvc.Sub(s, 16, len(s)) == e)
		gvc.Lemma(gvc.Sub(s, 5, 13) == zzI64(cid))
		gvc.Lemma(gvc.Sub(s, 0, 5) == "_md_c")
		gvc.Lemma(gvc.Sub(s, 13, 16) == "_in")
		gvc.Ensures("only the key of an index name decodes", s == zzNK(cid, string(name)))
	}
	gvc.Ensures("decoding changes nothing", string(key) == s)
}

// ---- the key space as a whole ----

// zzTagAt: what follows the collection id.
func zzTagAt(s string, t string) bool { return gvc.Sub(s, 13, 13+len(t)) == t }

//gvc:lemma
//gvc:prove C08
//gvc:inline ZZDK ZZDP
func zzDPSelects(c1, c2, d int64) {
	gvc.Trigger(gvc.HasPrefix(ZZDK(c2, d), ZZDP(c1)))
	gvc.Ensures("the prefix of a collection selects only its documents", !gvc.HasPrefix(ZZDK(c2, d), ZZDP(c1)) || c1 == c2)
}

// Keys of different kinds, ids or names differ, and the prefix of a collection selects exactly its documents.
//gvc:prove C08
//gvc:inline ZZDP ZZDK zzXP zzNP zzNK zzSQ zzCN zzIX
//gvc:uses kv/memcomparable.zzDecSelf
func zzKeySpace(c1, c2, d1, d2 int64, n1, n2 string, w1, w2 []byte) {
	p := string(AppendCollectionDocumentPrefix(nil, c1))
	xp := string(AppendCollectionIndexDataPrefix(nil, c1))
	np := string(AppendCollectionIndexNamePrefix(nil, c1))
	dk1, dk2 := string(EncodeCollectionDocumentKey(nil, c1, d1)), string(EncodeCollectionDocumentKey(nil, c2, d2))
	nk1, nk2 := string(EncodeCollectionIndexName2IDKey(nil, c1, n1)), string(EncodeCollectionIndexName2IDKey(nil, c2, n2))
	sq1, sq2 := string(EncodeMetaSequenceKey(nil, w1)), string(EncodeMetaSequenceKey(nil, w2))
	cn1, cn2 := string(EncodeMetaCollectionName2IDKey(nil, n1)), string(EncodeMetaCollectionName2IDKey(nil, n2))
	ix1, ix2 := string(EncodeMetaIndexKey(nil, d1)), string(EncodeMetaIndexKey(nil, d2))
	gvc.Ensures("document keys are equal only for equal ids", dk1 != dk2 || c1 == c2 && d1 == d2)
	gvc.Ensures("index keys are equal only for equal ids", ix1 != ix2 || d1 == d2)
	gvc.Ensures("sequence keys are equal only for equal words", sq1 != sq2 || string(w1) == string(w2))
	e1, e2 := memcomparable.ZZEnc(n1), memcomparable.ZZEnc(n2)
	gvc.Lemma(e1 != e2 || n1 == n2)
	gvc.Lemma(cn1 != cn2 || gvc.Sub(cn1, 11, len(cn1)) == e1 && gvc.Sub(cn2, 11, len(cn2)) == e2 && e1 == e2)
	gvc.Ensures("collection name keys are equal only for equal names", cn1 != cn2 || n1 == n2)
	gvc.Lemma(nk1 != nk2 || gvc.Sub(nk1, 16, len(nk1)) == e1 && gvc.Sub(nk2, 16, len(nk2)) == e2 && e1 == e2)
	gvc.Ensures("index name keys are equal only for equal names", nk1 != nk2 || c1 == c2 && n1 == n2)
	gvc.Ensures("a document key is no other key", dk1 != nk2 && dk1 != sq2 && dk1 != cn2 && dk1 != ix2)
	gvc.Ensures("an index name key is no meta key", nk1 != sq2 && nk1 != cn2 && nk1 != ix2)
	gvc.Ensures("meta keys of different kinds differ", sq1 != cn2 && sq1 != ix2 && cn1 != ix2)
	gvc.Ensures("the prefix of a collection selects its documents", gvc.HasPrefix(dk2, p) == (c1 == c2))
	gvc.Ensures("the prefix of a collection selects nothing else", !gvc.HasPrefix(nk2, p) && !gvc.HasPrefix(sq2, p) && !gvc.HasPrefix(cn2, p) && !gvc.HasPrefix(ix2, p))
	gvc.Ensures("the prefix of the index names selects the names of the collection", gvc.HasPrefix(nk2, np) == (c1 == c2) && !gvc.HasPrefix(dk2, np))
	gvc.Ensures("index data lie apart", !gvc.HasPrefix(dk2, xp) && !gvc.HasPrefix(nk2, xp) && !gvc.HasPrefix(p, xp) && !gvc.HasPrefix(xp, p))
}

// zzCP is the prefix of the indexed columns of a collection.
//gvc:opaque
func zzCP(cid int64) string { return "_md_c" + zzI64(cid) + "_ci" }

//gvc:prove C08
//gvc:inline zzCP
//gvc:uses kv/compact.zzUvarBounds
func zzColumnsKey(buf []byte, cid int64, fields []IndexField) {
	b0, p := string(buf), zzCP(cid)
	var f0 []IndexField
	f0 = append(f0, fields...)
	gvc.Requires(len(fields) <= 65536 && gvc.Forall(0, len(fields), func(i int) bool { return len(fields[i].Name) <= 65536 }))
	gvc.Loop(func(bufLen, rangeindex int) bool { return bufLen <= 100+(rangeindex+1)*(65536+20) })
	given := buf
	gvc.Loop(func(buf []byte) bool { return gvc.HasPrefix(string(buf), b0+p) })
	gvc.Loop(func(buf []byte) bool { return string(given) == b0 })
	k := EncodeCollectionColumnsIndexedKey(buf, cid, fields)
	gvc.Ensures("a columns key starts with the prefix of its collection", gvc.HasPrefix(string(k), b0+p))
	gvc.Ensures("making a columns key keeps the number of fields", len(fields) == len(f0))
	gvc.Ensures("making a columns key changes no field", gvc.Forall(0, len(f0), func(i int) bool { return fields[i].Name == f0[i].Name && fields[i].Desc == f0[i].Desc }))
	gvc.Ensures("making a columns key does not change the existing bytes", string(buf) == b0)
}
