package provider

import (
	"github.com/syndtr/goleveldb/leveldb/util"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// zzAll255: no key is beyond those with the prefix.
func zzAll255(p string) bool {
	return gvc.Forall(0, len(p), func(i int) bool { return gvc.At(p, i) == 255 })
}

//gvc:spec std:github.com/syndtr/goleveldb/leveldb/util.BytesPrefix
func zzSpecBytesPrefix(prefix []byte) *util.Range {
	if zzAll255(string(prefix)) {
		return &util.Range{Start: prefix}
	}
	l := gvc.AnyString("limit")
	gvc.Ensures("", zzIsLimit(string(prefix), l))
	return &util.Range{Start: prefix, Limit: []byte(l)}
}

// The function itself, which is the real file of goleveldb.
//gvc:prove C21
//gvc:proves std:github.com/syndtr/goleveldb/leveldb/util.BytesPrefix
func zzBytesPrefix(prefix []byte) {
	p := string(prefix)
	gvc.Loop(func(i int) bool {
		return gvc.Forall(i+1, len(p), func(j int) bool { return gvc.At(p, j) == 255 })
	})
	r := util.BytesPrefix(prefix)
	gvc.Ensures("the range starts with the prefix", string(r.Start) == p && string(prefix) == p)
	if r.Limit == nil {
		gvc.Ensures("the range has no end only when no key is beyond", zzAll255(p))
	} else {
		gvc.Ensures("the range ends where the keys with the prefix do", zzIsLimit(p, string(r.Limit)) && !zzAll255(p))
	}
}

// No key is beyond those with such a prefix.
//gvc:lemma
//gvc:prove C21
func zzMax(p, m string) {
	gvc.Requires(zzAll255(p) && gvc.Cmp(p, m) <= 0)
	d := gvc.FirstDiff(p, m)
	gvc.Lemma(d >= len(p))
	gvc.Ensures("no key is beyond those with such a prefix", gvc.HasPrefix(m, p))
}
