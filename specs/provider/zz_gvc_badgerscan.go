package provider

import (
	"github.com/dgraph-io/badger"
	"github.com/zhiqiangxu/mondis"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// The keys between a key with the prefix and the prefix have the prefix.
//gvc:lemma
//gvc:prove C21
func zzConvex(p, a, k string) {
	gvc.Requires(gvc.HasPrefix(k, p) && gvc.Cmp(p, a) <= 0 && gvc.Cmp(a, k) <= 0)
	d := gvc.FirstDiff(p, a)
	e := gvc.FirstDiff(a, k)
	gvc.Lemma(d >= len(p) || d >= len(a) || gvc.At(p, d) < gvc.At(a, d))
	gvc.Lemma(d >= len(p) || e >= d)
	gvc.Ensures("the keys between have the prefix", gvc.HasPrefix(a, p))
}

// zzIsLimit: limit is the end of the range of the keys with the prefix.
func zzIsLimit(p, l string) bool {
	d := len(l) - 1
	return 0 <= d && d < len(p) && gvc.At(p, d) < 255 && int(gvc.At(l, d)) == int(gvc.At(p, d))+1 && gvc.FirstDiff(p, l) == d &&
		gvc.Forall(d+1, len(p), func(i int) bool { return gvc.At(p, i) == 255 })
}

// The keys with a prefix are the keys from it up to the limit.
//gvc:lemma
//gvc:prove C21
func zzLimit(p, l, m string) {
	gvc.Requires(zzIsLimit(p, l))
	d := len(l) - 1
	e := gvc.FirstDiff(p, m)
	f := gvc.FirstDiff(m, l)
	in := gvc.Cmp(p, m) <= 0 && gvc.Cmp(m, l) < 0
	has := gvc.HasPrefix(m, p)
	gvc.Lemma(!has || f == d)
	gvc.Lemma(!has || gvc.Cmp(m, l) < 0)
	gvc.Lemma(!has || gvc.Cmp(p, m) <= 0)
	gvc.Lemma(!in || e > d)
	gvc.Lemma(!in || e >= len(p))
	gvc.Ensures("the keys with a prefix are the keys from it up to its limit", has == in)
}

// zzVisits is what a scan reported.
type zzVisits struct {
	any     bool
	last    string
	hits    int
	stopped bool
}

// zzIn: the scan has to report the key.
func zzIn(m gvc.Map, p, o string, has, rev bool, k string) bool {
	return m.Has(k) && gvc.HasPrefix(k, p) && (!has || !rev && gvc.Cmp(k, o) >= 0 || rev && gvc.Cmp(k, o) <= 0)
}

func (r *zzVisits) visit(m gvc.Map, p, o string, has, rev bool, watch string, k, v string) bool {
	gvc.Ensures("a scan stops when it is told to", !r.stopped)
	gvc.Ensures("a scan reports only keys it is asked for", zzIn(m, p, o, has, rev, k))
	gvc.Ensures("a scan reports the value of the key", v == m.Get(k))
	gvc.Ensures("a scan reports keys once and in order", !r.any || !rev && gvc.Cmp(r.last, k) < 0 || rev && gvc.Cmp(k, r.last) < 0)
	r.any = true
	r.last = k
	r.hits += gvc.Int(k == watch)
	r.stopped = gvc.AnyBool("stop")
	return !r.stopped
}

//gvc:prove C21
//gvc:uses zzConvex
func zzBadgerScan(m, x gvc.Map, prefix, offset []byte, has, rev bool, k string) {
	p, o := string(prefix), string(offset)
	gvc.Requires(!has || len(o) > 0)
	db := &badger.DB{ZZM: m, ZZX: x}
	b := &Badger{db}
	opt := mondis.ProviderScanOption{Reverse: rev, Prefix: prefix}
	if has {
		opt.Offset = offset
	}
	r := &zzVisits{}
	in := zzIn(m, p, o, has, rev, k)
	gvc.Loop(func() bool {
		it := db.ZZIt
		return !r.stopped && (!r.any || it.ZZI > 0 && (r.last == gvc.ScanAt(it.ZZI-1) || !rev && gvc.Cmp(r.last, gvc.ScanAt(it.ZZI-1)) < 0 || rev && gvc.Cmp(gvc.ScanAt(it.ZZI-1), r.last) < 0))
	})
	gvc.Loop(func() bool { return 0 <= db.ZZIt.ZZI && db.ZZIt.ZZI <= gvc.ScanLen() })
	gvc.Loop(func() bool {
		it := db.ZZIt
		return r.hits == gvc.Int(in && gvc.ScanPos(k) < it.ZZI)
	})
	err := b.Scan(opt, func(key, value []byte, meta mondis.VMetaResp) bool {
		ks := string(key)
		gvc.Ensures("a scan reports the meta data of the key", meta.ExpiresAt == badger.ZZExp(x.Get(ks)) && meta.Tag == badger.ZZTag(x.Get(ks)))
		return r.visit(m, p, o, has, rev, k, ks, string(value))
	})
	gvc.Ensures("the transaction and its iterator are ended", db.ZZTxns == 1 && db.ZZEnded == 1)
	gvc.Ensures("scanning changes nothing", gvc.Same(db.ZZM, m) && db.ZZCommits == 0)
	gvc.Ensures("only a failure of the database fails Scan", (err == nil) == (db.ZZFaults == 0))
	if err == nil {
		gvc.Ensures("a scan reports every key it is asked for, unless it is stopped", !in || r.stopped || r.hits == 1)
		gvc.Ensures("a scan reports every key up to where it is stopped", !in || !r.stopped || r.hits == 1 || !rev && gvc.Cmp(r.last, k) < 0 || rev && gvc.Cmp(k, r.last) < 0)
	}
}

//gvc:prove C21
//gvc:uses zzConvex
func zzBadgerTxnScan(m0, m, x gvc.Map, prefix, offset []byte, has, rev, update bool, k string) {
	p, o := string(prefix), string(offset)
	gvc.Requires(!has || len(o) > 0)
	db, t := specTxn(m0, m, x, update)
	opt := mondis.ProviderScanOption{Reverse: rev, Prefix: prefix}
	if has {
		opt.Offset = offset
	}
	r := &zzVisits{}
	in := zzIn(m, p, o, has, rev, k)
	gvc.Loop(func() bool {
		it := db.ZZIt
		return !r.stopped && (!r.any || it.ZZI > 0 && (r.last == gvc.ScanAt(it.ZZI-1) || !rev && gvc.Cmp(r.last, gvc.ScanAt(it.ZZI-1)) < 0 || rev && gvc.Cmp(gvc.ScanAt(it.ZZI-1), r.last) < 0))
	})
	gvc.Loop(func() bool { return 0 <= db.ZZIt.ZZI && db.ZZIt.ZZI <= gvc.ScanLen() })
	gvc.Loop(func() bool {
		it := db.ZZIt
		return r.hits == gvc.Int(in && gvc.ScanPos(k) < it.ZZI)
	})
	err := t.Scan(opt, func(key, value []byte, meta mondis.VMetaResp) bool {
		ks := string(key)
		gvc.Ensures("a scan reports the meta data of the key", meta.ExpiresAt == badger.ZZExp(x.Get(ks)) && meta.Tag == badger.ZZTag(x.Get(ks)))
		return r.visit(m, p, o, has, rev, k, ks, string(value))
	})
	raw := (*badger.Txn)(t.(*Txn))
	gvc.Ensures("the iterator is ended, the transaction is not", raw.ZZOpen == 0 && db.ZZEnded == 0)
	gvc.Ensures("scanning changes nothing", gvc.Same(db.ZZM, m0) && gvc.Same(raw.ZZM, m))
	gvc.Ensures("only a failure of the database fails Scan", (err == nil) == (db.ZZFaults == 0))
	if err == nil {
		gvc.Ensures("a scan reports every key it is asked for, unless it is stopped", !in || r.stopped || r.hits == 1)
		gvc.Ensures("a scan reports every key up to where it is stopped", !in || !r.stopped || r.hits == 1 || !rev && gvc.Cmp(r.last, k) < 0 || rev && gvc.Cmp(k, r.last) < 0)
	}
}
