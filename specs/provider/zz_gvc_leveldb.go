package provider

import (
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// The adaptor of leveldb against a stand-in of leveldb (its assumed contract) with arbitrary content and failures.

func specLevel(m gvc.Map) (*leveldb.DB, *LevelDB) {
	db := &leveldb.DB{ZZS: &iterator.ZZStore{M: m}}
	return db, &LevelDB{db}
}

//gvc:prove C21
func zzLevelSet(m gvc.Map, key, value []byte, with bool, ttl int64, tag byte) {
	k, v := string(key), string(value)
	db, l := specLevel(m)
	var meta *mondis.VMetaReq
	if with {
		meta = &mondis.VMetaReq{TTL: time.Duration(ttl), Tag: tag}
	}
	err := l.Set(key, value, meta)
	if err != nil {
		gvc.Ensures("a failed Set changes nothing", gvc.Same(db.ZZS.M, m))
		gvc.Ensures("only a failure of the database or meta data fails Set", db.ZZS.Faults > 0 || with)
		return
	}
	gvc.Ensures("a time to live or a tag is not dropped silently", !with)
	gvc.Ensures("a failed Set reports its error", db.ZZS.Faults == 0)
	gvc.Ensures("the key has the value and nothing else changed", gvc.Same(db.ZZS.M, m.Put(k, v)))
}

//gvc:prove C21
func zzLevelDelete(m gvc.Map, key []byte) {
	k := string(key)
	db, l := specLevel(m)
	err := l.Delete(key)
	gvc.Ensures("only a failure of the database fails Delete", (err == nil) == (db.ZZS.Faults == 0))
	gvc.Ensures("the key is gone and nothing else changed", err != nil || gvc.Same(db.ZZS.M, m.Del(k)))
	gvc.Ensures("a failed Delete changes nothing", err == nil || gvc.Same(db.ZZS.M, m))
}

//gvc:prove C21
func zzLevelGet(m gvc.Map, key []byte) {
	k := string(key)
	db, l := specLevel(m)
	v, meta, err := l.Get(key)
	gvc.Ensures("a missing key is ErrKeyNotFound", (err == kv.ErrKeyNotFound) == (db.ZZS.Faults == 0 && !m.Has(k)))
	gvc.Ensures("a failed Get reports its error", (err == nil) == (db.ZZS.Faults == 0 && m.Has(k)))
	gvc.Ensures("the value is what was stored", err != nil || string(v) == m.Get(k))
	gvc.Ensures("there is no meta data", meta.ExpiresAt == 0 && meta.Tag == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(db.ZZS.M, m) && db.ZZWrites == 0)
}

//gvc:prove C21
func zzLevelExists(m gvc.Map, key []byte) {
	k := string(key)
	db, l := specLevel(m)
	ok, err := l.Exists(key)
	gvc.Ensures("only a failure of the database fails Exists", (err == nil) == (db.ZZS.Faults == 0))
	gvc.Ensures("Exists tells whether the key is there", err != nil || ok == m.Has(k))
	gvc.Ensures("a failed Exists does not claim the key", err == nil || !ok)
	gvc.Ensures("reading changes nothing", gvc.Same(db.ZZS.M, m) && db.ZZWrites == 0)
}

//gvc:prove C21
//gvc:uses zzConvex zzLimit zzMax
func zzLevelScan(m gvc.Map, prefix, offset []byte, pre, has, rev bool, k string) {
	p, o := string(prefix), string(offset)
	gvc.Requires(pre || p == "")
	db, l := specLevel(m)
	opt := mondis.ProviderScanOption{Reverse: rev}
	if pre {
		opt.Prefix = prefix
	}
	if has {
		opt.Offset = offset
	}
	r := &zzVisits{}
	in := zzIn(m, p, o, has, rev, k)
	gvc.Hint(gvc.FirstDiff(p, k))
	gvc.Lemma(!in || gvc.Cmp(p, k) <= 0)
	gvc.Loop(func() bool {
		it := db.ZZS.It
		return !r.stopped && (!r.any || it.I >= 0 && r.last == gvc.ScanAt(it.I))
	})
	gvc.Loop(func() bool { return -1 <= db.ZZS.It.I && (db.ZZS.It.I >= 0 && db.ZZS.It.State == 1 || db.ZZS.It.I == -1 && db.ZZS.It.State == 0) && db.ZZS.It.I <= gvc.ScanLen() })
	gvc.Loop(func() bool {
		it := db.ZZS.It
		return r.hits == gvc.Int(in && gvc.ScanPos(k) <= it.I)
	})
	err := l.Scan(opt, func(key, value []byte, meta mondis.VMetaResp) bool {
		gvc.Ensures("there is no meta data", meta.ExpiresAt == 0 && meta.Tag == 0)
		return r.visit(m, p, o, has, rev, k, string(key), string(value))
	})
	gvc.Ensures("the iterator is released", db.ZZS.Open == 0)
	gvc.Ensures("scanning changes nothing", gvc.Same(db.ZZS.M, m) && db.ZZWrites == 0)
	gvc.Ensures("only a failure of the database or a reverse scan fails Scan", (err == nil) == (db.ZZS.Faults == 0 && !rev))
	if err == nil {
		it := db.ZZS.It
		x, j := gvc.ScanAt(it.I), gvc.ScanPos(k)
		gvc.Lemma(!in || it.Limit == nil || gvc.Cmp(k, string(it.Limit)) < 0)
		gvc.Lemma(!in || r.hits == 1 || r.stopped || j == it.I || gvc.Cmp(x, k) < 0)
		gvc.Ensures("a scan reports every key it is asked for, unless it is stopped", !in || r.stopped || r.hits == 1)
		gvc.Ensures("a scan reports every key up to where it is stopped", !in || !r.stopped || r.hits == 1 || gvc.Cmp(r.last, k) < 0)
	}
}

//gvc:prove C21
func zzLevelBatch(m gvc.Map, k, key, value []byte, kind int, v0 string, del bool) {
	gvc.Requires(0 <= kind && kind <= 2)
	leveldb.ZZWatch = string(k)
	ks, vs := string(key), string(value)
	db, l := specLevel(m)
	wb := l.WriteBatch()
	raw := wb.(*leveldbWB).batch
	gvc.Ensures("a batch starts empty", raw.ZZKind == 0 && raw.ZZN == 0)
	raw.ZZKind, raw.ZZVal = kind, v0
	var err error
	if del {
		err = wb.Delete(key)
	} else {
		err = wb.Set(key, value)
	}
	gvc.Ensures("a write of a batch does not fail", err == nil)
	hit := ks == string(k)
	gvc.Ensures("the last write of a key counts", !hit || raw.ZZKind == 2-gvc.Int(!del) && (del || raw.ZZVal == vs))
	gvc.Ensures("other keys are left alone", hit || raw.ZZKind == kind && raw.ZZVal == v0)
	gvc.Ensures("nothing is published before the commit", gvc.Same(db.ZZS.M, m))
	kind, v0 = raw.ZZKind, raw.ZZVal
	if gvc.AnyBool("discard") {
		wb.Discard()
		gvc.Ensures("a discarded batch publishes nothing", gvc.Same(db.ZZS.M, m))
		return
	}
	err = wb.Commit()
	gvc.Ensures("only a failure of the database fails Commit", (err == nil) == (db.ZZS.Faults == 0))
	gvc.Ensures("a commit publishes the batch", err != nil || db.ZZS.M.Has(string(k)) == (kind == 1 || kind == 0 && m.Has(string(k))) && (kind != 1 || db.ZZS.M.Get(string(k)) == v0))
	gvc.Ensures("a failed commit publishes nothing", err == nil || gvc.Same(db.ZZS.M, m))
}

//gvc:prove C21
func zzLevelOpen(dir string) {
	db := &leveldb.DB{ZZS: &iterator.ZZStore{}, ZZErr: gvc.AnyError("cannot open")}
	leveldb.ZZOpened = db
	l := NewLevelDB()
	gvc.Ensures("closing what is not open does nothing", l.Close() == nil && db.ZZClosed == 0)
	err := l.Open(mondis.KVOption{Dir: dir})
	gvc.Ensures("a database that cannot be opened is an error", err == db.ZZErr)
	if err == nil {
		gvc.Ensures("the database is the one in the directory", db.ZZDir == dir && l.(*LevelDB).db == db)
		db.ZZErr = gvc.AnyError("cannot close")
	}
	opened := err == nil
	err = l.Close()
	gvc.Ensures("closing closes the database and reports its error", !opened || db.ZZClosed == 1 && err == db.ZZErr)
}
