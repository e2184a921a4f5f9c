package provider

import (
	"time"

	"github.com/dgraph-io/badger"
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// The adaptor of badger against a stand-in of badger (its assumed contract) with arbitrary content and failures.

func specMeta(with bool, ttl int64, tag byte) *mondis.VMetaReq {
	if !with {
		return nil
	}
	return &mondis.VMetaReq{TTL: time.Duration(ttl), Tag: tag}
}

func specSetMeta(x gvc.Map, k string, with bool, ttl int64, tag byte) {
	if !with {
		ttl, tag = 0, 0
	}
	gvc.Ensures("the entry expires after its time to live, and never without one", ttl == 0 && badger.ZZExp(x.Get(k)) == 0 || ttl != 0 && badger.ZZExp(x.Get(k)) == badger.ZZExpiry(ttl))
	gvc.Ensures("the entry has its tag", badger.ZZTag(x.Get(k)) == tag)
}

//gvc:prove C21
func zzBadgerSet(m, x gvc.Map, key, value []byte, with bool, ttl int64, tag byte) {
	k, v := string(key), string(value)
	gvc.Requires(len(k) > 0 && (ttl == 0 || ttl >= int64(time.Second)))
	db := &badger.DB{ZZM: m, ZZX: x}
	b := &Badger{db}
	err := b.Set(key, value, specMeta(with, ttl, tag))
	gvc.Ensures("only a failure of the database fails Set", err == nil || db.ZZFaults > 0)
	gvc.Ensures("a failed Set reports its error", err != nil || db.ZZFaults == 0)
	gvc.Ensures("the transaction is ended", db.ZZTxns == 1 && db.ZZEnded == 1)
	if err != nil {
		gvc.Ensures("a failed Set changes nothing", gvc.Same(db.ZZM, m))
		gvc.Ensures("a transaction that is too big is told", !db.ZZTooBig || err == kv.ErrTxnTooBig)
		return
	}
	gvc.Ensures("the key has the value and nothing else changed", gvc.Same(db.ZZM, m.Put(k, v)))
	specSetMeta(db.ZZX, k, with, ttl, tag)
	gvc.Ensures("the arguments are left alone", string(key) == k && string(value) == v)
}

//gvc:prove C21
func zzBadgerDelete(m, x gvc.Map, key []byte) {
	k := string(key)
	gvc.Requires(len(k) > 0)
	db := &badger.DB{ZZM: m, ZZX: x}
	b := &Badger{db}
	err := b.Delete(key)
	gvc.Ensures("only a failure of the database fails Delete", err == nil || db.ZZFaults > 0)
	gvc.Ensures("a failed Delete reports its error", err != nil || db.ZZFaults == 0)
	gvc.Ensures("the transaction is ended", db.ZZTxns == 1 && db.ZZEnded == 1)
	if err != nil {
		gvc.Ensures("a failed Delete changes nothing", gvc.Same(db.ZZM, m))
		gvc.Ensures("a transaction that is too big is told", !db.ZZTooBig || err == kv.ErrTxnTooBig)
		return
	}
	gvc.Ensures("the key is gone and nothing else changed", gvc.Same(db.ZZM, m.Del(k)))
}

//gvc:prove C21
func zzBadgerGet(m, x gvc.Map, key []byte) {
	k := string(key)
	gvc.Requires(len(k) > 0)
	db := &badger.DB{ZZM: m, ZZX: x}
	b := &Badger{db}
	v, meta, err := b.Get(key)
	gvc.Ensures("the transaction is ended", db.ZZTxns == 1 && db.ZZEnded == 1 && db.ZZUpdates == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(db.ZZM, m) && db.ZZCommits == 0)
	specGot(db, m, x, k, v, meta, err)
}

func specGot(db *badger.DB, m, x gvc.Map, k string, v []byte, meta mondis.VMetaResp, err error) {
	gvc.Ensures("a missing key is ErrKeyNotFound", (err == kv.ErrKeyNotFound) == (db.ZZFaults == 0 && !m.Has(k)))
	gvc.Ensures("only a failure of the database or a missing key fails Get", err == nil || db.ZZFaults > 0 || !m.Has(k))
	gvc.Ensures("a failed Get reports its error", err != nil || db.ZZFaults == 0 && m.Has(k))
	if err == nil {
		gvc.Ensures("the value is what was stored", string(v) == m.Get(k))
		gvc.Ensures("the meta data is what was stored", meta.ExpiresAt == badger.ZZExp(x.Get(k)) && meta.Tag == badger.ZZTag(x.Get(k)))
	}
}

//gvc:prove C21
func zzBadgerExists(m, x gvc.Map, key []byte) {
	k := string(key)
	gvc.Requires(len(k) > 0)
	db := &badger.DB{ZZM: m, ZZX: x}
	b := &Badger{db}
	ok, err := b.Exists(key)
	gvc.Ensures("the transaction is ended", db.ZZTxns == 1 && db.ZZEnded == 1 && db.ZZUpdates == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(db.ZZM, m) && db.ZZCommits == 0)
	gvc.Ensures("only a failure of the database fails Exists", (err == nil) == (db.ZZFaults == 0))
	gvc.Ensures("Exists tells whether the key is there", err != nil || ok == m.Has(k))
	gvc.Ensures("a failed Exists does not claim the key", err == nil || !ok)
}

// A transaction in any state it can be in.
func specTxn(m, tm, x gvc.Map, update bool) (*badger.DB, mondis.ProviderTxn) {
	db := &badger.DB{ZZM: m, ZZX: x, ZZTS: gvc.AnyUint64("read timestamp")}
	b := &Badger{db}
	t := b.NewTransaction(update)
	gvc.Ensures("a transaction of the requested mode is opened", db.ZZTxns == 1 && (db.ZZUpdates == 1) == update)
	raw := (*badger.Txn)(t.(*Txn))
	raw.ZZM = tm
	return db, t
}

//gvc:prove C21
func zzBadgerTxnSet(m, tm, x gvc.Map, key, value []byte, with bool, ttl int64, tag byte, update bool) {
	k, v := string(key), string(value)
	gvc.Requires(len(k) > 0 && (ttl == 0 || ttl >= int64(time.Second)))
	db, t := specTxn(m, tm, x, update)
	err := t.Set(key, value, specMeta(with, ttl, tag))
	raw := (*badger.Txn)(t.(*Txn))
	gvc.Ensures("nothing is published before the commit", gvc.Same(db.ZZM, m) && db.ZZCommits == 0 && db.ZZEnded == 0)
	gvc.Ensures("only a failure of the database fails Set", (err == nil) == (db.ZZFaults == 0 && update))
	if err != nil {
		gvc.Ensures("a failed Set changes nothing", gvc.Same(raw.ZZM, tm))
		gvc.Ensures("a transaction that is too big is told", db.ZZTooBig == (err == kv.ErrTxnTooBig))
		return
	}
	gvc.Ensures("the transaction sees its write", gvc.Same(raw.ZZM, tm.Put(k, v)))
	specSetMeta(raw.ZZX, k, with, ttl, tag)
}

//gvc:prove C21
func zzBadgerTxnDelete(m, tm, x gvc.Map, key []byte, update bool) {
	k := string(key)
	gvc.Requires(len(k) > 0)
	db, t := specTxn(m, tm, x, update)
	err := t.Delete(key)
	raw := (*badger.Txn)(t.(*Txn))
	gvc.Ensures("nothing is published before the commit", gvc.Same(db.ZZM, m) && db.ZZCommits == 0 && db.ZZEnded == 0)
	gvc.Ensures("only a failure of the database fails Delete", (err == nil) == (db.ZZFaults == 0 && update))
	if err != nil {
		gvc.Ensures("a failed Delete changes nothing", gvc.Same(raw.ZZM, tm))
		gvc.Ensures("a transaction that is too big is told", db.ZZTooBig == (err == kv.ErrTxnTooBig))
		return
	}
	gvc.Ensures("the transaction sees the key gone", gvc.Same(raw.ZZM, tm.Del(k)))
}

//gvc:prove C21
func zzBadgerTxnGet(m, tm, x gvc.Map, key []byte, update bool) {
	k := string(key)
	gvc.Requires(len(k) > 0)
	db, t := specTxn(m, tm, x, update)
	v, meta, err := t.Get(key)
	specGot(db, tm, x, k, v, meta, err)
	raw := (*badger.Txn)(t.(*Txn))
	gvc.Ensures("reading changes nothing", gvc.Same(raw.ZZM, tm) && gvc.Same(db.ZZM, m) && db.ZZEnded == 0)
}

//gvc:prove C21
func zzBadgerTxnExists(m, tm, x gvc.Map, key []byte, update bool) {
	k := string(key)
	gvc.Requires(len(k) > 0)
	db, t := specTxn(m, tm, x, update)
	ok, err := t.Exists(key)
	gvc.Ensures("only a failure of the database fails Exists", (err == nil) == (db.ZZFaults == 0))
	gvc.Ensures("Exists tells whether the key is there", err != nil || ok == tm.Has(k))
	gvc.Ensures("a failed Exists does not claim the key", err == nil || !ok)
	raw := (*badger.Txn)(t.(*Txn))
	gvc.Ensures("reading changes nothing", gvc.Same(raw.ZZM, tm) && gvc.Same(db.ZZM, m) && db.ZZEnded == 0)
}

//gvc:prove C21
func zzBadgerTxnEnd(m, tm, x gvc.Map, update, commit bool) {
	db, t := specTxn(m, tm, x, update)
	gvc.Ensures("the start of the transaction is told", t.StartTS() == db.ZZTS)
	var err error
	if commit {
		err = t.Commit()
	} else {
		t.Discard()
	}
	gvc.Ensures("the transaction is ended", db.ZZEnded == 1)
	gvc.Ensures("only a failure of the database fails Commit", (err == nil) == (db.ZZFaults == 0))
	done := commit && update && err == nil
	gvc.Ensures("a commit publishes all of the transaction", !done || gvc.Same(db.ZZM, tm) && db.ZZCommits == 1)
	gvc.Ensures("a failed commit and a discard publish nothing", done || gvc.Same(db.ZZM, m) && db.ZZCommits == 0)
	t.Discard()
	gvc.Ensures("a later discard does nothing", db.ZZEnded == 1 && (!done || gvc.Same(db.ZZM, tm)))
}

//gvc:prove C21
func zzBadgerBatch(m, x gvc.Map, k, key, value []byte, kind int, v0 string, del bool) {
	gvc.Requires(0 <= kind && kind <= 2)
	badger.ZZWatch = string(k)
	ks, vs := string(key), string(value)
	db := &badger.DB{ZZM: m, ZZX: x}
	b := &Badger{db}
	wb := b.WriteBatch()
	gvc.Ensures("a batch starts empty", db.ZZBatches == 1 && (*badger.WriteBatch)(wb.(*badgerWB)).ZZKind == 0)
	raw := (*badger.WriteBatch)(wb.(*badgerWB))
	raw.ZZKind, raw.ZZVal = kind, v0
	var err error
	if del {
		err = wb.Delete(key)
	} else {
		err = wb.Set(key, value)
	}
	gvc.Ensures("only a failure of the database fails a write of a batch", (err == nil) == (db.ZZFaults == 0))
	hit := err == nil && ks == string(k)
	gvc.Ensures("the last write of a key counts", raw.ZZKind == 2-gvc.Int(!del) && (del || raw.ZZVal == vs) || !hit)
	gvc.Ensures("other keys are left alone", hit || raw.ZZKind == kind && raw.ZZVal == v0)
	gvc.Ensures("nothing is published before the commit", gvc.Same(db.ZZM, m))
	kind, v0 = raw.ZZKind, raw.ZZVal
	if gvc.AnyBool("discard") {
		wb.Discard()
		gvc.Ensures("a discarded batch publishes nothing", gvc.Same(db.ZZM, m) && raw.ZZEnded)
		return
	}
	f := db.ZZFaults
	err = wb.Commit()
	gvc.Ensures("only a failure of the database fails Commit", (err == nil) == (db.ZZFaults == f))
	gvc.Ensures("a commit publishes the batch", err != nil || db.ZZM.Has(string(k)) == (kind == 1 || kind == 0 && m.Has(string(k))) && (kind != 1 || db.ZZM.Get(string(k)) == v0))
	gvc.Ensures("a failed commit publishes nothing", err == nil || gvc.Same(db.ZZM, m))
}

//gvc:prove C21
func zzBadgerOpen(dir string) {
	db := &badger.DB{ZZErr: gvc.AnyError("cannot open")}
	badger.ZZOpened = db
	b := NewBadger()
	gvc.Ensures("closing what is not open does nothing", b.Close() == nil && db.ZZClosed == 0)
	err := b.Open(mondis.KVOption{Dir: dir})
	gvc.Ensures("a database that cannot be opened is an error", err == db.ZZErr)
	if err == nil {
		gvc.Ensures("the database is the one in the directory", db.ZZDir == dir && b.(*Badger).db == db)
		db.ZZErr = gvc.AnyError("cannot close")
	}
	opened := err == nil
	err = b.Close()
	gvc.Ensures("closing closes the database and reports its error", !opened || db.ZZClosed == 1 && err == db.ZZErr)
}
