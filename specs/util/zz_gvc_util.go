package util

import (
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// zzBody is an arbitrary transaction body: it checks the transaction it is given, replaces its content and reports an arbitrary error.
type zzBody struct {
	db     *zzkvm.DB
	update bool
	calls  int
	m      gvc.Map // content the transaction must start from
	out    gvc.Map // content after the body
	err    error
	last   *zzkvm.Txn
	retry  bool // may report ErrTxnTooBig
}

func (b *zzBody) run(txn mondis.ProviderTxn) error {
	t := txn.(*zzkvm.Txn)
	b.calls++
	gvc.Ensures("the body runs in an open transaction of the requested kind", t.DB == b.db && t.Update == b.update && !t.Committed && !t.Discarded && t != b.last)
	gvc.Ensures("the transaction starts from the committed content", gvc.Same(t.M, b.m))
	b.last = t
	b.out = gvc.AnyMap("content")
	t.M = b.out
	b.err = nil
	if b.retry && gvc.AnyBool("too big") {
		b.err = kv.ErrTxnTooBig
		b.m = b.out
	} else {
		b.err = gvc.Fault("body")
	}
	return b.err
}

//gvc:prove C20
func zzUpdateTxn(m gvc.Map, how int, nilCallback bool) {
	gvc.Requires(0 <= how && how <= 2)
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	b := &zzBody{db: db, update: true, m: m}
	cancelled, after := 0, 0
	var err error
	if how == 0 {
		err = RunInNewUpdateTxn(db, b.run)
	} else if how == 1 {
		err = RunInNewUpdateTxnWithCancel(db, b.run, func() {
			gvc.Ensures("the cancel function runs after the commit failed", b.last.Failed && db.Commits == 0)
			cancelled++
		})
	} else if nilCallback {
		err = RunInNewUpdateTxnWithCallback(db, b.run, nil)
	} else {
		err = RunInNewUpdateTxnWithCallback(db, b.run, func() {
			gvc.Ensures("the callback sees the committed content", db.Commits == 1 && gvc.Same(db.M, b.out))
			after++
		})
	}
	gvc.Ensures("the body runs exactly once", b.calls == 1)
	gvc.Ensures("the error of the body is returned", b.err == nil || err == b.err)
	gvc.Ensures("success is reported exactly when the content was committed", (err == nil) == (db.Commits == 1))
	gvc.Ensures("a transaction fails only when its body or its commit does", err == nil || b.err != nil || b.last.Failed)
	if err == nil {
		gvc.Ensures("what the body wrote is committed", gvc.Same(db.M, b.out))
	} else {
		gvc.Ensures("a failed transaction leaves nothing behind", gvc.Same(db.M, m))
	}
	gvc.Ensures("the cancel function runs exactly when the commit failed", cancelled == gvc.Int(how == 1 && b.last.Failed))
	gvc.Ensures("the callback runs exactly when the commit succeeded", after == gvc.Int(how == 2 && !nilCallback && err == nil))
	gvc.Ensures("every transaction is ended", db.Opened == db.Ended)
}

//gvc:prove C20
func zzReadTxn(m gvc.Map) {
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	b := &zzBody{db: db, m: m}
	err := RunInNewTxn(db, b.run)
	gvc.Ensures("the body runs exactly once", b.calls == 1)
	gvc.Ensures("the error of the body is returned", err == b.err)
	gvc.Ensures("a read-only transaction changes nothing", gvc.Same(db.M, m) && db.Commits == 0)
	gvc.Ensures("every transaction is ended", db.Opened == db.Ended)
}

//gvc:prove C20
func zzTooBig(m, m1 gvc.Map) {
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	b := &zzBody{db: db, update: true, m: m1, retry: true}
	first := db.NewTransaction(true).(*zzkvm.Txn)
	first.M = m1
	gvc.Unroll(maxTry + 1)
	final, err := TryCommitWhenTxnTooBig(db, first, b.run)
	gvc.Ensures("the body runs at least once", b.calls >= 1)
	t := final.(*zzkvm.Txn)
	gvc.Ensures("the transaction returned is the one the body last used", t == b.last)
	if err == nil {
		gvc.Ensures("success means that the body succeeded", b.err == nil)
		gvc.Ensures("the last transaction is left open with what the body wrote", !t.Committed && !t.Discarded && gvc.Same(t.M, b.out))
	} else {
		gvc.Ensures("the error of the body or of a commit is returned", err == b.err || b.err == kv.ErrTxnTooBig && t.Failed)
	}
	gvc.Ensures("what was written before a retry is committed", b.err == kv.ErrTxnTooBig || db.Commits == b.calls-1)
	gvc.Ensures("every transaction but the last one is ended", db.Opened == db.Ended+1)
	if b.calls == 1 {
		gvc.Ensures("nothing is committed without a retry", gvc.Same(db.M, m))
	} else {
		gvc.Ensures("a retry starts from what was committed", gvc.Same(db.M, b.m) || b.err == kv.ErrTxnTooBig)
	}
}

//gvc:prove C20
func zzChooseTime(base, max time.Duration) {
	r := ChooseTime(base, max)
	gvc.Ensures("the chosen time is the base unless it is zero or above the maximum", r == base && base != 0 && base <= max || r == max && (base == 0 || base > max))
}
