package txn

import (
	"context"
	"math/rand"

	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	zzkvm "github.com/zhiqiangxu/mondis/zzkvm"
)

// zzBegin begins a transaction with a cache, or without any.
func zzBegin(m gvc.Map, start int64, diffs [][]int64, update, has bool) (*zzkvm.DB, *schema.Handle, *schema.MetaCache, *Txn) {
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound, TooBig: kv.ErrTxnTooBig})
	h := schema.NewHandle()
	var old *schema.MetaCache
	if has {
		old = schema.ZZMC(start, diffs, make(map[string]*model.DBInfo))
		gvc.Requires(h.Update(context.Background(), old) == nil)
	}
	t := NewTxn(h, update, db)
	gvc.Ensures("a transaction begins with the cache of the time", t.StartMetaCache() == old)
	gvc.Ensures("one transaction of the mode asked for begins", db.Opened == 1 && db.Ended == 0 && db.Last.Update == update)
	return db, h, old, t
}

// The history of a transaction while the schema stays the same, with any failure on the way.
//gvc:shape shapeTxn
//gvc:prove C18
func zzTxn(m gvc.Map, start int64, diffs [][]int64, refs, refs2 []int64, k, v []byte, update, has, commit bool, cancels int) {
	gvc.Requires(0 <= cancels && cancels <= 2)
	db, _, _, t := zzBegin(m, start, diffs, update, has)
	ran1, ran2 := 0, 0
	if update {
		if cancels > 0 {
			t.AddCancelFunc(func() { ran1++ })
		}
		if cancels > 1 {
			t.AddCancelFunc(func() { ran2++ })
		}
	}
	t.ReferredCollections(refs...)
	t.ReferredCollections(refs2...)
	if update {
		if err := t.Set(k, v, nil); err == nil {
			got, _, err := t.Get(k)
			gvc.Ensures("a transaction reads its own writes", err != nil || string(got) == string(v))
		}
	}
	w := db.Last.M
	gvc.Ensures("nothing is published before the commit", db.Commits == 0 && gvc.Same(db.M, m))
	if !commit {
		t.Discard()
		gvc.Ensures("a discarded transaction publishes nothing", db.Ended == 1 && db.Commits == 0 && gvc.Same(db.M, m))
		gvc.Ensures("no cancel function runs without a commit", ran1 == 0 && ran2 == 0)
		return
	}
	err := t.Commit()
	t.Discard()
	gvc.Ensures("the transaction is ended", db.Ended == 1)
	gvc.Ensures("the commit is up to the store", !update || (err == nil) == (db.Commits == 1) && (err != nil) == db.Last.Failed)
	gvc.Ensures("no conflict without a change of the schema", err != ErrDDLConflict)
	if !update {
		gvc.Ensures("a read-only transaction publishes nothing and does not fail", err == nil && db.Commits == 0 && gvc.Same(db.M, m))
		return
	}
	if err == nil {
		gvc.Ensures("a commit publishes what was written", db.Commits == 1 && gvc.Same(db.M, w))
		gvc.Ensures("no cancel function runs after a commit", ran1 == 0 && ran2 == 0)
	} else {
		gvc.Ensures("a failed commit publishes nothing", db.Commits == 0 && gvc.Same(db.M, m))
		gvc.Ensures("every cancel function runs once after a failed commit", ran1 == gvc.Int(cancels > 0) && ran2 == gvc.Int(cancels > 1))
	}
}

// A transaction that referred to a collection whose schema changed meanwhile does not commit.
//gvc:shape shapeConflict
//gvc:prove C18
func zzConflict(m gvc.Map, start, start2 int64, diffs, diffs2 [][]int64, refs, refs2 []int64, i, j, r int, k, v []byte, has, second bool) {
	gvc.Requires(0 <= i && i < len(diffs2) && 0 <= j && j < len(diffs2[i]))
	id := diffs2[i][j]
	rs := refs
	if second {
		rs = refs2
	}
	gvc.Requires(0 <= r && r < len(rs) && rs[r] == id)
	at := start2 + int64(i)
	db, h, old, t := zzBegin(m, start, diffs, true, has)
	since := int64(0)
	if has {
		since = old.Version()
		gvc.Requires(at > since)
	}
	ran := 0
	t.AddCancelFunc(func() { ran++ })
	gvc.Loop(func(rangeindex int, txn *Txn) bool {
		_, ok := txn.referredCollections[id]
		return txn.referredCollections != nil && (ok || second || r > rangeindex)
	})
	gvc.Loop(func(rangeindex int, txn *Txn) bool {
		_, ok := txn.referredCollections[id]
		return txn.referredCollections != nil && (ok || r > rangeindex)
	})
	gvc.Loop(func(txn *Txn) bool {
		_, ok := txn.referredCollections[id]
		return ok
	})
	gvc.Loop(func(i int64) bool { return i > since && i <= start2+int64(len(diffs2)) })
	gvc.Loop(func(i int64) bool { return i <= at })
	gvc.Loop(func(i int64, rangeindex int) bool { return at != i || j > rangeindex })
	t.ReferredCollections(refs...)
	t.ReferredCollections(refs2...)
	wrote := t.Set(k, v, nil)
	_ = wrote
	now := schema.ZZMC(start2, diffs2, make(map[string]*model.DBInfo))
	gvc.Requires(now.Version() >= since)
	gvc.Requires(h.Update(context.Background(), now) == nil)
	err := t.Commit()
	t.Discard()
	gvc.Ensures("a transaction whose collections changed does not commit", err == ErrDDLConflict && db.Commits == 0 && gvc.Same(db.M, m))
	gvc.Ensures("the cancel function runs once", ran == 1)
	gvc.Ensures("the transaction is ended", db.Ended == 1)
}

// A transaction whose collections did not change meanwhile meets no conflict.
//gvc:shape shapeNoConflict
//gvc:prove C18
func zzNoConflict(m gvc.Map, start, start2 int64, diffs, diffs2 [][]int64, refs []int64, k, v []byte) {
	db, h, old, t := zzBegin(m, start, diffs, true, true)
	since := old.Version()
	now := schema.ZZMC(start2, diffs2, make(map[string]*model.DBInfo))
	gvc.Requires(start2-1 <= since && since <= now.Version())
	gvc.Requires(gvc.Forall(0, len(diffs2), func(i int) bool {
		return start2+int64(i) <= since || gvc.Forall(0, len(diffs2[i]), func(j int) bool {
			return gvc.Forall(0, len(refs), func(r int) bool { return refs[r] != diffs2[i][j] })
		})
	}))
	gvc.Loop(func(txn *Txn) bool {
		return gvc.Forall(0, len(diffs2), func(i int) bool {
			return start2+int64(i) <= since || gvc.Forall(0, len(diffs2[i]), func(j int) bool {
				_, ok := txn.referredCollections[diffs2[i][j]]
				return !ok
			})
		})
	})
	gvc.Loop(func(txn *Txn) bool { return txn.referredCollections != nil })
	gvc.Loop(func(i int64) bool { return i > since && i <= now.Version()+1 })
	t.ReferredCollections(refs...)
	gvc.Requires(h.Update(context.Background(), now) == nil)
	err := t.Commit()
	gvc.Ensures("no conflict when no collection referred to changed", err != ErrDDLConflict)
	gvc.Ensures("the commit is up to the store", (err == nil) == (db.Commits == 1) && (err != nil) == db.Last.Failed)
}

// A read-only transaction has no cancel functions.
//gvc:prove C18
func zzReadOnly(m gvc.Map, start int64, diffs [][]int64, k []byte) {
	db, _, _, t := zzBegin(m, start, diffs, false, true)
	v, _, err := t.Get(k)
	gvc.Ensures("a transaction reads what is stored", err != nil || m.Has(string(k)) && string(v) == m.Get(string(k)))
	gvc.Ensures("an absent key is not found", err != kv.ErrKeyNotFound || !m.Has(string(k)))
	t.Discard()
	gvc.Ensures("the transaction is ended", db.Ended == 1)
}

// A schema change published while the transaction begins is one it conflicts with.
//gvc:shape shapeBegin
//gvc:prove C18
func zzBeginConflict(m gvc.Map, start int64, diffs [][]int64, more []int64, j int, ref int64) {
	gvc.Requires(0 <= j && j < len(more) && more[j] == ref)
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	h := schema.NewHandle()
	old := schema.ZZMC(start, diffs, make(map[string]*model.DBInfo))
	gvc.Requires(h.Update(context.Background(), old) == nil)
	now := schema.ZZMC(old.Version()+1, [][]int64{more}, make(map[string]*model.DBInfo))
	db.OnOpen = func() {
		gvc.Requires(h.Update(context.Background(), now) == nil)
	}
	t := NewTxn(h, true, db)
	since := old.Version()
	gvc.Loop(func(i int64) bool { return i == since+1 })
	gvc.Loop(func(rangeindex int) bool { return j > rangeindex })
	t.ReferredCollections(ref)
	err := t.Commit()
	gvc.Ensures("a transaction that began before a schema change conflicts with it", err == ErrDDLConflict && db.Commits == 0)
}

func shapeTxn(r *rand.Rand, m *gvc.Map, start *int64, diffs *[][]int64, refs, refs2 *[]int64, k, v *[]byte, update, has, commit *bool, cancels *int) {
	*start = 1 + int64(r.Intn(3))
	*diffs = schema.ZZShapeIDs(r, r.Intn(4))
	*cancels = r.Intn(3)
}

func shapeConflict(r *rand.Rand, m *gvc.Map, start, start2 *int64, diffs, diffs2 *[][]int64, refs, refs2 *[]int64, i, j, at *int, k, v *[]byte, has, second *bool) {
	*start = 1 + int64(r.Intn(3))
	*diffs = schema.ZZShapeIDs(r, r.Intn(4))
	*start2 = *start + int64(r.Intn(3))
	*diffs2 = schema.ZZShapeIDs(r, 1+r.Intn(6))
	*i = r.Intn(len(*diffs2))
	if len((*diffs2)[*i]) == 0 {
		(*diffs2)[*i] = []int64{5}
	}
	*j = r.Intn(len((*diffs2)[*i]))
	rs := refs
	if *second {
		rs = refs2
	}
	*at = r.Intn(len(*rs) + 1)
	*rs = append((*rs)[:*at:*at], (*diffs2)[*i][*j])
}

func shapeNoConflict(r *rand.Rand, m *gvc.Map, start, start2 *int64, diffs, diffs2 *[][]int64, refs *[]int64, k, v *[]byte) {
	*start = 1 + int64(r.Intn(3))
	*diffs = schema.ZZShapeIDs(r, r.Intn(4))
	*diffs2 = append((*diffs)[:len(*diffs):len(*diffs)], schema.ZZShapeIDs(r, r.Intn(4))...)
	*start2 = *start
	*refs = nil
	for n := r.Intn(4); n > 0; n-- {
		*refs = append(*refs, int64(r.Intn(12)))
	}
}

func shapeBegin(r *rand.Rand, m *gvc.Map, start *int64, diffs *[][]int64, more *[]int64, j *int, ref *int64) {
	*start = 1 + int64(r.Intn(3))
	*diffs = schema.ZZShapeIDs(r, r.Intn(4))
	if len(*more) == 0 {
		*more = []int64{4}
	}
	*j = r.Intn(len(*more))
	*ref = (*more)[*j]
}

// ZZReferred tells whether a transaction remembers a collection.
func ZZReferred(t *Txn, cid int64) bool {
	_, ok := t.referredCollections[cid]
	return ok
}
