package dml

import (
	"context"
	"math/rand"

	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	zzkvm "github.com/zhiqiangxu/mondis/zzkvm"
	"go.mongodb.org/mongo-driver/bson"
)

// zzColl is a collection that a user works with: on a transaction of its own, or on one given to each operation.
type zzColl struct {
	db    *zzkvm.DB
	h     *schema.Handle
	c     *Collection
	t     *txn.Txn
	cid   int64
	known bool
	m     gvc.Map
}

// specText is the text of a document.
func specText(doc int64) string {
	b, _ := bson.Marshal(bson.M{Doc: doc})
	return string(b)
}

// specDoc: a text is that of a document.
func specDoc(text string, doc int64) bool {
	var out bson.M
	err := bson.Unmarshal([]byte(text), &out)
	return err == nil && out.Doc == doc
}

// zzWF: every key with the prefix of a collection is the key of a document.
func zzWF(m gvc.Map, cid int64) bool {
	return gvc.ForKeys([]gvc.Map{m}, nil, func(s string) bool {
		return gvc.Imp(m.Has(s) && gvc.HasPrefix(s, ZZDP(cid)), func() bool { return s == ZZDK(cid, ZZDid(s)) })
	})
}

// zzDocs puts documents into a content (concrete executions only).
func zzDocs(m gvc.Map, cid int64, dids []int64) gvc.Map {
	if gvc.Symbolic() {
		return m
	}
	for i, d := range dids {
		m = m.Put(ZZDK(cid, d), specText(int64(i)*7))
	}
	return m
}

func zzOpen(m gvc.Map, cid int64, known, own, update bool) *zzColl {
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	h := schema.NewHandle()
	cs := make(map[string]*model.CollectionInfo)
	if known {
		cs["c"] = &model.CollectionInfo{ID: cid, Name: "c"}
	}
	dbs := make(map[string]*model.DBInfo)
	dbs["d"] = &model.DBInfo{ID: 1, Name: "d", Collections: cs}
	gvc.Requires(h.Update(context.Background(), schema.ZZMC(1, nil, dbs)) == nil)
	z := &zzColl{db: db, h: h, c: newCollection("d", "c", db, h), cid: cid, known: known, m: m}
	if !own {
		z.t = z.c.Txn(update)
	}
	return z
}

// end judges the end of an operation, and tells the content it leaves to its reader: committed, or in the transaction given.
func (z *zzColl) end(err error) gvc.Map {
	if z.t == nil {
		gvc.Ensures("a transaction of its own is ended", z.db.Opened == z.db.Ended)
		gvc.Ensures("a failed operation publishes nothing", err == nil || z.db.Commits == 0 && gvc.Same(z.db.M, z.m))
		return z.db.M
	}
	gvc.Ensures("a transaction given stays open", z.db.Opened == 1 && z.db.Ended == 0)
	gvc.Ensures("a transaction given is left to be committed by the user", z.db.Commits == 0 && gvc.Same(z.db.M, z.m))
	gvc.Ensures("a transaction given remembers the collection", !z.known || txn.ZZReferred(z.t, z.cid))
	return z.db.Last.M
}

// missing judges an operation on a collection the schema does not know.
func (z *zzColl) missing(err error) bool {
	if z.known {
		gvc.Ensures("a collection of the schema exists", err != ErrCollectionNotExists)
		return false
	}
	gvc.Ensures("a missing collection is reported", err == ErrCollectionNotExists)
	gvc.Ensures("nothing is read or written in a missing collection", gvc.Same(z.end(err), z.m))
	return true
}

//gvc:prove C19
//gvc:uses zzInvDK
func zzUpdate(m gvc.Map, cid, did, doc int64, mode uint8, other string, known, own, update, bad bool) {
	gvc.Requires(mode < 3 && (own || update))
	z := zzOpen(m, cid, known, own, update)
	k := ZZDK(cid, did)
	var exists, isNew bool
	var err error
	d := bson.M{Doc: doc, Bad: bad}
	switch mode {
	case 0:
		exists, err = z.c.UpdateOne(did, d, z.t)
	case 1:
		isNew, err = z.c.UpsertOne(did, d, z.t)
	default:
		err = z.c.InsertOneManaged(did, d, z.t)
	}
	if bad {
		gvc.Ensures("a document that cannot be encoded is not stored", err != nil && z.db.Commits == 0 && gvc.Same(z.db.M, m) && (own || gvc.Same(z.db.Last.M, m)))
		return
	}
	if z.missing(err) {
		return
	}
	w := z.end(err)
	has := m.Has(k)
	gvc.Ensures("only an existing document is not inserted again", (err == ErrDocExists) == (mode == 2 && has && z.db.Faults == 0))
	gvc.Ensures("an operation fails exactly when the store fails", err == ErrDocExists || (err != nil) == (z.db.Faults > 0))
	if err != nil {
		gvc.Ensures("a failed write changes nothing", gvc.Same(w, m))
		return
	}
	gvc.Ensures("an update tells whether the document exists", mode != 0 || exists == has)
	gvc.Ensures("an upsert tells whether the document is new", mode != 1 || isNew == !has)
	if mode == 0 && !has {
		gvc.Ensures("a missing document is not updated", gvc.Same(w, m))
		return
	}
	gvc.Ensures("the document is stored", w.Has(k) && specDoc(w.Get(k), doc))
	gvc.Ensures("nothing else changes", other == k || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
}

//gvc:prove C19
//gvc:uses zzInvDK
func zzDelete(m gvc.Map, cid, did int64, other string, known, own bool) {
	z := zzOpen(m, cid, known, own, true)
	k := ZZDK(cid, did)
	err := z.c.DeleteOne(did, z.t)
	if z.missing(err) {
		return
	}
	w := z.end(err)
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	if err != nil {
		gvc.Ensures("a failed deletion changes nothing", gvc.Same(w, m))
		return
	}
	gvc.Ensures("the document is gone", !w.Has(k))
	gvc.Ensures("nothing else changes", other == k || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
}

//gvc:prove C19
//gvc:uses zzInvDK
func zzGetOne(m gvc.Map, cid, did, doc int64, known, own, update, has bool) {
	k := ZZDK(cid, did)
	if has {
		m = m.Put(k, specText(doc))
	}
	z := zzOpen(m, cid, known, own, update)
	var out bson.M
	err := z.c.GetOne(did, &out, z.t)
	if z.missing(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("a document stored is read back", !has || z.db.Faults > 0 || err == nil && out.Doc == doc)
	gvc.Ensures("a missing document is reported", (err == ErrDocNotFound) == (!m.Has(k) && z.db.Faults == 0))
	gvc.Ensures("a storage error is reported", z.db.Faults == 0 || err != nil)
}

//gvc:prove C19
//gvc:uses zzInvDK
//gvc:shape shapeGetMany
func zzGetMany(m gvc.Map, cid int64, dids []int64, did, doc int64, n int, known, own bool) {
	gvc.Requires(0 <= n && n < len(dids) && dids[n] == did)
	k := ZZDK(cid, did)
	m = m.Put(k, specText(doc))
	z := zzOpen(m, cid, known, own, false)
	var out []bson.M
	gvc.Loop(func(rangeindex int) bool { return len(out) == rangeindex+1 })
	gvc.Loop(func(rangeindex int) bool { return n > rangeindex || out[n].Doc == doc })
	gvc.Loop(func() bool { return z.db.Faults == 0 })
	gvc.Loop(func(rangeindex int) bool {
		return gvc.Forall(0, rangeindex+1, func(i int) bool { return m.Has(ZZDK(cid, dids[i])) })
	})
	err := z.c.GetMany(dids, &out, z.t)
	if z.missing(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("a storage error is reported", z.db.Faults == 0 || err != nil)
	if err == nil {
		gvc.Ensures("every document asked for is read", len(out) == len(dids))
		gvc.Ensures("a document stored is read back in its place", out[n].Doc == doc)
		gvc.Ensures("a missing document is reported", gvc.Forall(0, len(dids), func(i int) bool { return m.Has(ZZDK(cid, dids[i])) }))
	}
}

//gvc:prove C19
//gvc:uses zzInvDK zzInvDP zzDocOrder
func zzRange(m gvc.Map, cid, did int64, dids []int64, known, own bool) {
	m = zzDocs(m, cid, dids)
	gvc.Requires(zzWF(m, cid))
	z := zzOpen(m, cid, known, own, false)
	min, max, err := z.c.GetDidRange(z.t)
	if z.missing(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	if err != nil {
		return
	}
	has := m.Has(ZZDK(cid, did))
	gvc.Ensures("every document lies in the range", !has || min <= did && did <= max)
	gvc.Ensures("the bounds of the range are documents", !has || m.Has(ZZDK(cid, min)) && m.Has(ZZDK(cid, max)))
	gvc.Ensures("the range of an empty collection is empty", m.Has(ZZDK(cid, min)) && m.Has(ZZDK(cid, max)) || min == 0 && max == 0)
}

//gvc:prove C19
//gvc:uses zzInvDK zzInvDP
func zzCount(m gvc.Map, cid, did int64, i1 int, dids []int64, known, own bool) {
	m = zzDocs(m, cid, dids)
	gvc.Requires(zzWF(m, cid))
	z := zzOpen(m, cid, known, own, false)
	gvc.Loop(func(i, n int) bool { return n == i })
	gvc.Loop(func() bool { return z.db.Faults == 0 })
	n, err := z.c.Count(z.t)
	if z.missing(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	if err != nil {
		return
	}
	j := gvc.ScanPos(ZZDK(cid, did))
	gvc.Ensures("every document is counted", !m.Has(ZZDK(cid, did)) || 0 <= j && j < n)
	s := gvc.ScanAt(i1)
	gvc.Ensures("only documents are counted", !(0 <= i1 && i1 < n) || m.Has(s) && gvc.HasPrefix(s, ZZDP(cid)))
}

//gvc:prove C19
//gvc:uses zzInvDK zzInvDP
func zzGetAll(m gvc.Map, cid, did, doc int64, dids []int64, known, own, has bool) {
	m = zzDocs(m, cid, dids)
	if has {
		m = m.Put(ZZDK(cid, did), specText(doc))
	}
	gvc.Requires(zzWF(m, cid))
	z := zzOpen(m, cid, known, own, false)
	var out []bson.M
	u := ZZDK(cid, did)
	gvc.Loop(func(i int) bool { return len(out) == i })
	gvc.Loop(func(i int, ks []string) bool { return !has || i <= gvc.ScanPos(u) || out[gvc.ScanPos(u)].Doc == doc })
	gvc.Loop(func() bool { return z.db.Faults == 0 })
	err := z.c.GetAll(&out, z.t)
	if z.missing(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("a storage error is reported", z.db.Faults == 0 || err != nil)
	if err == nil {
		j := gvc.ScanPos(u)
		gvc.Ensures("every document is read", !has || 0 <= j && j < len(out) && out[j].Doc == doc)
		s := gvc.ScanAt(len(out) - 1)
		gvc.Ensures("only documents are read", len(out) == 0 || m.Has(s) && gvc.HasPrefix(s, ZZDP(cid)))
	}
}

//gvc:prove C19
//gvc:uses zzInvDK zzInvDP
func zzDeleteAll(m gvc.Map, cid, did int64, dids []int64, other string, known, own bool) {
	m = zzDocs(m, cid, dids)
	gvc.Requires(zzWF(m, cid))
	z := zzOpen(m, cid, known, own, true)
	u := ZZDK(cid, did)
	gvc.Loop(func(i int) bool { return !z.db.Last.M.Has(u) || m.Has(u) && gvc.ScanPos(u) >= i })
	gvc.Loop(func() bool {
		w := z.db.Last.M
		return gvc.HasPrefix(other, ZZDP(cid)) || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other)
	})
	gvc.Loop(func(i, n int) bool { return n == i })
	gvc.Loop(func() bool { return z.db.Faults == 0 })
	n, err := z.c.DeleteAll(z.t)
	if z.missing(err) {
		return
	}
	w := z.end(err)
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	if err == nil {
		gvc.Ensures("no document is left", !w.Has(u))
		gvc.Ensures("every document is counted", !m.Has(u) || 0 <= gvc.ScanPos(u) && gvc.ScanPos(u) < n)
		gvc.Ensures("nothing else changes", gvc.HasPrefix(other, ZZDP(cid)) || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
	}
}

// A document inserted is stored under an id its collection's sequence gives out, and the id is given back if the commit fails.
//gvc:prove C19
//gvc:uses zzInvDK
func zzInsert(m gvc.Map, cid, doc, next, leased int64, back []int64, other string, known, own, update, bad, seqd, commit bool) {
	gvc.Requires(own || update)
	z := zzOpen(m, cid, known, own, update)
	seq := sequence.ZZHashSeq(z.db, next, leased, back)
	if seqd {
		sequenceMap.Store(cid, seq)
	} else {
		sequenceMap.Delete(cid)
	}
	defer sequenceMap.Delete(cid)
	did, err := z.c.InsertOne(bson.M{Doc: doc, Bad: bad}, z.t)
	backs := sequence.ZZBack(seq)
	if bad {
		gvc.Ensures("a document that cannot be encoded is not stored", err != nil && z.db.Commits == 0 && (own || gvc.Same(z.db.Last.M, m)))
		return
	}
	if z.missing(err) {
		return
	}
	w := z.end(err)
	gvc.Ensures("a missing sequence is reported", seqd == (err != ErrSequenceNotExists))
	if err != nil {
		gvc.Ensures("an operation fails only when the store fails", !seqd || z.db.Faults > 0)
		gvc.Ensures("a failed insertion changes nothing", gvc.Same(w, m))
		gvc.Ensures("an id is given back at most once", len(backs) <= len(back)+1)
		return
	}
	gvc.Ensures("a storage error is reported", z.db.Faults == 0)
	n := len(back)
	gvc.Ensures("a new document gets the next id of its collection", n > 0 && did == back[n-1] || n == 0 && did == next+1 && sequence.ZZNext(seq) == did)
	gvc.Ensures("the id of a document is not given back", len(backs) == n-gvc.Int(n > 0))
	k := ZZDK(cid, did)
	gvc.Ensures("the document is stored", w.Has(k) && specDoc(w.Get(k), doc))
	gvc.Ensures("nothing else changes", other == k || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
	if own || !commit {
		return
	}
	err = z.t.Commit()
	backs = sequence.ZZBack(seq)
	if err != nil {
		gvc.Ensures("an id whose commit failed is given back", len(backs) == n-gvc.Int(n > 0)+1 && backs[len(backs)-1] == did)
	} else {
		gvc.Ensures("the id of a committed document is not given back", len(backs) == n-gvc.Int(n > 0))
	}
}

// The table of sequences.
//gvc:prove C19
func zzSequences(m gvc.Map, cid, bw int64, there, ifExists bool) {
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	seq := sequence.ZZHashSeq(db, 1, 5, nil)
	sequenceMap.Delete(cid)
	if there {
		sequenceMap.Store(cid, seq)
	}
	gvc.Ensures("the sequence of a collection is found", (GetSequence(cid) == seq) == there && (GetSequence(cid) == nil) == !there)
	var err error
	if ifExists {
		err = DropSequenceIfExists(cid)
	} else {
		err = DropSequence(cid)
		gvc.Ensures("a missing sequence is reported", (err == ErrSequenceNotExists) == !there)
	}
	gvc.Ensures("a sequence dropped is gone and closed", GetSequence(cid) == nil && sequence.ZZClosed(seq) == there)
}

func shapeGetMany(r *rand.Rand, m *gvc.Map, cid *int64, dids *[]int64, did, doc *int64, n *int, known, own *bool) {
	*dids = nil
	for k := r.Intn(4); k >= 0; k-- {
		*dids = append(*dids, int64(r.Intn(5)))
	}
	*n = r.Intn(len(*dids))
	*did = (*dids)[*n]
	for _, d := range *dids {
		if r.Intn(6) > 0 {
			*m = m.Put(ZZDK(*cid, d), specText(d))
		}
	}
}

// Databases, collections and indexes are found exactly if the schema has them.
//gvc:prove C19
func zzLookup(m gvc.Map, cid int64, loaded, known bool, dn, cn, in string, own bool) {
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	h := schema.NewHandle()
	if loaded {
		cs := make(map[string]*model.CollectionInfo)
		if known {
			is := make(map[string]*model.IndexInfo)
			is["i"] = &model.IndexInfo{ID: 3, Name: "i"}
			cs["c"] = &model.CollectionInfo{ID: cid, Name: "c", Indices: is}
		}
		dbs := make(map[string]*model.DBInfo)
		dbs["d"] = &model.DBInfo{ID: 1, Name: "d", Collections: cs}
		gvc.Requires(h.Update(context.Background(), schema.ZZMC(1, nil, dbs)) == nil)
	}
	d, err := NewDB(dn, db, h)
	gvc.Ensures("a database is found exactly if the schema has it", (err == nil) == (loaded && dn == "d") && (err == nil) == (d != nil))
	gvc.Ensures("a missing database is reported", err == nil || err == ErrDBNotExists)
	if err != nil {
		return
	}
	c, err := d.Collection(cn)
	gvc.Ensures("a collection is found exactly if the schema has it", (err == nil) == (known && cn == "c") && (err == nil) == (c != nil))
	gvc.Ensures("a missing collection is reported", err == nil || err == ErrCollectionNotExists)
	if err != nil {
		return
	}
	i, err := c.Index(in)
	gvc.Ensures("an index is found exactly if the schema has it", (err == nil) == (in == "i") && (err == nil) == (i != nil))
	gvc.Ensures("a missing index is reported", err == nil || err == ErrIndexNotExists)
	var t *txn.Txn
	if !own {
		t = c.Txn(false)
	}
	is, err := c.GetIndices(t)
	gvc.Ensures("the indexes are listed", err == nil && len(is) == 1 && is[0].Name == "i" && is[0].ID == 3)
	gvc.Ensures("transactions of its own are ended, others are not", db.Opened == 1 && db.Ended == gvc.Int(own) && (own || txn.ZZReferred(t, cid)))
}
