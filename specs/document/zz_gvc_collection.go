package document

import (
	"math/rand"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	zzkvm "github.com/zhiqiangxu/mondis/zzkvm"
	"github.com/zhiqiangxu/util/closer"
	"go.mongodb.org/mongo-driver/bson"
)

// zzColl is a collection that a user works with: on a transaction of its own, or on one given to each operation.
type zzColl struct {
	db    *zzkvm.DB
	c     *Collection
	t     mondis.ProviderTxn
	t0    *zzkvm.Txn
	cid   int64
	state uint32
	m     gvc.Map
}

func specText(doc int64) string {
	b, _ := bson.Marshal(bson.M{Doc: doc})
	return string(b)
}

func specDoc(text string, doc int64) bool {
	var out bson.M
	err := bson.Unmarshal([]byte(text), &out)
	return err == nil && out.Doc == doc
}

// zzWF: every key with the prefix of a collection is the key of a document.
func zzWF(m gvc.Map, cid int64) bool {
	return gvc.ForKeys([]gvc.Map{m}, nil, func(s string) bool {
		return gvc.Imp(m.Has(s) && gvc.HasPrefix(s, ZZDP(cid)), func() bool { return s == ZZDK(cid, ZZDid(s)) })
	})
}

// zzDocs puts documents into a content (concrete executions only).
func zzDocs(m gvc.Map, cid int64, dids []int64) gvc.Map {
	if gvc.Symbolic() {
		return m
	}
	for i, d := range dids {
		m = m.Put(ZZDK(cid, d), specText(int64(i)*7))
	}
	return m
}

func zzOpen(m gvc.Map, cid int64, state uint32, own, update bool) *zzColl {
	gvc.Requires(state <= closed)
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	d := &DB{kvdb: db, closer: closer.NewStrict(), state: state, collections: make(map[string]*Collection)}
	z := &zzColl{db: db, cid: cid, state: state, m: m}
	z.c = &Collection{db: d, kvdb: db, cid: cid, name: "c", indexMap: make(map[string]IndexDefinition)}
	z.c.documentSequence = &Sequence{kvdb: db, key: EncodeMetaSequenceKey(nil, []byte("c")), bandwidth: 10}
	if !own {
		z.t = db.NewTransaction(update)
		z.t0 = db.Last
	}
	return z
}

// end judges the end of an operation, and tells the content it leaves to its reader: committed, or in the transaction given.
func (z *zzColl) end(err error) gvc.Map {
	if z.t == nil {
		gvc.Ensures("a transaction of its own is ended", z.db.Opened == z.db.Ended)
		gvc.Ensures("a failed operation publishes nothing", err == nil || z.db.Commits == 0 && gvc.Same(z.db.M, z.m))
		return z.db.M
	}
	gvc.Ensures("a transaction given stays open", z.db.Opened == 1 && z.db.Ended == 0)
	gvc.Ensures("a transaction given is left to be committed by the user", z.db.Commits == 0 && gvc.Same(z.db.M, z.m))
	return z.db.Last.M
}

// shut judges an operation on a database that is closed, or about to be.
func (z *zzColl) shut(err error) bool {
	if z.state == open {
		gvc.Ensures("an open database is open", err != ErrAlreadyClosing && err != ErrAlreadyClosed)
		return false
	}
	gvc.Ensures("a closed database is reported", z.state == closing && err == ErrAlreadyClosing || z.state == closed && err == ErrAlreadyClosed)
	gvc.Ensures("nothing is read or written in a closed database", gvc.Same(z.end(err), z.m))
	return true
}

//gvc:prove C19
//gvc:uses zzInvDK
func zzUpdate(m gvc.Map, cid, did, doc int64, mode uint8, other string, state uint32, own, update, bad bool) {
	gvc.Requires(mode < 3 && (own || update))
	z := zzOpen(m, cid, state, own, update)
	k := ZZDK(cid, did)
	var exists, isNew bool
	var err error
	d := bson.M{Doc: doc, Bad: bad}
	switch mode {
	case 0:
		exists, err = z.c.UpdateOne(did, d, z.t)
	case 1:
		isNew, err = z.c.UpsertOne(did, d, z.t)
	default:
		err = z.c.InsertOneManaged(did, d, z.t)
	}
	if bad {
		gvc.Ensures("a document that cannot be encoded is not stored", err != nil && z.db.Commits == 0 && gvc.Same(z.db.M, m) && (own || gvc.Same(z.db.Last.M, m)))
		return
	}
	if z.shut(err) {
		return
	}
	w := z.end(err)
	has := m.Has(k)
	gvc.Ensures("only an existing document is not inserted again", (err == ErrDocIDExists) == (mode == 2 && has && z.db.Faults == 0))
	gvc.Ensures("an operation fails exactly when the store fails", err == ErrDocIDExists || (err != nil) == (z.db.Faults > 0))
	if err != nil {
		gvc.Ensures("a failed write changes nothing", gvc.Same(w, m))
		return
	}
	gvc.Ensures("an update tells whether the document exists", mode != 0 || exists == has)
	gvc.Ensures("an upsert tells whether the document is new", mode != 1 || isNew == !has)
	if mode == 0 && !has {
		gvc.Ensures("a missing document is not updated", gvc.Same(w, m))
		return
	}
	gvc.Ensures("the document is stored", w.Has(k) && specDoc(w.Get(k), doc))
	gvc.Ensures("nothing else changes", other == k || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
}

//gvc:prove C19
//gvc:uses zzInvDK
func zzDelete(m gvc.Map, cid, did int64, other string, state uint32, own bool) {
	z := zzOpen(m, cid, state, own, true)
	k := ZZDK(cid, did)
	err := z.c.DeleteOne(did, z.t)
	if z.shut(err) {
		return
	}
	w := z.end(err)
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	if err != nil {
		gvc.Ensures("a failed deletion changes nothing", gvc.Same(w, m))
		return
	}
	gvc.Ensures("the document is gone", !w.Has(k))
	gvc.Ensures("nothing else changes", other == k || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
}

//gvc:prove C19
//gvc:uses zzInvDK
func zzGetOne(m gvc.Map, cid, did, doc int64, state uint32, own, update, has bool) {
	k := ZZDK(cid, did)
	if has {
		m = m.Put(k, specText(doc))
	}
	z := zzOpen(m, cid, state, own, update)
	out, err := z.c.GetOne(did, z.t)
	if z.shut(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("a document stored is read back", !has || z.db.Faults > 0 || err == nil && out.Doc == doc)
	gvc.Ensures("a missing document is reported", (err == ErrDocNotFound) == (!m.Has(k) && z.db.Faults == 0))
	gvc.Ensures("a storage error is reported", z.db.Faults == 0 || err != nil)
}

//gvc:prove C19
//gvc:uses zzInvDK
//gvc:shape shapeGetMany
func zzGetMany(m gvc.Map, cid int64, dids []int64, did, doc int64, n int, state uint32, own bool) {
	gvc.Requires(0 <= n && n < len(dids) && dids[n] == did)
	k := ZZDK(cid, did)
	m = m.Put(k, specText(doc))
	z := zzOpen(m, cid, state, own, false)
	gvc.Loop(func(datas []bson.M, rangeindex int) bool { return len(datas) == rangeindex+1 })
	gvc.Loop(func(datas []bson.M, rangeindex int) bool { return n > rangeindex || datas[n].Doc == doc })
	gvc.Loop(func() bool { return z.db.Faults == 0 })
	gvc.Loop(func(rangeindex int) bool {
		return gvc.Forall(0, rangeindex+1, func(i int) bool { return m.Has(ZZDK(cid, dids[i])) })
	})
	out, err := z.c.GetMany(dids, z.t)
	if z.shut(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("a storage error is reported", z.db.Faults == 0 || err != nil)
	if err == nil {
		gvc.Ensures("every document asked for is read", len(out) == len(dids))
		gvc.Ensures("a document stored is read back in its place", out[n].Doc == doc)
		gvc.Ensures("a missing document is reported", gvc.Forall(0, len(dids), func(i int) bool { return m.Has(ZZDK(cid, dids[i])) }))
	}
}

//gvc:prove C19
//gvc:uses zzInvDK zzInvDP
func zzCount(m gvc.Map, cid, did int64, i1 int, dids []int64, state uint32, own bool) {
	m = zzDocs(m, cid, dids)
	gvc.Requires(zzWF(m, cid))
	z := zzOpen(m, cid, state, own, false)
	gvc.Loop(func(i, n int) bool { return n == i })
	gvc.Loop(func() bool { return z.db.Faults == 0 })
	n, err := z.c.Count(z.t)
	if z.shut(err) {
		return
	}
	gvc.Ensures("reading changes nothing", gvc.Same(z.end(err), m))
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	if err != nil {
		return
	}
	j := gvc.ScanPos(ZZDK(cid, did))
	gvc.Ensures("every document is counted", !m.Has(ZZDK(cid, did)) || 0 <= j && j < n)
	s := gvc.ScanAt(i1)
	gvc.Ensures("only documents are counted", !(0 <= i1 && i1 < n) || m.Has(s) && gvc.HasPrefix(s, ZZDP(cid)))
}

//gvc:prove C19
//gvc:uses zzInvDK zzInvDP
func zzDeleteAll(m gvc.Map, cid, did int64, dids []int64, other string, state uint32, own bool) {
	m = zzDocs(m, cid, dids)
	gvc.Requires(zzWF(m, cid))
	z := zzOpen(m, cid, state, own, true)
	u := ZZDK(cid, did)
	gvc.Loop(func(i int) bool { return !z.db.Last.M.Has(u) || m.Has(u) && gvc.ScanPos(u) >= i })
	gvc.Loop(func() bool {
		w := z.db.Last.M
		return gvc.HasPrefix(other, ZZDP(cid)) || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other)
	})
	gvc.Loop(func(i, n int) bool { return n == i })
	gvc.Loop(func() bool { return z.db.Faults == 0 })
	n, err := z.c.DeleteAll(z.t)
	if z.shut(err) {
		return
	}
	w := z.end(err)
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	if err == nil {
		gvc.Ensures("no document is left", !w.Has(u))
		gvc.Ensures("every document is counted", !m.Has(u) || 0 <= gvc.ScanPos(u) && gvc.ScanPos(u) < n)
		gvc.Ensures("nothing else changes", gvc.HasPrefix(other, ZZDP(cid)) || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
	}
}

// A document inserted is stored under an id its collection's sequence gives out, which may have to lease new ids first.
//gvc:prove C19
//gvc:uses zzInvDK zzInvSQ
func zzInsert(m gvc.Map, cid, doc int64, next, leased uint64, stored uint64, other string, state uint32, own, bad bool) {
	gvc.Requires(next <= leased && leased <= stored && zzUSmall(stored))
	m = zzPutSeq(m, "c", stored)
	z := zzOpen(m, cid, state, own, true)
	z.c.documentSequence.next, z.c.documentSequence.leased = next, leased
	did, err := z.c.InsertOne(bson.M{Doc: doc, Bad: bad}, z.t)
	if bad {
		gvc.Ensures("a document that cannot be encoded is not stored", err != nil && z.db.Commits == 0 && gvc.Same(z.db.M, m))
		return
	}
	if z.state != open {
		z.shut(err)
		return
	}
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (z.db.Faults > 0))
	k := ZZDK(cid, did)
	w := z.db.M
	if z.t == nil {
		gvc.Ensures("a transaction of its own is ended", z.db.Opened == z.db.Ended)
	} else {
		gvc.Ensures("a transaction given stays open", !z.t0.Discarded && !z.t0.Committed)
		w = z.t0.M
	}
	if err != nil {
		gvc.Ensures("a failed insertion stores no document", other == zzSQ("c") || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
		return
	}
	gvc.Ensures("a new document gets the next id of its collection", next < leased && did == int64(next)+1 || next == leased && did == int64(stored)+1)
	gvc.Ensures("the document is stored", w.Has(k) && specDoc(w.Get(k), doc))
	gvc.Ensures("nothing else changes", other == k || other == zzSQ("c") || w.Has(other) == m.Has(other) && w.Get(other) == m.Get(other))
}

func shapeGetMany(r *rand.Rand, m *gvc.Map, cid *int64, dids *[]int64, did, doc *int64, n *int, state *uint32, own *bool) {
	*dids = nil
	for k := r.Intn(4); k >= 0; k-- {
		*dids = append(*dids, int64(r.Intn(5)))
	}
	*n = r.Intn(len(*dids))
	*did = (*dids)[*n]
	*state = 0
	for _, d := range *dids {
		if r.Intn(6) > 0 {
			*m = m.Put(ZZDK(*cid, d), specText(d))
		}
	}
}
