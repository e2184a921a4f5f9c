package document

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// zzSeq is a sequence over a store, with what the rest of the world did: the ids up to v are leased by some sequence.
type zzSeq struct {
	db   *zzkvm.DB
	word string
	seq  *Sequence
	v    uint64  // the last id leased by anybody
	h    uint64  // an id that was handed out, or that another live sequence may still hand out
	m    gvc.Map // content before the last transaction
}

func zzUIn(x, lo, hi uint64) bool { return lo < x && x <= hi }

func zzUSmall(x uint64) bool { return x < 1<<60 }

// zzPutSeq puts a counter into a content.
func zzPutSeq(m gvc.Map, word string, v uint64) gvc.Map {
	return m.Put(zzSQ(word), string(numeric.Encode2Binary(v, nil)))
}

// zzGetSeq reads the committed counter.
func zzGetSeq(m gvc.Map, word string) uint64 {
	v, err := numeric.DecodeFromBinary([]byte(m.Get(zzSQ(word))))
	gvc.Ensures("the stored counter stays readable", err == nil && m.Has(zzSQ(word)))
	return v
}

func zzNewSeq(m gvc.Map, word []byte, bw, next, leased, v, h uint64) *zzSeq {
	gvc.Requires(len(word) > 0 && bw > 0 && zzUSmall(bw) && zzUSmall(next) && zzUSmall(leased) && zzUSmall(v))
	gvc.Requires(leased <= v && h <= v && !zzUIn(h, next, leased))
	z := &zzSeq{db: zzkvm.NewDB(zzPutSeq(m, string(word), v), zzkvm.Errors{NotFound: kv.ErrKeyNotFound}), word: string(word), v: v, h: h}
	z.m = z.db.M
	z.db.NoFault = true
	s, err := NewSequence(z.db, word, bw)
	gvc.Ensures("a sequence is created when the store works", err == nil)
	z.seq = s
	z.db.M = z.m
	z.db.NoFault = false
	s.next, s.leased = next, leased
	z.db.Opened, z.db.Ended, z.db.Commits, z.db.Faults = 0, 0, 0, 0
	z.db.Between = func() {
		// others lease the next d ids
		d := gvc.AnyUint64("leased by others")
		gvc.Requires(zzUSmall(d))
		if gvc.AnyBool("id of others") {
			z.h = gvc.AnyUint64("id of others")
			gvc.Requires(zzUIn(z.h, z.v, z.v+d))
		}
		z.v += d
		z.db.M = zzPutSeq(gvc.AnyMap("content"), z.word, z.v)
		z.m = z.db.M
	}
	z.begin()
	return z
}

// begin starts an operation: what the lock protects is only accessed under it, and may change whenever it is free.
func (z *zzSeq) begin() {
	s := z.seq
	z.db.Opened, z.db.Ended = 0, 0
	gvc.Guard(&s.Mutex, func() bool { return true }, &s.next, &s.leased)
}

// zzInv is what every operation preserves.
func (z *zzSeq) zzInv(x, next0, leased0 uint64) uint64 {
	s := z.seq
	v := zzGetSeq(z.db.M, z.word)
	gvc.Ensures("no id is leased beyond the stored counter", s.leased <= v)
	gvc.Ensures("an id handed out before is never leased again", !zzUIn(z.h, s.next, s.leased))
	gvc.Ensures("an id handed out before, or leased by others, stays below the stored counter", z.h <= v)
	gvc.Ensures("only ids of the old lease or new ids are leased", !zzUIn(x, s.next, s.leased) || zzUIn(x, next0, leased0) || x > z.v)
	gvc.Ensures("every transaction is ended", z.db.Opened == z.db.Ended)
	return v
}

//gvc:prove C13
func zzSeqNext(m gvc.Map, word []byte, bw, next, rest, others, h, x uint64, spent bool, other string) {
	gvc.Requires(zzUSmall(next) && zzUSmall(rest) && zzUSmall(others))
	leased := next + rest
	v := leased + others
	if spent {
		leased = next - rest // a lease given up
		gvc.Requires(rest <= next)
		v = next + others
	}
	z := zzNewSeq(m, word, bw, next, leased, v, h)
	s := z.seq
	id, err := s.Next()
	gvc.Ensures("a failed operation reports its error", err != nil || z.db.Faults == 0)
	gvc.Ensures("only a storage error fails Next", err == nil || z.db.Faults > 0)
	v1 := z.zzInv(x, next, leased)
	if err == nil {
		gvc.Ensures("an id handed out before, or leased by others, is never handed out", id != z.h)
		gvc.Ensures("an id handed out is not leased any more", !zzUIn(id, s.next, s.leased))
		gvc.Ensures("ids come from the lease, or are new when it is used up", zzUIn(id, next, leased) || next >= leased && id > z.v && id <= v1)
		gvc.Ensures("no leased id is wasted", next >= leased || s.next == next+1 && s.leased == leased && v1 == v)
	}
	gvc.Ensures("nothing else changes", other == zzSQ(z.word) || zzSame(z.db.M, z.m, other))
}

//gvc:prove C13
func zzSeqRelease(m gvc.Map, word []byte, bw, next, rest, others, h, x uint64, spent bool, other string) {
	gvc.Requires(zzUSmall(next) && zzUSmall(rest) && zzUSmall(others))
	leased := next + rest
	v := leased + others
	if spent {
		leased = next - rest
		gvc.Requires(rest <= next)
		v = next + others
	}
	z := zzNewSeq(m, word, bw, next, leased, v, h)
	// ids above the own lease, if any, belong to others
	gvc.Requires(h <= next || leased < v)
	s := z.seq
	err := s.ReleaseRemaining()
	gvc.Ensures("a failed operation reports its error", err != nil || z.db.Faults == 0)
	gvc.Ensures("only a storage error fails it", err == nil || z.db.Faults > 0)
	v1 := zzGetSeq(z.db.M, z.word)
	gvc.Ensures("no id is leased beyond the stored counter", s.next >= s.leased || s.leased <= v1)
	gvc.Ensures("an id handed out before is never leased again", !zzUIn(z.h, s.next, s.leased))
	gvc.Ensures("ids handed out or leased by others stay below the stored counter", z.h <= v1)
	gvc.Ensures("only ids of the old lease are leased", !zzUIn(x, s.next, s.leased) || zzUIn(x, next, leased))
	gvc.Ensures("released ids are not leased any more", err != nil || s.next >= s.leased)
	gvc.Ensures("ids leased by others are never released", leased >= z.v || v1 >= z.v)
	gvc.Ensures("the rest of the latest lease is released, as a whole", err != nil || leased != z.v || next > leased || v1 == next)
	gvc.Ensures("every transaction is ended", z.db.Opened == z.db.Ended)
	gvc.Ensures("nothing else changes", other == zzSQ(z.word) || zzSame(z.db.M, z.m, other))
}

// A new sequence, on an existing counter or on none, leases ids nobody has.
//gvc:prove C13
func zzSeqCreate(m gvc.Map, word []byte, bw, v uint64, has bool, other string) {
	gvc.Requires(zzUSmall(bw) && zzUSmall(v))
	w := string(word)
	if has {
		m = zzPutSeq(m, w, v)
	} else {
		m = m.Del(zzSQ(w))
		v = 0
	}
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	s, err := NewSequence(db, word, bw)
	gvc.Ensures("an empty keyword or bandwidth is rejected", err != nil || len(word) > 0 && bw > 0)
	gvc.Ensures("only a storage error fails a valid request", err == nil || len(word) == 0 || bw == 0 || db.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || db.Faults == 0)
	if s != nil {
		v1 := v
		if db.M.Has(zzSQ(w)) {
			v1 = zzGetSeq(db.M, w)
		}
		gvc.Ensures("a new lease is stored and above every older one", s.next >= s.leased || v == s.next && s.leased == v1 && v1 == v+bw)
		gvc.Ensures("a new sequence has a lease", err != nil || s.next < s.leased)
	}
	gvc.Ensures("every transaction is ended", db.Opened == db.Ended)
	gvc.Ensures("nothing else changes", other == zzSQ(w) || zzSame(db.M, m, other))
}

func zzSame(a, b gvc.Map, o string) bool { return a.Has(o) == b.Has(o) && (!a.Has(o) || a.Get(o) == b.Get(o)) }

// The id of a collection: a name keeps its id, and no two names have one id, whatever happens in between.
//gvc:prove C13
//gvc:uses zzInvCN zzInvSQ
func zzCollectionID(m gvc.Map, name, name2 string, next, rest, others, id2 uint64, has bool, cid0 uint64, other string) {
	gvc.Requires(zzUSmall(next) && zzUSmall(rest) && zzUSmall(others) && zzUSmall(cid0))
	leased := next + rest
	v := leased + others
	word := reservedKeywordCollection
	m = zzPutSeq(m, word, v)
	k, k2 := zzCN(name), zzCN(name2)
	gvc.Requires(id2 <= v && !zzUIn(id2, next, leased))
	m = m.Put(k2, string(numeric.Encode2Binary(id2, nil)))
	if has {
		m = m.Put(k, string(numeric.Encode2Binary(cid0, nil)))
	} else {
		m = m.Del(k)
		gvc.Requires(name != name2)
	}
	kvdb := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	m = kvdb.M
	s := &Sequence{kvdb: kvdb, key: []byte(zzSQ(word)), bandwidth: collectionIDBandWidth, next: next, leased: leased}
	db := &DB{kvdb: kvdb, collectionSequence: s}
	kvdb.During = func() {
		// others lease ids and create the collection, too
		d := gvc.AnyUint64("leased by others")
		gvc.Requires(zzUSmall(d))
		x := kvdb.M
		x = zzPutSeq(x, word, v+d)
		if !has && gvc.AnyBool("created by others") {
			c := gvc.AnyUint64("id by others")
			gvc.Requires(zzUIn(c, v, v+d))
			x = x.Put(k, string(numeric.Encode2Binary(c, nil)))
		}
		kvdb.M = x
		m = x
	}
	cid, err := db.getCollectionID(name)
	gvc.Ensures("a failed operation reports its error", err != nil || kvdb.Faults == 0)
	gvc.Ensures("only a storage error fails it", err == nil || kvdb.Faults > 0)
	gvc.Ensures("every transaction is ended", kvdb.Opened == kvdb.Ended)
	if err == nil {
		gvc.Ensures("the id is the stored one", kvdb.M.Has(k) && kvdb.M.Get(k) == string(numeric.Encode2Binary(uint64(cid), nil)))
		gvc.Ensures("a name keeps its id", !has || uint64(cid) == cid0)
		gvc.Ensures("an id handed out before is not handed out again", has || uint64(cid) != id2)
		gvc.Ensures("the other name keeps its id", kvdb.M.Get(k2) == string(numeric.Encode2Binary(id2, nil)) || name == name2)
	} else {
		gvc.Ensures("a failure stores no id", zzSame(kvdb.M, m, k))
	}
	gvc.Ensures("nothing else changes", other == zzSQ(word) || other == k || zzSame(kvdb.M, m, other))
}

// The names of collections have keys of their own.
//gvc:lemma
//gvc:prove C13
//gvc:inline zzCN
//gvc:uses kv/memcomparable.zzDecSelf
func zzInvCN(n1, n2 string) {
	gvc.Trigger(zzCN(n1), zzCN(n2))
	s, t := zzCN(n1), zzCN(n2)
	e1, e2 := memcomparable.ZZEnc(n1), memcomparable.ZZEnc(n2)
	gvc.Lemma(e1 != e2 || n1 == n2)
	gvc.Lemma(s != t || gvc.Sub(s, 11, len(s)) == e1 && gvc.Sub(t, 11, len(t)) == e2 && e1 == e2)
	gvc.Ensures("collection name keys are equal only for equal names", s != t || n1 == n2)
}

//gvc:lemma
//gvc:prove C13
//gvc:inline zzCN zzSQ
func zzInvSQ(n, w string) {
	gvc.Trigger(zzCN(n), zzSQ(w))
	gvc.Ensures("sequences have keys of their own", zzCN(n) != zzSQ(w))
}
