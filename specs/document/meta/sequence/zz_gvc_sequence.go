package sequence

import (
	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// zzSeq is a sequence over a store, with what the rest of the world did: the ids up to v are leased by some sequence.
type zzSeq struct {
	db   *zzkvm.DB
	hash bool
	k, f []byte
	seq  *Sequence
	v    int64   // the last id leased by anybody
	has  bool    // the counter is stored (it is not when v is 0 and nothing was ever leased)
	h    int64   // an id that was handed out, or that another live sequence may still hand out
	n    int64   // fields of the hash
	m    gvc.Map // content before the last transaction
}

// zzStore puts a counter into a content.
func (z *zzSeq) zzStore(m gvc.Map, v int64, has bool) gvc.Map {
	p := keyspace.MetaPrefix
	if z.hash {
		m = structure.ZZHash(m, p, string(z.k), z.n)
		if !has {
			return m.Del(structure.ZZHK(p, string(z.k), string(z.f)))
		}
	} else if !has {
		return m.Del(structure.ZZSK(p, string(z.k)))
	}
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	t.NoFault = true
	var err error
	if z.hash {
		err = structure.New(t, keyspace.MetaPrefixBytes).HSetInt64(z.k, z.f, v)
		t.M = structure.ZZHash(t.M, p, string(z.k), z.n)
	} else {
		err = structure.New(t, keyspace.MetaPrefixBytes).SetInt64(z.k, v)
	}
	gvc.Requires(err == nil)
	return t.M
}

// zzLoad reads the committed counter.
func (z *zzSeq) zzLoad() (v int64, has bool) {
	t := zzkvm.NewTxn(z.db.M, kv.ErrKeyNotFound)
	t.NoFault = true
	var err error
	if z.hash {
		v, err = structure.New(t, keyspace.MetaPrefixBytes).HGetInt64(z.k, z.f)
	} else {
		v, err = structure.New(t, keyspace.MetaPrefixBytes).GetInt64(z.k)
	}
	gvc.Ensures("the stored counter stays readable", err == nil || err == kv.ErrKeyNotFound)
	return v, err == nil
}

// zzKey tells whether a key belongs to the sequence.
func (z *zzSeq) zzKey(o string) bool {
	p := keyspace.MetaPrefix
	if z.hash {
		return o == structure.ZZHK(p, string(z.k), string(z.f)) || o == structure.ZZHM(p, string(z.k))
	}
	return o == structure.ZZSK(p, string(z.k))
}

func zzIn(x, lo, hi int64) bool { return lo < x && x <= hi }

func zzSmall(x int64) bool { return -1<<59 < x && x < 1<<59 }

// zzNew makes a sequence in an arbitrary reachable state: its lease is (next, leased] with leased <= v.
func zzNew(m gvc.Map, hash bool, k, f []byte, bw, next, leased, v, h, n int64, putbacks []int64) *zzSeq {
	gvc.Requires(len(k) > 0 && len(f) > 0 && bw > 0 && zzSmall(bw))
	gvc.Requires(zzSmall(next) && zzSmall(leased) && zzSmall(v) && next <= leased && leased <= v)
	gvc.Requires(n > 0 && n < 1<<60)
	// h is at most v, outside the lease, and was not put back
	gvc.Requires(h <= v && !zzIn(h, next, leased))
	gvc.Requires(gvc.Forall(0, len(putbacks), func(i int) bool { return putbacks[i] != h }))
	z := &zzSeq{db: zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound}), hash: hash, k: k, f: f, v: v, h: h, n: n}
	z.db.M = z.zzStore(m, v, true)
	z.db.NoFault = true
	if hash {
		s, err := NewHash(z.db, k, f, bw)
		gvc.Ensures("a sequence is created when the store works", err == nil)
		z.seq = &s.Sequence
	} else {
		s, err := NewString(z.db, k, bw)
		gvc.Ensures("a sequence is created when the store works", err == nil)
		z.seq = &s.Sequence
	}
	z.db.M = z.zzStore(m, v, true)
	z.has = true
	z.m = z.db.M
	z.db.NoFault = false
	s := z.seq
	s.next, s.leased, s.putbacks, s.closed = next, leased, putbacks, false
	z.db.Opened, z.db.Ended, z.db.Commits, z.db.Faults = 0, 0, 0, 0
	z.db.Between = func() {
		// others lease the next d ids
		d := gvc.AnyInt64("leased by others")
		gvc.Requires(0 <= d && zzSmall(d))
		if gvc.AnyBool("id of others") {
			z.h = gvc.AnyInt64("id of others")
			gvc.Requires(zzIn(z.h, z.v, z.v+d))
		}
		z.v += d
		z.db.M = z.zzStore(gvc.AnyMap("content"), z.v, true)
		z.m = z.db.M
	}
	z.begin()
	return z
}

// begin starts an operation: what the lock protects is only accessed under it, and may change whenever it is free.
func (z *zzSeq) begin() {
	s := z.seq
	z.db.Opened, z.db.Ended = 0, 0
	gvc.Guard(&s.Mutex, func() bool { return s.next <= s.leased }, &s.next, &s.leased, &s.putbacks, &s.closed)
}

// zzInv is what every operation preserves: the ids the sequence may still hand out were free for it, and others never get them.
// x is an arbitrary id and (next0, leased0] the lease before the operation.
func (z *zzSeq) zzInv(x, next0, leased0 int64) int64 {
	s := z.seq
	v, has := z.zzLoad()
	gvc.Ensures("the stored counter is never lost", has)
	gvc.Ensures("no id is leased beyond the stored counter", s.next <= s.leased && s.leased <= v)
	gvc.Ensures("an id handed out before is never leased again", !zzIn(z.h, s.next, s.leased))
	gvc.Ensures("an id handed out before, or leased by others, stays below the stored counter", z.h <= v)
	gvc.Ensures("only ids of the old lease or new ids are leased", !zzIn(x, s.next, s.leased) || zzIn(x, next0, leased0) || x > z.v)
	gvc.Ensures("every transaction is ended", z.db.Opened == z.db.Ended)
	return v
}

//gvc:prove C12
//gvc:uses structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzNext(m gvc.Map, hash bool, k, f []byte, bw, next, rest, others, h, n int64, putbacks []int64, x int64, other string) {
	gvc.Requires(zzSmall(next) && 0 <= rest && zzSmall(rest) && 0 <= others && zzSmall(others))
	leased, v := next+rest, next+rest+others
	z := zzNew(m, hash, k, f, bw, next, leased, v, h, n, putbacks)
	s := z.seq
	np := len(putbacks)
	last := int64(0)
	if np > 0 {
		last = putbacks[np-1]
	}
	id, err := s.Next()
	gvc.Ensures("a failed operation reports its error", err != nil || z.db.Faults == 0)
	gvc.Ensures("only a storage error fails Next", err == nil || z.db.Faults > 0)
	v1 := z.zzInv(x, next, leased)
	if err == nil {
		gvc.Ensures("an id handed out before, or leased by others, is never handed out", id != z.h)
		gvc.Ensures("an id handed out is not leased any more", np > 0 || !zzIn(id, s.next, s.leased))
		gvc.Ensures("ids come from what was put back, then the lease, then new ones", np > 0 && id == last || np == 0 && (zzIn(id, next, leased) || next == leased && id > z.v && id <= v1))
		gvc.Ensures("an id put back is handed out once", len(s.putbacks) == np-gvc.Int(np > 0))
		gvc.Ensures("no leased id is wasted", np > 0 || next == leased || s.next == next+1 && s.leased == leased)
	}
	gvc.Ensures("nothing else changes", z.zzKey(other) || structure.ZZSame(z.db.M, z.m, other))
}

//gvc:prove C12
//gvc:uses structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzNextN(m gvc.Map, hash bool, k, f []byte, bw, next, rest, others, h, n int64, putbacks []int64, x, cnt int64, other string) {
	gvc.Requires(cnt >= 0 && zzSmall(cnt))
	gvc.Requires(zzSmall(next) && 0 <= rest && zzSmall(rest) && 0 <= others && zzSmall(others))
	leased, v := next+rest, next+rest+others
	z := zzNew(m, hash, k, f, bw, next, leased, v, h, n, putbacks)
	s := z.seq
	rs, err := s.NextN(cnt)
	gvc.Ensures("a failed operation reports its error", err != nil || z.db.Faults == 0)
	gvc.Ensures("only a storage error fails NextN", err == nil || z.db.Faults > 0)
	v1 := z.zzInv(x, next, leased)
	if err == nil {
		var a0, b0, a1, b1 int64
		if len(rs) > 0 {
			a0, b0 = rs[0].Start, rs[0].End
		}
		if len(rs) > 1 {
			a1, b1 = rs[1].Start, rs[1].End
		}
		in := zzIn(x, a0, b0) || zzIn(x, a1, b1)
		hin := zzIn(z.h, a0, b0) || zzIn(z.h, a1, b1)
		gvc.Ensures("there are at most two ranges", len(rs) <= 2)
		gvc.Ensures("ranges are not negative", a0 <= b0 && a1 <= b1)
		gvc.Ensures("exactly the requested number of ids is handed out", b0-a0+b1-a1 == cnt)
		gvc.Ensures("an id handed out before, or leased by others, is never handed out", !hin)
		gvc.Ensures("an id handed out is not leased any more", !in || !zzIn(x, s.next, s.leased))
		gvc.Ensures("ids come from the lease or are new", !in || zzIn(x, next, leased) || zzIn(x, z.v, v1))
		gvc.Ensures("ranges do not overlap", !zzIn(x, a0, b0) || !zzIn(x, a1, b1))
	}
	gvc.Ensures("nothing else changes", z.zzKey(other) || structure.ZZSame(z.db.M, z.m, other))
}

//gvc:prove C12
//gvc:uses structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzRelease(m gvc.Map, hash bool, k, f []byte, bw, next, rest, others, h, n int64, putbacks []int64, x int64, how int, other string) {
	gvc.Requires(0 <= how && how <= 3)
	gvc.Requires(zzSmall(next) && 0 <= rest && zzSmall(rest) && 0 <= others && zzSmall(others))
	leased, v := next+rest, next+rest+others
	z := zzNew(m, hash, k, f, bw, next, leased, v, h, n, putbacks)
	// ids above the own lease, if any, belong to others
	gvc.Requires(h <= next || leased < v)
	s := z.seq
	var err error
	if how == 0 {
		err = s.ReleaseRemaining()
	} else if how == 1 {
		err = s.ReNew()
	} else {
		err = s.Close(how == 3)
	}
	gvc.Ensures("a failed operation reports its error", err != nil || z.db.Faults == 0)
	gvc.Ensures("only a storage error fails it", err == nil || z.db.Faults > 0)
	v1, has := z.zzLoad()
	gvc.Ensures("the stored counter is never lost", has)
	gvc.Ensures("no id is leased beyond the stored counter", s.next <= s.leased && s.leased <= v1)
	gvc.Ensures("an id handed out before is never leased again", !zzIn(z.h, s.next, s.leased))
	gvc.Ensures("ids handed out or leased by others stay below the stored counter", z.h <= v1)
	gvc.Ensures("only ids of the old lease or new ids are leased", !zzIn(x, s.next, s.leased) || zzIn(x, next, leased) || x > z.v)
	if leased < z.v {
		gvc.Ensures("ids leased by others are never released", v1 >= z.v)
	} else {
		gvc.Ensures("only the unused rest of the lease is released", v1 >= next)
	}
	if err == nil && leased == z.v && (how == 0 || how == 3) {
		gvc.Ensures("the whole rest of the latest lease is released", v1 == next)
	}
	gvc.Ensures("a sequence is closed exactly by Close", s.closed == (how >= 2))
	gvc.Ensures("every transaction is ended", z.db.Opened == z.db.Ended)
	gvc.Ensures("nothing else changes", z.zzKey(other) || structure.ZZSame(z.db.M, z.m, other))
}

//gvc:prove C12
//gvc:uses structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzClearSeq(m gvc.Map, hash bool, k, f []byte, bw, next, rest, others, h, n int64, putbacks []int64, other string) {
	gvc.Requires(zzSmall(next) && 0 <= rest && zzSmall(rest) && 0 <= others && zzSmall(others))
	leased, v := next+rest, next+rest+others
	z := zzNew(m, hash, k, f, bw, next, leased, v, h, n, putbacks)
	s := z.seq
	err := s.Clear()
	gvc.Ensures("a failed operation reports its error", err != nil || z.db.Faults == 0)
	gvc.Ensures("only a storage error fails Clear", err == nil || z.db.Faults > 0)
	v1, has := z.zzLoad()
	if err == nil {
		gvc.Ensures("a cleared sequence starts over", !has && s.next == 0 && s.leased == 0)
		gvc.Ensures("no id put back before survives", len(s.putbacks) == 0)
		z.db.NoFault = true
		z.begin()
		id, err2 := s.Next()
		gvc.Ensures("a cleared sequence is usable", err2 == nil)
		gvc.Ensures("a cleared sequence starts from 1", id == 1)
	} else {
		gvc.Ensures("a failed Clear changes nothing", has && v1 == z.v && s.next == next && s.leased == leased && len(s.putbacks) == len(putbacks))
	}
	gvc.Ensures("every transaction is ended", z.db.Opened == z.db.Ended)
	gvc.Ensures("nothing else changes", z.zzKey(other) || structure.ZZSame(z.db.M, z.m, other))
}

// A new sequence, on an existing counter or on none, leases ids nobody has.
//gvc:prove C12
//gvc:uses structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzCreate(m gvc.Map, hash bool, k, f []byte, bw, v, n int64, has bool, x int64, other string) {
	gvc.Requires(len(f) > 0 && zzSmall(bw) && zzSmall(v) && n > 0 && n < 1<<60)
	z := &zzSeq{db: zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound}), hash: hash, k: k, f: f, n: n}
	z.db.M = z.zzStore(m, v, has)
	if !has {
		v = 0
	}
	m = z.db.M
	var err error
	if hash {
		s, err2 := NewHash(z.db, k, f, bw)
		err = err2
		if err == nil {
			z.seq = &s.Sequence
		}
	} else {
		s, err2 := NewString(z.db, k, bw)
		err = err2
		if err == nil {
			z.seq = &s.Sequence
		}
	}
	gvc.Ensures("an empty name or bandwidth is rejected", err != nil || len(k) > 0 && bw > 0)
	gvc.Ensures("only a storage error fails a valid request", err == nil || len(k) == 0 || bw <= 0 || z.db.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || z.db.Faults == 0)
	if err == nil {
		s := z.seq
		v1, ok := z.zzLoad()
		gvc.Ensures("the new lease is stored and above every older one", ok && v <= s.next && s.next <= s.leased && s.leased <= v1)
		gvc.Ensures("no new id is wasted", s.next == v && s.leased == v1 && v1 == v+bw)
		gvc.Ensures("a new sequence is open", !s.closed && len(s.putbacks) == 0)
	}
	gvc.Ensures("every transaction is ended", z.db.Opened == z.db.Ended)
	gvc.Ensures("nothing else changes", z.zzKey(other) || structure.ZZSame(z.db.M, m, other))
}

// After Close nothing is handed out; PutBack only adds to what may be handed out again.
//gvc:prove C12
//gvc:uses structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzClosed(m gvc.Map, hash bool, k, f []byte, bw, next, rest, others, h, n int64, putbacks, back []int64, cnt int64, i int) {
	gvc.Requires(cnt > 0 && 0 <= i && i < len(putbacks)+len(back))
	gvc.Requires(zzSmall(next) && 0 <= rest && zzSmall(rest) && 0 <= others && zzSmall(others))
	leased, v := next+rest, next+rest+others
	z := zzNew(m, hash, k, f, bw, next, leased, v, h, n, putbacks)
	s := z.seq
	var e int64
	if i < len(putbacks) {
		e = putbacks[i]
	} else {
		e = back[i-len(putbacks)]
	}
	s.PutBack(back...)
	gvc.Ensures("ids put back are added to those put back before", len(s.putbacks) == len(putbacks)+len(back) && s.putbacks[i] == e)
	gvc.Ensures("putting back changes nothing else", s.next == next && s.leased == leased && z.db.Opened == 0)
	s.closed = true
	z.begin()
	_, err := s.Next()
	gvc.Ensures("a closed sequence hands out nothing", err == ErrSequenceClosed)
	z.begin()
	_, err = s.NextN(cnt)
	gvc.Ensures("a closed sequence hands out nothing", err == ErrSequenceClosed)
	z.begin()
	gvc.Ensures("a closed sequence can not be renewed", s.ReNew() == ErrSequenceClosed)
	z.begin()
	gvc.Ensures("a closed sequence can not be released", s.ReleaseRemaining() == ErrSequenceClosed)
	z.begin()
	gvc.Ensures("a closed sequence can not be cleared", s.Clear() == ErrSequenceClosed)
	z.begin()
	gvc.Ensures("a closed sequence can not be closed", s.Close(true) == ErrSequenceClosed)
	gvc.Ensures("a closed sequence leaves the store alone", z.db.Opened == 0 && gvc.Same(z.db.M, z.m))
}

// ZZHashSeq is a hash sequence with ids left to hand out without the store.
func ZZHashSeq(db *zzkvm.DB, next, leased int64, back []int64) *Hash {
	gvc.Requires(zzSmall(next) && zzSmall(leased) && next <= leased)
	gvc.Requires(len(back) > 0 || next < leased)
	s := &Hash{Sequence{bandwidth: 10, next: next, leased: leased, putbacks: append([]int64(nil), back...)}}
	s.renewLeaseFunc = func(step int64) error { return ErrSequenceClosed }
	s.updateLeasedFunc = func() error { return nil }
	s.clearFunc = func() error { return nil }
	return s
}

// ZZBack are the ids put back.
func ZZBack(s *Hash) []int64 { return s.putbacks }

// ZZNext is the last id handed out.
func ZZNext(s *Hash) int64 { return s.next }

// ZZClosed tells whether a sequence is closed.
func ZZClosed(s *Hash) bool { return s.closed }
