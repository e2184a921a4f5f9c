package structure

import (
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// A list with n elements occupies the indices l <= i < l+n; element j has index l+j.

// zzList puts the meta data of a list that is not empty into the store; concretely also its elements.
func zzList(m gvc.Map, p, k string, l, n int64) gvc.Map {
	if !gvc.Symbolic() {
		for i := int64(0); i < n; i++ {
			m = m.Put(ZZLK(p, k, l+i), "element "+string(rune('a'+i)))
		}
	}
	return m.Put(ZZLM(p, k), gvc.BE64(uint64(l))+gvc.BE64(uint64(l+n)))
}

// zzBound restricts a list to 2^40 elements with indices within 2^62 (and concretely to a few elements).
func zzBound(l, n int64) bool {
	if !gvc.Symbolic() && n > 9 {
		return false
	}
	return l >= -1<<62 && l <= 1<<62 && n >= 0 && n <= 1<<40
}

//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzPush(m gvc.Map, prefix, key []byte, left bool, values [][]byte, l, n, i int64, j int, other string) {
	p, k := string(prefix), string(key)
	gvc.Requires(zzBound(l, n) && 0 <= i && i < n && 0 <= j && j < len(values))
	m = zzList(m, p, k, l, n)
	gvc.Requires(m.Has(ZZLK(p, k, l+i)))
	v := string(values[j])
	cnt := int64(len(values))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	lo, hi := l+n, l+n+cnt
	at := l + n + int64(j)
	if left {
		lo, hi = l-cnt, l
		at = l - 1 - int64(j)
	}
	mine := ZZTag(p, other) == 'l' && ZZName(p, other) == k && lo <= ZZIdx(ZZRest(p, other)) && ZZIdx(ZZRest(p, other)) < hi
	if left {
		gvc.Loop(func(meta listMeta, rangeindex int) bool { return meta.LIndex == l-int64(rangeindex)-1 && meta.RIndex == l+n })
	} else {
		gvc.Loop(func(meta listMeta, rangeindex int) bool { return meta.LIndex == l && meta.RIndex == l+n+int64(rangeindex)+1 })
	}
	gvc.Loop(func() bool { return t.Faults == 0 })
	gvc.Loop(func(rangeindex int) bool { return j > rangeindex || t.M.Has(ZZLK(p, k, at)) && t.M.Get(ZZLK(p, k, at)) == v })
	gvc.Loop(func() bool { return ZZSame(t.M, m, ZZLK(p, k, l+i)) })
	gvc.Loop(func() bool { return mine || ZZSame(t.M, m, other) })
	var err error
	if left {
		err = s.LPush(key, values...)
	} else {
		err = s.RPush(key, values...)
	}
	gvc.Ensures("only a storage error fails a push", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		c, err2 := s.LLen(key)
		gvc.Ensures("the length grows by the number of values", err2 == nil && c == n+cnt)
		if left {
			e, err2 := s.LIndex(key, cnt-1-int64(j))
			gvc.Ensures("values are prepended one by one", err2 == nil && string(e) == v)
			e, err2 = s.LIndex(key, cnt+i)
			gvc.Ensures("elements keep their order behind the new ones", err2 == nil && string(e) == m.Get(ZZLK(p, k, l+i)))
		} else {
			e, err2 := s.LIndex(key, n+int64(j))
			gvc.Ensures("values are appended in order", err2 == nil && string(e) == v)
			e, err2 = s.LIndex(key, i)
			gvc.Ensures("elements keep their order before the new ones", err2 == nil && string(e) == m.Get(ZZLK(p, k, l+i)))
		}
		gvc.Ensures("nothing else changes", mine || other == ZZLM(p, k) || ZZSame(t.M, m, other))
	}
}

// Pushing onto a list that does not exist.
//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzPushFirst(m gvc.Map, prefix, key []byte, left bool, values [][]byte, j int, other string) {
	p, k := string(prefix), string(key)
	gvc.Requires(0 <= j && j < len(values))
	m = m.Del(ZZLM(p, k))
	v := string(values[j])
	cnt := int64(len(values))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	lo, hi := int64(0), cnt
	at := int64(j)
	if left {
		lo, hi = -cnt, 0
		at = -1 - int64(j)
	}
	mine := ZZTag(p, other) == 'l' && ZZName(p, other) == k && lo <= ZZIdx(ZZRest(p, other)) && ZZIdx(ZZRest(p, other)) < hi
	if left {
		gvc.Loop(func(meta listMeta, rangeindex int) bool { return meta.LIndex == -int64(rangeindex)-1 && meta.RIndex == 0 })
	} else {
		gvc.Loop(func(meta listMeta, rangeindex int) bool { return meta.LIndex == 0 && meta.RIndex == int64(rangeindex)+1 })
	}
	gvc.Loop(func() bool { return t.Faults == 0 })
	gvc.Loop(func(rangeindex int) bool { return j > rangeindex || t.M.Has(ZZLK(p, k, at)) && t.M.Get(ZZLK(p, k, at)) == v })
	gvc.Loop(func() bool { return mine || ZZSame(t.M, m, other) })
	var err error
	if left {
		err = s.LPush(key, values...)
	} else {
		err = s.RPush(key, values...)
	}
	gvc.Ensures("only a storage error fails a push", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		c, err2 := s.LLen(key)
		gvc.Ensures("the length is the number of values", err2 == nil && c == cnt)
		x := int64(j)
		if left {
			x = cnt - 1 - x
		}
		e, err2 := s.LIndex(key, x)
		gvc.Ensures("values are added one by one", err2 == nil && string(e) == v)
		gvc.Ensures("nothing else changes", mine || other == ZZLM(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzPop(m gvc.Map, prefix, key []byte, left bool, l, n, i int64, other string) {
	p, k := string(prefix), string(key)
	gvc.Requires(zzBound(l, n) && 0 <= i && i < n)
	m = zzList(m, p, k, l, n)
	at := l
	if !left {
		at = l + n - 1
	}
	gvc.Requires(m.Has(ZZLK(p, k, at)) && m.Has(ZZLK(p, k, l+i)))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	var e []byte
	var err error
	if left {
		e, err = s.LPop(key)
	} else {
		e, err = s.RPop(key)
	}
	gvc.Ensures("only a storage error fails a pop", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		gvc.Ensures("the element at the end is returned", string(e) == m.Get(ZZLK(p, k, at)))
		c, err2 := s.LLen(key)
		gvc.Ensures("the length drops by one", err2 == nil && c == n-1)
		gvc.Ensures("the popped element is removed", !t.M.Has(ZZLK(p, k, at)))
		if left && i > 0 {
			e, err2 := s.LIndex(key, i-1)
			gvc.Ensures("the other elements move up", err2 == nil && string(e) == m.Get(ZZLK(p, k, l+i)))
		}
		if !left && i < n-1 {
			e, err2 := s.LIndex(key, i)
			gvc.Ensures("the other elements stay", err2 == nil && string(e) == m.Get(ZZLK(p, k, l+i)))
		}
		gvc.Ensures("an empty list leaves no meta data", t.M.Has(ZZLM(p, k)) == (n > 1))
		gvc.Ensures("nothing else changes", other == ZZLK(p, k, at) || other == ZZLM(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzNoList(m gvc.Map, prefix, key, v []byte, i int64) {
	p, k := string(prefix), string(key)
	m = m.Del(ZZLM(p, k))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	e, err := s.LPop(key)
	gvc.Ensures("popping from a missing list reports it", e == nil && (err == kv.ErrKeyNotFound || err != nil && t.Faults > 0))
	f := t.Faults
	e, err = s.RPop(key)
	gvc.Ensures("popping from a missing list reports it", e == nil && (err == kv.ErrKeyNotFound || err != nil && t.Faults > f))
	f = t.Faults
	c, err := s.LLen(key)
	gvc.Ensures("a missing list has length 0", c == 0 && (err == nil) == (t.Faults == f))
	f = t.Faults
	es, err := s.LGetAll(key)
	gvc.Ensures("a missing list has no elements", len(es) == 0 && (err == nil) == (t.Faults == f))
	f = t.Faults
	e, err = s.LIndex(key, i)
	gvc.Ensures("indexing a missing list reports it", e == nil && (err == kv.ErrKeyNotFound || err != nil && t.Faults > f))
	f = t.Faults
	err = s.LSet(key, i, v)
	gvc.Ensures("setting in a missing list reports it", err == kv.ErrKeyNotFound || err != nil && t.Faults > f)
	f = t.Faults
	err = s.LClear(key)
	gvc.Ensures("clearing a missing list does nothing", (err == nil) == (t.Faults == f))
	gvc.Ensures("nothing changes", gvc.Same(t.M, m))
}

//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzLRead(m gvc.Map, prefix, key []byte, l, n, i int64) {
	p, k := string(prefix), string(key)
	gvc.Requires(zzBound(l, n) && n > 0)
	m = zzList(m, p, k, l, n)
	j := i
	if i < 0 {
		j = n + i
	}
	in := 0 <= j && j < n
	gvc.Requires(!in || m.Has(ZZLK(p, k, l+j)))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	c, err := s.LLen(key)
	gvc.Ensures("LLen is the number of elements", err != nil || c == n)
	gvc.Ensures("only a storage error fails LLen", (err == nil) == (t.Faults == 0))
	f := t.Faults
	e, err := s.LIndex(key, i)
	gvc.Ensures("only a storage error fails LIndex", (err == nil) == (t.Faults == f))
	gvc.Ensures("LIndex returns the element at the index, negative indices count from the end", err != nil || !in || string(e) == m.Get(ZZLK(p, k, l+j)))
	gvc.Ensures("LIndex returns nothing out of range", err != nil || in || e == nil)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
}

//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzLGetAll(m gvc.Map, prefix, key []byte, l, n int64, j int) {
	p, k := string(prefix), string(key)
	gvc.Requires(zzBound(l, n) && n > 0)
	m = zzList(m, p, k, l, n)
	gvc.Requires(gvc.Forall(int(l), int(l+n), func(i int) bool { return m.Has(ZZLK(p, k, int64(i))) }))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	gvc.Loop(func(index int64, elements [][]byte) bool {
		return l-1 <= index && index < l+n && int64(len(elements)) == l+n-1-index && t.Faults == 0 && (j < 0 || j >= len(elements) || string(elements[j]) == m.Get(ZZLK(p, k, l+n-1-int64(j))))
	})
	es, err := s.LGetAll(key)
	gvc.Ensures("only a storage error fails LGetAll", (err == nil) == (t.Faults == 0))
	gvc.Ensures("all elements are returned", err != nil || int64(len(es)) == n)
	gvc.Ensures("elements are returned from the last to the first", err != nil || !(0 <= j && j < len(es)) || string(es[j]) == m.Get(ZZLK(p, k, l+n-1-int64(j))))
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
}

//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzLSet(m gvc.Map, prefix, key, value []byte, l, n, i, i2 int64, other string) {
	p, k := string(prefix), string(key)
	gvc.Requires(zzBound(l, n) && n > 0)
	m = zzList(m, p, k, l, n)
	j := i
	if i < 0 {
		j = n + i
	}
	in := 0 <= j && j < n
	v := string(value)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	err := s.LSet(key, i, value)
	gvc.Ensures("only a storage error fails LSet in range", err == nil || !in || t.Faults > 0)
	gvc.Ensures("LSet reports an index out of range", in || err == kv.ErrKeyNotFound || err != nil && t.Faults > 0)
	gvc.Ensures("a failed LSet changes nothing", err == nil || gvc.Same(t.M, m))
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		e, err2 := s.LIndex(key, i)
		gvc.Ensures("the element has the value set", err2 == nil && string(e) == v)
		gvc.Ensures("nothing else changes", other == ZZLK(p, k, l+j) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C09
//gvc:uses zzInvLM zzInvLK
func zzLClear(m gvc.Map, prefix, key []byte, l, n, i int64, other string) {
	p, k := string(prefix), string(key)
	gvc.Requires(zzBound(l, n) && 0 <= i && i < n)
	m = zzList(m, p, k, l, n)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	mine := ZZTag(p, other) == 'l' && ZZName(p, other) == k && l <= ZZIdx(ZZRest(p, other)) && ZZIdx(ZZRest(p, other)) < l+n
	gvc.Loop(func(index int64) bool {
		return l <= index && index <= l+n && t.Faults == 0 && (l+i >= index || !t.M.Has(ZZLK(p, k, l+i))) && (mine || ZZSame(t.M, m, other))
	})
	err := s.LClear(key)
	gvc.Ensures("only a storage error fails LClear", (err == nil) == (t.Faults == 0))
	if err == nil {
		gvc.Ensures("a cleared list has no meta data", !t.M.Has(ZZLM(p, k)))
		gvc.Ensures("a cleared list has no elements", !t.M.Has(ZZLK(p, k, l+i)))
		gvc.Ensures("nothing else changes", mine || other == ZZLM(p, k) || ZZSame(t.M, m, other))
	}
}
