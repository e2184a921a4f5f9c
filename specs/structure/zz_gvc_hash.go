package structure

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// ZZSame: both contents agree on a key.
func ZZSame(a, b gvc.Map, k string) bool { return a.Has(k) == b.Has(k) && a.Get(k) == b.Get(k) }

// ZZHash puts the meta data of a hash with n fields into the store.
func ZZHash(m gvc.Map, p, k string, n int64) gvc.Map {
	if n == 0 {
		return m.Del(ZZHM(p, k))
	}
	return m.Put(ZZHM(p, k), gvc.BE64(uint64(n)))
}

//gvc:prove C10
//gvc:uses zzInvHM zzInvHK
func zzHSet(m gvc.Map, prefix, key, field, value, key2, field2 []byte, n int64, other string) {
	p, k, f, k2, f2 := string(prefix), string(key), string(field), string(key2), string(field2)
	gvc.Register(ZZHK(p, k, f))
	gvc.Register(ZZHK(p, k2, f2))
	gvc.Register(ZZHM(p, k2))
	gvc.Requires(n >= 0 && n < 1<<62)
	m = ZZHash(m, p, k, n)
	had := m.Has(ZZHK(p, k, f))
	gvc.Requires(!had || n > 0)
	v0 := string(value)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	err := s.HSet(key, field, value)
	gvc.Ensures("only a storage error fails HSet", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		got, err2 := s.HGet(key, field)
		gvc.Ensures("HGet returns the value set", err2 == nil && string(got) == v0)
		l, err2 := s.HLen(key)
		gvc.Ensures("HLen counts a new field once", err2 == nil && l == n+1-int64(gvc.Int(had)))
		gvc.Ensures("other fields keep their values", k == k2 && f == f2 || ZZSame(t.M, m, ZZHK(p, k2, f2)))
		gvc.Ensures("other hashes keep their length", k == k2 || ZZSame(t.M, m, ZZHM(p, k2)))
		gvc.Ensures("nothing else changes", other == ZZHK(p, k, f) || other == ZZHM(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C10
//gvc:uses zzInvHM zzInvHK
func zzHInc(m gvc.Map, prefix, key, field []byte, n, start, step int64, other string) {
	p, k, f := string(prefix), string(key), string(field)
	gvc.Requires(n >= 0 && n < 1<<62)
	m = ZZHash(m, p, k, n)
	had := gvc.AnyBool("present")
	gvc.Requires(!had || n > 0)
	if had {
		m = m.Put(ZZHK(p, k, f), string(numeric.Encode2Human(start)))
	} else {
		start = 0
		m = m.Del(ZZHK(p, k, f))
	}
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	v, err := s.HInc(key, field, step)
	gvc.Ensures("only a storage error fails HInc", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		gvc.Ensures("HInc returns the sum", v == start+step)
		got, err2 := s.HGetInt64(key, field)
		gvc.Ensures("HGetInt64 reads the sum", err2 == nil && got == start+step)
		l, err2 := s.HLen(key)
		gvc.Ensures("HLen counts a new field once", err2 == nil && l == n+1-int64(gvc.Int(had)))
		gvc.Ensures("nothing else changes", other == ZZHK(p, k, f) || other == ZZHM(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C10
//gvc:uses zzInvHM zzInvHK
func zzHSetInt64(m gvc.Map, prefix, key, field []byte, n, v int64, other string) {
	p, k, f := string(prefix), string(key), string(field)
	gvc.Register(ZZHK(p, k, f))
	gvc.Requires(n >= 0 && n < 1<<62)
	m = ZZHash(m, p, k, n)
	had := m.Has(ZZHK(p, k, f))
	gvc.Requires(!had || n > 0)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	err := s.HSetInt64(key, field, v)
	gvc.Ensures("only a storage error fails HSetInt64", err == nil || t.Faults > 0)
	if err == nil {
		t.NoFault = true
		got, err2 := s.HGetInt64(key, field)
		gvc.Ensures("HGetInt64 reads the value set", err2 == nil && got == v)
		l, err2 := s.HLen(key)
		gvc.Ensures("HLen counts a new field once", err2 == nil && l == n+1-int64(gvc.Int(had)))
		gvc.Ensures("nothing else changes", other == ZZHK(p, k, f) || other == ZZHM(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C10
//gvc:uses zzInvHM zzInvHK
func zzHRead(m gvc.Map, prefix, key, field []byte, n int64) {
	p, k, f := string(prefix), string(key), string(field)
	gvc.Register(ZZHK(p, k, f))
	gvc.Requires(n >= 0 && n < 1<<62)
	m = ZZHash(m, p, k, n)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	v, err := s.HGet(key, field)
	gvc.Ensures("HGet returns the stored value", err != nil || m.Has(ZZHK(p, k, f)) && string(v) == m.Get(ZZHK(p, k, f)))
	gvc.Ensures("HGet reports a missing field", err == nil || t.Faults > 0 || err == kv.ErrKeyNotFound && !m.Has(ZZHK(p, k, f)))
	f0 := t.Faults
	l, err := s.HLen(key)
	gvc.Ensures("HLen is the length", err != nil || l == n)
	gvc.Ensures("only a storage error fails HLen", (err == nil) == (t.Faults == f0))
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
}

//gvc:prove C10
//gvc:uses zzInvHM zzInvHK
func zzHDel1(m gvc.Map, prefix, key, field, key2, field2 []byte, n int64, other string) {
	p, k, f, k2, f2 := string(prefix), string(key), string(field), string(key2), string(field2)
	gvc.Register(ZZHK(p, k, f))
	gvc.Register(ZZHK(p, k2, f2))
	gvc.Register(ZZHM(p, k2))
	gvc.Requires(n >= 0 && n < 1<<62)
	m = ZZHash(m, p, k, n)
	had := m.Has(ZZHK(p, k, f))
	gvc.Requires(!had || n > 0)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	err := s.HDel(key, field)
	gvc.Ensures("only a storage error fails HDel", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		_, err2 := s.HGet(key, field)
		gvc.Ensures("a deleted field is missing", err2 == kv.ErrKeyNotFound)
		l, err2 := s.HLen(key)
		gvc.Ensures("HLen drops by one for a field that was present", err2 == nil && l == n-int64(gvc.Int(had)))
		gvc.Ensures("an empty hash leaves no meta data", t.M.Has(ZZHM(p, k)) == (l > 0))
		gvc.Ensures("other fields keep their values", k == k2 && f == f2 || ZZSame(t.M, m, ZZHK(p, k2, f2)))
		gvc.Ensures("other hashes keep their length", k == k2 || ZZSame(t.M, m, ZZHM(p, k2)))
		gvc.Ensures("nothing else changes", other == ZZHK(p, k, f) || other == ZZHM(p, k) || ZZSame(t.M, m, other))
	}
}

// Any number of fields, repeated or absent ones included.
//gvc:prove C10
//gvc:uses zzInvHM zzInvHK
func zzHDel(m gvc.Map, prefix, key []byte, fields [][]byte, n int64, other, f2 string) {
	p, k := string(prefix), string(key)
	gvc.Register(ZZHK(p, k, f2))
	gvc.Register(ZZHM(p, k))
	gvc.Requires(n >= 0 && n < 1<<62)
	m = ZZHash(m, p, k, n)
	gvc.Requires(n > 0)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	listed := gvc.Exists(0, len(fields), func(i int) bool { return string(fields[i]) == f2 })
	gvc.Loop(func(meta hashMeta) bool { return meta.FieldCount == n+int64(t.Size) })
	gvc.Loop(func(rangeindex int) bool {
		return !t.M.Has(ZZHK(p, k, f2)) || !gvc.Exists(0, rangeindex+1, func(i int) bool { return string(fields[i]) == f2 })
	})
	gvc.Loop(func(rangeindex int) bool { return t.Size <= 0 && t.Size >= -rangeindex-1 && t.Faults == 0 })
	gvc.Loop(func() bool { return ZZSame(t.M, m, ZZHM(p, k)) })
	gvc.Loop(func() bool { return listed || ZZSame(t.M, m, ZZHK(p, k, f2)) })
	field := ZZTag(p, other) == 'h' && ZZName(p, other) == k
	gvc.Loop(func() bool { return field || ZZSame(t.M, m, other) })
	err := s.HDel(key, fields...)
	gvc.Ensures("only a storage error fails HDel", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		t.NoFault = true
		removed := int64(-t.Size) - int64(gvc.Int(!t.M.Has(ZZHM(p, k))))
		l, err2 := s.HLen(key)
		gvc.Ensures("listed fields are gone", !listed || !t.M.Has(ZZHK(p, k, f2)))
		gvc.Ensures("other fields keep their values", listed || ZZSame(t.M, m, ZZHK(p, k, f2)))
		gvc.Ensures("HLen drops by the number of fields removed", err2 == nil && (l == n-removed || removed >= n && l == 0))
		gvc.Ensures("an empty hash leaves no meta data", t.M.Has(ZZHM(p, k)) == (l > 0))
		gvc.Ensures("nothing else changes", other == ZZHM(p, k) || field || ZZSame(t.M, m, other))
	}
}
