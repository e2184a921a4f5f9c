package structure

import (
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

//gvc:prove C11
//gvc:uses zzInvSK
func zzSetGet(m gvc.Map, prefix, key, key2, value []byte, other string) {
	p, k, k2, v := string(prefix), string(key), string(key2), string(value)
	gvc.Register(ZZSK(p, k2))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	err := s.Set(key, value)
	gvc.Ensures("only a storage error fails Set", (err == nil) == (t.Faults == 0))
	gvc.Ensures("a failed Set changes nothing", err == nil || gvc.Same(t.M, m))
	if err == nil {
		t.NoFault = true
		got, err2 := s.Get(key)
		gvc.Ensures("Get returns the value set", err2 == nil && string(got) == v)
		gvc.Ensures("other strings keep their values", k == k2 || ZZSame(t.M, m, ZZSK(p, k2)))
		gvc.Ensures("nothing else changes", other == ZZSK(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C11
//gvc:uses zzInvSK
func zzGet(m gvc.Map, prefix, key []byte) {
	p, k := string(prefix), string(key)
	gvc.Register(ZZSK(p, k))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	got, err := s.Get(key)
	gvc.Ensures("Get returns the stored value", err != nil || m.Has(ZZSK(p, k)) && string(got) == m.Get(ZZSK(p, k)))
	gvc.Ensures("Get reports a missing key", err == nil || t.Faults > 0 || err == kv.ErrKeyNotFound && !m.Has(ZZSK(p, k)))
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
}

//gvc:prove C11
//gvc:uses zzInvSK
func zzClear(m gvc.Map, prefix, key, key2 []byte, other string) {
	p, k, k2 := string(prefix), string(key), string(key2)
	gvc.Register(ZZSK(p, k))
	gvc.Register(ZZSK(p, k2))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	err := s.Clear(key)
	gvc.Ensures("only a storage error fails Clear", (err == nil) == (t.Faults == 0))
	gvc.Ensures("a failed Clear changes nothing", err == nil || gvc.Same(t.M, m))
	if err == nil {
		t.NoFault = true
		_, err2 := s.Get(key)
		gvc.Ensures("a cleared key is missing", err2 == kv.ErrKeyNotFound)
		gvc.Ensures("other strings keep their values", k == k2 || ZZSame(t.M, m, ZZSK(p, k2)))
		gvc.Ensures("nothing else changes", other == ZZSK(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C11
//gvc:uses zzInvSK
func zzStringInt(m gvc.Map, prefix, key []byte, v int64, other string) {
	p, k := string(prefix), string(key)
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	err := s.SetInt64(key, v)
	gvc.Ensures("only a storage error fails SetInt64", (err == nil) == (t.Faults == 0))
	gvc.Ensures("a failed SetInt64 changes nothing", err == nil || gvc.Same(t.M, m))
	if err == nil {
		t.NoFault = true
		got, err2 := s.GetInt64(key)
		gvc.Ensures("GetInt64 returns the value set", err2 == nil && got == v)
		gvc.Ensures("nothing else changes", other == ZZSK(p, k) || ZZSame(t.M, m, other))
	}
}

//gvc:prove C11
//gvc:uses zzInvSK
func zzStringInc(m gvc.Map, prefix, key []byte, start, step int64, other string) {
	p, k := string(prefix), string(key)
	if gvc.AnyBool("present") {
		m = m.Put(ZZSK(p, k), string(numeric.Encode2Human(start)))
	} else {
		m = m.Del(ZZSK(p, k))
		start = 0
	}
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	n, err := s.Inc(key, step)
	gvc.Ensures("only a storage error fails Inc", (err == nil) == (t.Faults == 0))
	gvc.Ensures("a failed Inc changes nothing", err == nil || gvc.Same(t.M, m))
	if err == nil {
		t.NoFault = true
		gvc.Ensures("Inc returns the sum", n == start+step)
		got, err2 := s.GetInt64(key)
		gvc.Ensures("GetInt64 reads the sum", err2 == nil && got == start+step)
		gvc.Ensures("nothing else changes", other == ZZSK(p, k) || ZZSame(t.M, m, other))
	}
}
