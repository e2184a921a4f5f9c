package kv

import (
	"github.com/zhiqiangxu/mondis/kv/numeric"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// A counter holds the sum of the steps applied to it.
//gvc:prove C06
func zzIncInt64(m gvc.Map, k, other []byte, start, step int64) {
	if gvc.AnyBool("present") {
		m = m.Put(string(k), string(numeric.Encode2Human(start)))
	} else {
		m = m.Del(string(k))
		start = 0
	}
	t := zzkvm.NewTxn(m, ErrKeyNotFound)
	n, err := IncInt64(t, k, step)
	gvc.Ensures("a failed increment changes nothing", err == nil || gvc.Same(t.M, m))
	gvc.Ensures("without a storage error the increment succeeds", err == nil || t.Faults > 0)
	if err == nil {
		gvc.Ensures("IncInt64 returns the old value plus the step", n == start+step)
		t.NoFault = true
		got, err2 := GetInt64(t, k)
		gvc.Ensures("GetInt64 reads the incremented value", err2 == nil && got == start+step)
		gvc.Ensures("other keys keep their values", string(other) == string(k) || t.M.Has(string(other)) == m.Has(string(other)) && t.M.Get(string(other)) == m.Get(string(other)))
	}
}

//gvc:prove C06
func zzSetInt64(m gvc.Map, k, other []byte, v int64) {
	t := zzkvm.NewTxn(m, ErrKeyNotFound)
	err := SetInt64(t, k, v)
	gvc.Ensures("a failed write changes nothing", err == nil || gvc.Same(t.M, m))
	gvc.Ensures("without a storage error the write succeeds", err == nil || t.Faults > 0)
	if err == nil {
		t.NoFault = true
		got, err2 := GetInt64(t, k)
		gvc.Ensures("GetInt64 reads the value written", err2 == nil && got == v)
		gvc.Ensures("other keys keep their values", string(other) == string(k) || t.M.Has(string(other)) == m.Has(string(other)) && t.M.Get(string(other)) == m.Get(string(other)))
	}
}

//gvc:prove C06
func zzGetInt64(m gvc.Map, k []byte) {
	t := zzkvm.NewTxn(m, ErrKeyNotFound)
	_, err := GetInt64(t, k)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	gvc.Ensures("a missing counter is reported as missing", m.Has(string(k)) || err == ErrKeyNotFound || t.Faults > 0)
	gvc.Ensures("missing is reported only for a missing counter", err != ErrKeyNotFound || !m.Has(string(k)))
}
