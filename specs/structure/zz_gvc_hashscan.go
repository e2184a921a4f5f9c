package structure

import (
	"github.com/zhiqiangxu/mondis/kv"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// zzFields puts fields into the store when the contract is executed.
func zzFields(m gvc.Map, p, k string, fs []string) gvc.Map {
	if gvc.Symbolic() {
		return m
	}
	for _, f := range fs {
		m = m.Put(ZZHK(p, k, f), f+"=")
	}
	if len(fs) > 0 {
		m = m.Put(ZZHM(p, k), gvc.BE64(uint64(len(fs))))
	}
	return m
}

// zzWF: every key with the prefix of the fields is the key of a field.
func zzWF(m gvc.Map, p, k string) bool {
	return gvc.ForKeys([]gvc.Map{m}, nil, func(s string) bool {
		return gvc.Imp(m.Has(s) && gvc.HasPrefix(s, ZZHP(p, k)), func() bool { return s == ZZHK(p, k, zzField(p, s)) })
	})
}

//gvc:prove C10
//gvc:uses zzInvField zzFieldPrefix zzFieldOrder
func zzHKeys(m gvc.Map, prefix, key []byte, f2 string, i1, i2 int, fs []string) {
	p, k := string(prefix), string(key)
	m = zzFields(m, p, k, fs)
	gvc.Requires(zzWF(m, p, k))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	gvc.Loop(func(ks []string, i int, keys [][]byte) bool {
		return len(keys) == i && gvc.Forall(0, i, func(j int) bool { return string(keys[j]) == zzField(p, ks[j]) })
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	keys, err := s.HKeys(key)
	gvc.Ensures("only a storage error fails HKeys", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err == nil {
		j := gvc.ScanPos(ZZHK(p, k, f2))
		gvc.Ensures("every field present is listed", !m.Has(ZZHK(p, k, f2)) || 0 <= j && j < len(keys) && string(keys[j]) == f2)
		gvc.Ensures("every field listed is present", gvc.Forall(0, len(keys), func(i int) bool { return m.Has(ZZHK(p, k, string(keys[i]))) }))
		gvc.Ensures("fields are listed once and in order", !(0 <= i1 && i1 < i2 && i2 < len(keys)) || gvc.Cmp(string(keys[i1]), string(keys[i2])) < 0)
	}
}

//gvc:prove C10
//gvc:uses zzInvField zzFieldPrefix zzFieldOrder
func zzHGetAll(m gvc.Map, prefix, key []byte, f2 string, i1, i2 int, fs []string) {
	p, k := string(prefix), string(key)
	m = zzFields(m, p, k, fs)
	gvc.Requires(zzWF(m, p, k))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	gvc.Loop(func(ks []string, i int, res []HashPair) bool {
		return len(res) == i && gvc.Forall(0, i, func(j int) bool {
			return string(res[j].Field) == zzField(p, ks[j]) && string(res[j].Value) == m.Get(ks[j])
		})
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	res, err := s.HGetAll(key)
	gvc.Ensures("only a storage error fails HGetAll", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err == nil {
		j := gvc.ScanPos(ZZHK(p, k, f2))
		gvc.Ensures("every field present is listed with its value", !m.Has(ZZHK(p, k, f2)) || 0 <= j && j < len(res) && string(res[j].Field) == f2 && string(res[j].Value) == m.Get(ZZHK(p, k, f2)))
		gvc.Ensures("every field listed is present with its value", gvc.Forall(0, len(res), func(i int) bool {
			return m.Has(ZZHK(p, k, string(res[i].Field))) && string(res[i].Value) == m.Get(ZZHK(p, k, string(res[i].Field)))
		}))
		gvc.Ensures("fields are listed once and in order", !(0 <= i1 && i1 < i2 && i2 < len(res)) || gvc.Cmp(string(res[i1].Field), string(res[i2].Field)) < 0)
	}
}

//gvc:prove C10
//gvc:uses zzInvField zzFieldPrefix zzFieldOrder
func zzHGetN(m gvc.Map, prefix, key []byte, n int, f2 string, i1, i2 int, fs []string) {
	p, k := string(prefix), string(key)
	m = zzFields(m, p, k, fs)
	gvc.Requires(zzWF(m, p, k))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	gvc.Loop(func(ks []string, i int, res []HashPair) bool {
		return len(res) == i && i < n && gvc.Forall(0, i, func(j int) bool {
			return string(res[j].Field) == zzField(p, ks[j]) && string(res[j].Value) == m.Get(ks[j])
		})
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	res, err := s.HGetN(key, n)
	gvc.Ensures("only a storage error fails HGetN", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err == nil {
		gvc.Ensures("no more fields than asked for", len(res) == 0 || len(res) <= n)
		gvc.Ensures("every field listed is present with its value", gvc.Forall(0, len(res), func(i int) bool {
			return m.Has(ZZHK(p, k, string(res[i].Field))) && string(res[i].Value) == m.Get(ZZHK(p, k, string(res[i].Field)))
		}))
		gvc.Ensures("fields are listed once and in order", !(0 <= i1 && i1 < i2 && i2 < len(res)) || gvc.Cmp(string(res[i1].Field), string(res[i2].Field)) < 0)
		if n > 0 {
			j := gvc.ScanPos(ZZHK(p, k, f2))
			has := m.Has(ZZHK(p, k, f2))
			gvc.Ensures("every field present is listed in its place, or the list is full before it", !has || 0 <= j && (j < len(res) && string(res[j].Field) == f2 || j >= len(res) && len(res) == n))
			gvc.Ensures("the fields listed come first", !has || j < len(res) || !(0 <= i1 && i1 < len(res)) || gvc.Cmp(string(res[i1].Field), f2) < 0)
		}
	}
}

// The keys with the prefix of the fields lie together right below its successor.
//gvc:lemma
//gvc:prove C07
//gvc:inline ZZHP
func zzHPSucc(p, k, s, t, m string) {
	gvc.Trigger(ZZHP(p, k), gvc.Cmp(t, m), gvc.Cmp(m, s))
	h := ZZHP(p, k)
	gvc.Requires(kv.ZZSuccRel(h, s))
	gvc.Requires(gvc.HasPrefix(t, h) && gvc.Cmp(t, m) < 0 && gvc.Cmp(m, s) < 0)
	n := len(h) - 1
	gvc.Lemma(gvc.At(h, n) == 'h')
	d := gvc.FirstDiff(h, s)
	gvc.Lemma(d == n)
	e, f := gvc.FirstDiff(t, m), gvc.FirstDiff(m, s)
	gvc.Lemma(gvc.Forall(0, n, func(i int) bool { return gvc.At(h, i) == gvc.At(s, i) && gvc.At(h, i) == gvc.At(t, i) }))
	gvc.Lemma(e > n || f > n || e == f)
	gvc.Lemma(e >= n && f >= n)
	gvc.Ensures("keys between a field key and the successor have the prefix", gvc.HasPrefix(m, h))
}

//gvc:lemma
//gvc:prove C07
//gvc:inline ZZHP
func zzHPBelow(p, k, s, t string) {
	gvc.Trigger(ZZHP(p, k), gvc.Cmp(t, s))
	h := ZZHP(p, k)
	gvc.Requires(kv.ZZSuccRel(h, s))
	gvc.Requires(gvc.HasPrefix(t, h))
	n := len(h) - 1
	gvc.Lemma(gvc.At(h, n) == 'h')
	d := gvc.FirstDiff(h, s)
	gvc.Lemma(d == n)
	gvc.Lemma(gvc.FirstDiff(t, s) == n)
	gvc.Ensures("field keys lie below the successor", gvc.Cmp(t, s) < 0)
}

//gvc:prove C10
//gvc:uses zzInvField zzFieldPrefix zzFieldOrder zzHPSucc zzHPBelow
func zzHGetNDesc(m gvc.Map, prefix, key []byte, n int, f2 string, i1, i2 int, fs []string) {
	p, k := string(prefix), string(key)
	m = zzFields(m, p, k, fs)
	gvc.Requires(zzWF(m, p, k))
	succ := string(kv.Key(ZZHP(p, k)).PrefixNext())
	gvc.Requires(!m.Has(succ))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	gvc.Loop(func(ks []string, i int, res []HashPair) bool {
		return len(res) == i && i < n && gvc.Forall(0, i, func(j int) bool {
			return gvc.HasPrefix(ks[j], ZZHP(p, k)) && string(res[j].Field) == zzField(p, ks[j]) && string(res[j].Value) == m.Get(ks[j])
		})
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	res, err := s.HGetNDesc(key, n)
	gvc.Ensures("only a storage error fails HGetNDesc", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err == nil {
		gvc.Ensures("no more fields than asked for", len(res) == 0 || len(res) <= n)
		gvc.Ensures("every field listed is present with its value", gvc.Forall(0, len(res), func(i int) bool {
			return m.Has(ZZHK(p, k, string(res[i].Field))) && string(res[i].Value) == m.Get(ZZHK(p, k, string(res[i].Field)))
		}))
		gvc.Ensures("fields are listed once and in descending order", !(0 <= i1 && i1 < i2 && i2 < len(res)) || gvc.Cmp(string(res[i2].Field), string(res[i1].Field)) < 0)
		if n > 0 {
			u := ZZHK(p, k, f2)
			has := m.Has(u)
			j := gvc.ScanPos(u)
			gvc.Lemma(!has || gvc.Cmp(u, succ) < 0)
			gvc.Lemma(!has || 0 <= j)
			x := gvc.ScanAt(len(res))
			gvc.Lemma(!has || j < len(res) || j == len(res) || gvc.Cmp(u, x) < 0 && gvc.Cmp(x, succ) < 0)
			gvc.Ensures("every field present is listed in its place, or the list is full before it", !has || 0 <= j && (j < len(res) && string(res[j].Field) == f2 || j >= len(res) && len(res) == n))
			gvc.Ensures("the fields listed come last", !has || j < len(res) || !(0 <= i1 && i1 < len(res)) || gvc.Cmp(f2, string(res[i1].Field)) < 0)
		}
	}
}

//gvc:prove C10
//gvc:uses zzInvHM zzInvField zzFieldPrefix zzInvHK
func zzHClear(m gvc.Map, prefix, key []byte, f2, other string, n int64, fs []string) {
	p, k := string(prefix), string(key)
	gvc.Requires(n >= 0 && n < 1<<62)
	m = ZZHash(m, p, k, n)
	if n > 0 {
		m = zzFields(m, p, k, fs)
	}
	gvc.Requires(zzWF(m, p, k))
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	s := New(t, prefix)
	u := ZZHK(p, k, f2)
	gvc.Loop(func(i int) bool { return !t.M.Has(u) || m.Has(u) && gvc.ScanPos(u) >= i })
	gvc.Loop(func() bool {
		return gvc.HasPrefix(other, ZZHP(p, k)) && ZZTag(p, other) == 'h' && ZZName(p, other) == k || ZZSame(t.M, m, other)
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	err := s.HClear(key)
	gvc.Ensures("only a storage error fails HClear", err == nil || t.Faults > 0)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err == nil {
		gvc.Ensures("a cleared hash has no meta data", !t.M.Has(ZZHM(p, k)))
		gvc.Ensures("a cleared hash has no field", n == 0 || !t.M.Has(u))
		gvc.Ensures("nothing else changes", other == ZZHM(p, k) || gvc.HasPrefix(other, ZZHP(p, k)) && ZZTag(p, other) == 'h' && ZZName(p, other) == k || ZZSame(t.M, m, other))
	}
}

// ZZWF, ZZField and ZZFields are zzWF, zzField and zzFields for other packages; ZZOfHash tells the keys of the fields of a hash.
func ZZWF(m gvc.Map, p, k string) bool { return zzWF(m, p, k) }

func ZZField(p, s string) string { return zzField(p, s) }

func ZZFields(m gvc.Map, p, k string, fs []string) gvc.Map { return zzFields(m, p, k, fs) }

func ZZOfHash(p, k, s string) bool {
	return gvc.HasPrefix(s, ZZHP(p, k)) && ZZTag(p, s) == 'h' && ZZName(p, s) == k
}
