package kv

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

//gvc:prove C05
func zzNext(k Key) {
	k0 := string(k)
	n := k.Next()
	s := string(n)
	gvc.Ensures("Next is the key followed by a zero byte", s == k0+"\x00")
	gvc.Ensures("Next does not change the key", string(k) == k0)
	gvc.Retain(n)
	for i := range k {
		k[i] = 1
	}
	gvc.Ensures("Next does not share memory with the key", string(n) == s)
}

// Nothing lies strictly between a key and its Next.
//gvc:prove C05
func zzNextTight(k Key, m string) {
	k0 := string(k)
	s := string(k.Next())
	gvc.Register(k0)
	gvc.Ensures("Next is greater", gvc.Cmp(k0, s) < 0)
	f := gvc.FirstDiff(k0, m)
	g := gvc.FirstDiff(m, s)
	in := gvc.Cmp(k0, m) < 0 && gvc.Cmp(m, s) < 0
	gvc.Lemma(!in || f <= len(k0) && g <= len(m))
	gvc.Lemma(!in || f == len(k0))
	gvc.Ensures("no key lies between a key and its Next", !in)
}

// PrefixNext bounds the keys with the prefix from above, tightly.
//gvc:prove C05
//gvc:proves (Key).PrefixNext
func zzPrefixNext(k Key) {
	k0 := string(k)
	gvc.Loop(func(buf []byte, i int) bool { return -1 <= i && i < len(k0) && len(buf) == len(k0) })
	gvc.Loop(func(buf []byte, i int) bool {
		return gvc.Forall(0, i+1, func(p int) bool { return buf[p] == gvc.At(k0, p) })
	})
	gvc.Loop(func(buf []byte, i int) bool {
		return gvc.Forall(i+1, len(k0), func(p int) bool { return buf[p] == 0 && gvc.At(k0, p) == 255 })
	})
	n := k.PrefixNext()
	s := string(n)
	gvc.Ensures("PrefixNext does not change the key", string(k) == k0)
	all := gvc.Forall(0, len(k0), func(p int) bool { return gvc.At(k0, p) == 255 })
	gvc.Ensures("a key of 255 bytes only has no prefix successor: its Next is returned", !all || s == k0+"\x00")
	gvc.Ensures("otherwise the length is kept", all || len(s) == len(k0))
	d := gvc.FirstDiff(k0, s)
	gvc.Lemma(all || d < len(k0))
	gvc.Lemma(all || gvc.At(s, d) != gvc.At(k0, d))
	gvc.Lemma(all || gvc.At(s, d) != 0)
	gvc.Ensures("the first changed byte is one larger", all || d < len(k0) && int(gvc.At(s, d)) == int(gvc.At(k0, d))+1)
	gvc.Ensures("after it the key has only 255 and the successor only zero bytes", all || gvc.Forall(d+1, len(k0), func(p int) bool { return gvc.At(k0, p) == 255 && gvc.At(s, p) == 0 }))
	gvc.Ensures("PrefixNext is the prefix successor", ZZSuccRel(k0, s))
	gvc.Ensures("PrefixNext is greater", gvc.Cmp(k0, s) < 0)
}

// zzIsSucc: s is the prefix successor of k, which has some byte that is not 255.
func zzIsSucc(k, s string) bool {
	d := gvc.FirstDiff(k, s)
	return len(s) == len(k) && d < len(k) && int(gvc.At(s, d)) == int(gvc.At(k, d))+1 &&
		gvc.Forall(d+1, len(k), func(p int) bool { return gvc.At(k, p) == 255 && gvc.At(s, p) == 0 })
}

// Keys with prefix k are exactly those from k up to the successor (among keys at least as long as k).
//gvc:lemma
//gvc:prove C05
func zzPrefixRange(k, s, m string) {
	gvc.Register(k)
	gvc.Register(string(Key(k).PrefixNext()))
	gvc.Requires(zzIsSucc(k, s) && len(m) >= len(k))
	d := gvc.FirstDiff(k, s)
	e := gvc.FirstDiff(k, m)
	f := gvc.FirstDiff(m, s)
	in := gvc.Cmp(k, m) <= 0 && gvc.Cmp(m, s) < 0
	has := gvc.HasPrefix(m, k)
	gvc.Lemma(!has || f <= d)
	gvc.Lemma(!has || f >= d)
	gvc.Lemma(!has || gvc.Cmp(m, s) < 0)
	gvc.Lemma(!has || gvc.Cmp(k, m) <= 0)
	gvc.Lemma(!in || e >= d)
	gvc.Lemma(!in || e >= len(k))
	gvc.Ensures("the keys with a prefix are the keys from it up to its successor", has == in)
}

//gvc:prove C05
func zzCmp(a, b Key) {
	x, y := string(a), string(b)
	gvc.Ensures("Cmp is the byte order", a.Cmp(b) == gvc.Cmp(x, y))
	gvc.Ensures("HasPrefix is byte prefix", a.HasPrefix(b) == gvc.HasPrefix(x, y))
	c := a.Clone()
	gvc.Ensures("Clone is equal", string(c) == x)
	for i := range a {
		a[i] = 1
	}
	gvc.Ensures("Clone does not share memory", string(c) == x)
}

//gvc:prove C05
func zzIsPoint(s, e Key) {
	a, b := string(s), string(e)
	gvc.Register(string(s.PrefixNext()))
	gvc.Register(string(s.Next()))
	gvc.Loop(func(i int) bool { return -1 <= i && i < len(a) })
	gvc.Loop(func(i int) bool {
		return gvc.Forall(i+1, len(a), func(p int) bool { return gvc.At(a, p) == 255 && gvc.At(b, p) == 0 })
	})
	r := &KeyRange{StartKey: s, EndKey: e}
	got := r.IsPoint()
	gvc.Ensures("a range is a point when its end is the Next of its start", got || b != a+"\x00")
	gvc.Ensures("a range is a point when its end is the prefix successor of its start", got || !zzIsSucc(a, b))
	gvc.Ensures("only those ranges are points", !got || b == a+"\x00" || zzIsSucc(a, b))
	gvc.Ensures("IsPoint changes nothing", string(s) == a && string(e) == b)
}
