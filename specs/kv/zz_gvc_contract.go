package kv

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// ZZSuccRel: s is the prefix successor of k.
func ZZSuccRel(k, s string) bool {
	all := gvc.Forall(0, len(k), func(p int) bool { return gvc.At(k, p) == 255 })
	return all && s == k+"\x00" || !all && zzIsSucc(k, s)
}

//gvc:spec (Key).PrefixNext
func zzContractPrefixNext(k Key) Key {
	s := gvc.AnyBytes("successor")
	gvc.Ensures("", ZZSuccRel(string(k), string(s)))
	return s
}
