#!/usr/bin/env python3
# Writes specs/pb/zz_gvc_pb.go: the assumed contracts of the generated protobuf code.
M = {
 'SetRequest': [('Key','bytes'),('Value','bytes'),('Meta','VMetaReq')],
 'SetResponse': [('Code','int32'),('Msg','string')],
 'GetRequest': [('Key','bytes')],
 'GetResponse': [('Code','int32'),('Msg','string'),('Value','bytes'),('Meta','VMetaResp')],
 'ExistsRequest': [('Key','bytes')],
 'ExistsResponse': [('Code','int32'),('Msg','string'),('Exists','bool')],
 'DeleteRequest': [('Key','bytes')],
 'DeleteResponse': [('Code','int32'),('Msg','string')],
 'CommitResponse': [('Code','int32'),('Msg','string')],
 'ScanRequest': [('ProviderScanOption','ProviderScanOption'),('Limit','int32')],
 'ScanResponse': [('Code','int32'),('Msg','string'),('Entries','[]Entry')],
}
S = {
 'VMetaReq': [('TTL','int64'),('Tag','uint32')],
 'VMetaResp': [('ExpiresAt','uint64'),('Tag','uint32')],
 'ProviderScanOption': [('Reverse','bool'),('Prefix','bytes'),('Offset','bytes')],
 'Entry': [('Key','bytes'),('Value','bytes'),('Meta','VMetaResp')],
}
gt = {'bytes':'string','string':'string','int32':'int32','int64':'int64','uint32':'uint32','uint64':'uint64','bool':'bool'}
any_ = {'bytes':'gvc.AnyBytes("%s")','string':'gvc.AnyString("%s")','int32':'int32(gvc.AnyInt64("%s"))','int64':'gvc.AnyInt64("%s")','uint32':'uint32(gvc.AnyInt64("%s"))','uint64':'gvc.AnyUint64("%s")','bool':'gvc.AnyBool("%s")'}
zero = {'string':'""','int32':'0','int64':'0','uint32':'0','uint64':'0','bool':'false'}
o = []
w = o.append
w('''// Code generated by tools/genpb.py. DO NOT EDIT.

package pb

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// The assumed contract of the generated wire code: the ZZ functions read a field out of an encoded message; an
// encoding carries the fields of the message it was made from; decoding merges what the bytes carry into the
// message: a field the bytes do not carry keeps the value it had, and byte fields reuse the memory they had.

func zzBad() error {
	err := gvc.AnyError("wire error")
	gvc.Assume("decoding fails with an error", err != nil)
	return err
}
''')
def opaque(sig, body):
    w('//gvc:opaque\nfunc %s {\n%s}\n' % (sig, body))
for m, fs in M.items():
    opaque('ZZ%sOK(s string) bool' % m, '\tvar m %s\n\treturn m.Unmarshal([]byte(s)) == nil\n' % m)
    def getter(name, typ, expr, pre=''):
        opaque('ZZ%s%s(s string) %s' % (m, name, typ), '\tvar m %s\n\tm.Unmarshal([]byte(s))\n%s\treturn %s\n' % (m, pre, expr))
    for f, t in fs:
        if t.startswith('[]'):
            getter('N', 'int', 'len(m.Entries)')
            def eg(name, typ, expr, pre=''):
                opaque('ZZ%s%s(s string, i int) %s' % (m, name, typ), '\tvar m %s\n\tm.Unmarshal([]byte(s))\n\tif i < 0 || i >= len(m.Entries) {\n\t\treturn %s\n\t}\n%s\treturn %s\n' % (m, zero[typ], pre, expr))
            eg('Key', 'string', 'string(m.Entries[i].Key)')
            eg('Value', 'string', 'string(m.Entries[i].Value)')
            eg('HasMeta', 'bool', 'm.Entries[i].Meta != nil')
            np = '\tif m.Entries[i].Meta == nil {\n\t\treturn 0\n\t}\n'
            eg('ExpiresAt', 'uint64', 'm.Entries[i].Meta.ExpiresAt', np)
            eg('Tag', 'uint32', 'm.Entries[i].Meta.Tag', np)
        elif t in S:
            getter('Has'+f, 'bool', 'm.%s != nil' % f)
            for g, u in S[t]:
                e = 'm.%s.%s' % (f, g)
                if u == 'bytes': e = 'string(%s)' % e
                getter(f+g, gt[u], e, '\tif m.%s == nil {\n\t\treturn %s\n\t}\n' % (f, zero[gt[u]]))
                if u == 'bytes':
                    getter('Has'+f+g, 'bool', 'm.%s.%s != nil' % (f, g), '\tif m.%s == nil {\n\t\treturn false\n\t}\n' % f)
        else:
            e = 'm.'+f
            if t == 'bytes':
                e = 'string(%s)' % e
                getter('Has'+f, 'bool', 'm.%s != nil' % f)
            getter(f, gt[t], e)
    # Unmarshal
    w('//gvc:spec (*%s).Unmarshal\nfunc zz%sUnmarshal(m *%s, dAtA []byte) error {\n\ts := string(dAtA)' % (m, m, m))
    w('\tif !ZZ%sOK(s) {' % m)
    for f, t in fs:
        if t in any_: w('\t\tm.%s = %s' % (f, any_[t] % f))
        elif t in S:
            w('\t\tm.%s = &%s{%s}' % (f, t, ', '.join('%s: %s' % (g, any_[u] % g) for g, u in S[t])))
        else:
            w('\t\tm.Entries = nil')
    w('\t\treturn zzBad()\n\t}')
    def merge(dst, t, get, has):
        if t == 'bytes':
            w('\tif cap(%s) == 0 {\n\t\t%s = gvc.CopyOf(%s)\n\t} else if %s {\n\t\t%s = append(%s[:0], %s...)\n\t}' % (dst, dst, get, has, dst, dst, get))
        elif t == 'bool':
            w('\tif !%s {\n\t\t%s = %s\n\t} else if %s || gvc.AnyBool("explicit false") {\n\t\t%s = %s\n\t}' % (dst, dst, get, get, dst, get))
        else:
            z = zero[gt[t]]
            w('\tif %s == %s {\n\t\t%s = %s\n\t} else if %s != %s || gvc.AnyBool("explicit zero") {\n\t\t%s = %s\n\t}' % (dst, z, dst, get, get, z, dst, get))
    for f, t in fs:
        if t in any_:
            merge('m.'+f, t, 'ZZ%s%s(s)' % (m, f), 'ZZ%sHas%s(s)' % (m, f))
        elif t in S:
            w('\tif ZZ%sHas%s(s) {\n\t\tif m.%s == nil {\n\t\t\tm.%s = &%s{}\n\t\t}' % (m, f, f, f, t))
            for g, u in S[t]:
                merge('m.%s.%s' % (f, g), u, 'ZZ%s%s%s(s)' % (m, f, g), 'ZZ%sHas%s%s(s)' % (m, f, g))
            w('\t}')
        else:
            w('''	n := ZZ%sN(s)
	gvc.Assume("a message has a countable number of entries", n >= 0 && n <= 1<<31)
	for i := 0; i < n; i++ {
		e := &Entry{Key: gvc.CopyOf(ZZ%sKey(s, i)), Value: gvc.CopyOf(ZZ%sValue(s, i))}
		if ZZ%sHasMeta(s, i) {
			e.Meta = &VMetaResp{ExpiresAt: ZZ%sExpiresAt(s, i), Tag: ZZ%sTag(s, i)}
		}
		m.Entries = append(m.Entries, e)
	}''' % ((m,)*6))
    w('\treturn nil\n}\n')
    # Marshal
    w('//gvc:spec (*%s).Marshal\nfunc zz%sMarshal(m *%s) ([]byte, error) {\n\ts := gvc.AnyString("encoding")' % (m, m, m))
    cs = ['ZZ%sOK(s)' % m]
    post = []
    for f, t in fs:
        if t == 'bytes': cs.append('ZZ%s%s(s) == string(m.%s)' % (m, f, f))
        elif t in any_: cs.append('ZZ%s%s(s) == m.%s' % (m, f, f))
        elif t in S:
            cs.append('ZZ%sHas%s(s) == (m.%s != nil)' % (m, f, f))
            cc = []
            for g, u in S[t]:
                e = 'm.%s.%s' % (f, g)
                if u == 'bytes': e = 'string(%s)' % e
                cc.append('ZZ%s%s%s(s) == %s' % (m, f, g, e))
            post.append('\tif m.%s != nil {\n\t\tgvc.Assume("the wire format round-trips", %s)\n\t}' % (f, ' && '.join(cc)))
        else:
            cs.append('ZZ%sN(s) == len(m.Entries)' % m)
            post.append('''	gvc.Assume("the wire format round-trips", gvc.Forall(0, len(m.Entries), func(i int) bool {
		e := m.Entries[i]
		return ZZ%sKey(s, i) == string(e.Key) && ZZ%sValue(s, i) == string(e.Value) && ZZ%sHasMeta(s, i) && ZZ%sExpiresAt(s, i) == e.Meta.ExpiresAt && ZZ%sTag(s, i) == e.Meta.Tag
	}))''' % ((m,)*5))
    w('\tgvc.Assume("the wire format round-trips", %s)' % ' && '.join(cs))
    for p in post: w(p)
    w('\treturn []byte(s), nil\n}\n')
open('/verif/specs/pb/zz_gvc_pb.go','w').write('\n'.join(o))
