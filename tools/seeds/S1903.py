exec(open("/verif/tools/seeds/S1901.py").read())
id, prop, pkg = "S1903", "C19", "document"
needs = "two documents and a store that reuses the memory lent to scan callbacks"
breaks = "DeleteAll keeps the key lent by the scan, which the store overwrites before it deletes"
edits = [("document/collection.go", "err = txn.Delete(append([]byte(nil), key...))", "err = txn.Delete(key)")]
test = 'package document\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\n' + fake + '''
// lazy deletes at commit, with the keys it was given
type lazy struct { fkv; del [][]byte }
func (l *lazy) Delete(k []byte) error { l.del = append(l.del, k); return nil }
func (l *lazy) Commit() error { for _, k := range l.del { delete(l.m, string(k)) }; return nil }
func (l *lazy) Scan(o mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {
	buf := make([]byte, 0, 64)
	return l.fkv.Scan(o, func(k, v []byte, m mondis.VMetaResp) bool { buf = append(buf[:0], k...); return fn(buf, v, m) })
}
func TestZZDemo(t *testing.T) {
	l := &lazy{fkv: fkv{m: map[string]string{}}}
	c := &Collection{db: &DB{}, cid: 7}
	for i := int64(0); i < 3; i++ { l.m[string(EncodeCollectionDocumentKey(nil, 7, i))] = "x" }
	n, err := c.deleteAllWithTxn(l)
	if err != nil || n != 3 { t.Fatal(n, err) }
	if err := l.Commit(); err != nil { t.Fatal(err) }
	if len(l.m) != 0 { t.Fatal("left", len(l.m)) }
}
'''
