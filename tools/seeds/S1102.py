id='S1102'; prop='C11'; pkg='structure'
needs='clearing a key whose value is the empty string'
breaks='a key holding the empty string is not removed by clearing it'
edits=[('structure/string.go', '\tek := t.encodeStringDataKey(key)\n\terr = t.txn.Delete(ek)\n\treturn', '\tek := t.encodeStringDataKey(key)\n\tif v, _, getErr := t.txn.Get(ek); getErr == nil && len(v) == 0 {\n\t\treturn\n\t}\n\terr = t.txn.Delete(ek)\n\treturn')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\ts.Set([]byte("c"), nil)\n\tif err := s.Clear([]byte("c")); err != nil { t.Fatal(err) }\n\tif _, err := s.Get([]byte("c")); err != kv.ErrKeyNotFound { t.Fatal(err) }\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
