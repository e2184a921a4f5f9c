id='S1001'; prop='C10'; pkg='structure'
needs='one deletion call that names the same field twice'
breaks='a field named twice in one deletion is counted twice, so the length becomes too small'
edits=[('structure/hash.go', '\tfor _, field := range fields {\n\t\tdataKey := t.encodeHashDataKey(key, field)\n\n\t\t_, err = t.loadHashValue(dataKey)', '\tvar present [][]byte\n\tfor _, field := range fields {\n\t\tdataKey := t.encodeHashDataKey(key, field)\n\n\t\t_, err = t.loadHashValue(dataKey)'), ('structure/hash.go', '\t\tif err = t.txn.Delete(dataKey); err != nil {\n\t\t\treturn\n\t\t}\n\n\t\tmeta.FieldCount--\n\n\t}\n', '\t\tpresent = append(present, dataKey)\n\t}\n\tfor _, dataKey := range present {\n\t\tif err = t.txn.Delete(dataKey); err != nil {\n\t\t\treturn\n\t\t}\n\n\t\tmeta.FieldCount--\n\n\t}\n')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\tfor _, x := range []string{"a", "b", "c"} { s.HSet([]byte("h"), []byte(x), []byte("v")) }\n\tif err := s.HDel([]byte("h"), []byte("a"), []byte("a"), []byte("x")); err != nil { t.Fatal(err) }\n\tif n, err := s.HLen([]byte("h")); n != 2 || err != nil { t.Fatal(n, err) }\n\t_ = kv.ErrKeyNotFound\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
