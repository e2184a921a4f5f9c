id='S0902'; prop='C09'; pkg='structure'
needs='the last element of a list is removed by a pop at the right end'
breaks='the meta data of an emptied list is left behind, so the list looks present'
edits=[('structure/list.go', '\tif !meta.IsEmpty() {\n\t\terr = t.txn.Set(metaKey, meta.Value(), nil)\n\t} else {', '\tif left && meta.LIndex < meta.RIndex || !left && meta.RIndex >= meta.LIndex {\n\t\terr = t.txn.Set(metaKey, meta.Value(), nil)\n\t} else {')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\ts.RPush([]byte("l"), []byte("e"))\n\ts.RPop([]byte("l"))\n\tif len(f.m) != 0 { t.Fatal(len(f.m)) }\n\tif _, err := s.LIndex([]byte("l"), 0); err != kv.ErrKeyNotFound { t.Fatal(err) }\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
