id='S0901'; prop='C09'; pkg='structure'
needs='setting the element at an index equal to the length of the list'
breaks='an index just past the end is written instead of being reported'
edits=[('structure/list.go', '\tif index >= meta.LIndex && index < meta.RIndex {\n\t\terr = t.txn.Set', '\tif index >= meta.LIndex && index <= meta.RIndex {\n\t\terr = t.txn.Set')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\ts.RPush([]byte("l"), []byte("e"), []byte("f"))\n\tif err := s.LSet([]byte("l"), 2, []byte("x")); err != kv.ErrKeyNotFound { t.Fatal(err) }\n\tif err := s.LSet([]byte("l"), 1, []byte("x")); err != nil { t.Fatal(err) }\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
