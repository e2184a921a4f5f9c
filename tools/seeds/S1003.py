id='S1003'; prop='C10'; pkg='structure'
needs='changing a field whose current value is empty'
breaks='a field with an empty value is taken for a new one, so it is counted again'
edits=[('structure/hash.go', '\tvar isNew bool\n\tif err == kv.ErrKeyNotFound {\n\t\tisNew = true\n\t\terr = nil\n\t}', '\tif err == kv.ErrKeyNotFound {\n\t\terr = nil\n\t}\n\tisNew := len(oldValue) == 0')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\ts.HSet([]byte("h"), []byte("f"), []byte(""))\n\ts.HSet([]byte("h"), []byte("f"), []byte("x"))\n\tif n, err := s.HLen([]byte("h")); n != 1 || err != nil { t.Fatal(n, err) }\n\t_ = kv.ErrKeyNotFound\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
