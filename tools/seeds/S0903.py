id='S0903'; prop='C09'; pkg='structure'
needs='clearing a list that has elements pushed on the left'
breaks='elements with negative positions survive the clearing of their list'
edits=[('structure/list.go', '\tfor index := meta.LIndex; index < meta.RIndex; index++ {\n\t\tdataKey', '\tindex := meta.LIndex\n\tif index < 0 && meta.RIndex > 0 {\n\t\tindex = 0\n\t}\n\tfor ; index < meta.RIndex; index++ {\n\t\tdataKey')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\ts.RPush([]byte("l"), []byte("e"))\n\ts.LPush([]byte("l"), []byte("d"))\n\ts.LClear([]byte("l"))\n\tif len(f.m) != 0 { t.Fatal(len(f.m)) }\n\t_ = kv.ErrKeyNotFound\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
