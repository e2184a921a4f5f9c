id='S1101'; prop='C11'; pkg='structure'
needs='incrementing a missing key by zero'
breaks='incrementing by zero does not create the counter, so it still reads as missing'
edits=[('structure/string.go', "\tek := t.encodeStringDataKey(key)\n\t// txn Inc will lock this key, so we don't lock it here.\n", "\tif step == 0 {\n\t\tn, err = t.GetInt64(key)\n\t\tif err == kv.ErrKeyNotFound {\n\t\t\terr = nil\n\t\t}\n\t\treturn\n\t}\n\tek := t.encodeStringDataKey(key)\n\t// txn Inc will lock this key, so we don't lock it here.\n")]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\tif n, err := s.Inc([]byte("c"), 0); n != 0 || err != nil { t.Fatal(n, err) }\n\tif n, err := s.GetInt64([]byte("c")); n != 0 || err != nil { t.Fatal(n, err) }\n\t_ = kv.ErrKeyNotFound\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
