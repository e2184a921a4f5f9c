id='S1002'; prop='C10'; pkg='structure'
needs='a store that reuses the memory it lends to scan callbacks'
breaks='listed values refer to memory that is only valid during the scan'
edits=[('structure/hash.go', '\t\t\tField: append([]byte{}, field...),\n\t\t\tValue: append([]byte{}, value...),\n\t\t}\n\t\tres = append(res, pair)\n\t\treturn len(res) < n', '\t\t\tField: append([]byte{}, field...),\n\t\t\tValue: value,\n\t\t}\n\t\tres = append(res, pair)\n\t\treturn len(res) < n')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}, reuse: true}\n\ts := New(f, []byte("p"))\n\tfor _, x := range []string{"a", "b", "c"} { s.HSet([]byte("h"), []byte(x), []byte("v"+x)) }\n\tfor n := 1; n < 4; n++ {\n\t\tps, err := s.HGetN([]byte("h"), n)\n\t\tif err != nil || len(ps) != n { t.Fatal(err) }\n\t\tfor _, p := range ps { if string(p.Value) != "v"+string(p.Field) { t.Fatal(string(p.Value)) } }\n\t}\n\t_ = kv.ErrKeyNotFound\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
