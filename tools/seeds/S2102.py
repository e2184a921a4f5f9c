id='S2102'; prop='C21'; pkg='provider'
needs='a leveldb scan with a prefix and an offset'
breaks='the scan runs on past the keys with the prefix'
edits=[('provider/leveldb.go', '\tif option.Prefix != nil {\n\t\tslice', '\tif option.Offset != nil {\n\t\tslice = &util.Range{Start: option.Offset}\n\t} else if option.Prefix != nil {\n\t\tslice')]
test='package provider\nimport ("testing";"os";"time";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nvar _ = time.Second\nvar _ = kv.ErrKeyNotFound\nfunc open(t *testing.T, b mondis.KVDB) func() {\n\td, err := os.MkdirTemp("", "zzdemo")\n\tif err != nil { t.Fatal(err) }\n\tif err = b.Open(mondis.KVOption{Dir: d}); err != nil { t.Fatal(err) }\n\treturn func() { b.Close(); os.RemoveAll(d) }\n}\nfunc TestZZDemo(t *testing.T) {\n\tl := NewLevelDB()\n\tdefer open(t, l)()\n\tfor _, k := range []string{"a1", "b1", "b2", "b3", "c1"} { if err := l.Set([]byte(k), []byte("v"), nil); err != nil { t.Fatal(err) } }\n\ts := ""\n\terr := l.Scan(mondis.ProviderScanOption{Prefix: []byte("b"), Offset: []byte("b2")}, func(k, v []byte, m mondis.VMetaResp) bool { s += string(k); return true })\n\tif err != nil || s != "b2b3" { t.Fatal(s, err) }\n}\n'
