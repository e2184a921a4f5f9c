id='S2103'; prop='C21'; pkg='provider'
needs='a key that is set with a tag and no time to live'
breaks='the tag of the key is lost'
edits=[('provider/badger_txn.go', '\tif meta == nil {\n', '\tif meta == nil || meta.TTL <= 0 {\n')]
test='package provider\nimport ("testing";"os";"time";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nvar _ = time.Second\nvar _ = kv.ErrKeyNotFound\nfunc open(t *testing.T, b mondis.KVDB) func() {\n\td, err := os.MkdirTemp("", "zzdemo")\n\tif err != nil { t.Fatal(err) }\n\tif err = b.Open(mondis.KVOption{Dir: d}); err != nil { t.Fatal(err) }\n\treturn func() { b.Close(); os.RemoveAll(d) }\n}\nfunc TestZZDemo(t *testing.T) {\n\tb := NewBadger()\n\tdefer open(t, b)()\n\tif err := b.Set([]byte("k"), []byte("v"), &mondis.VMetaReq{Tag: 7, TTL: 0}); err != nil { t.Fatal(err) }\n\t_, m, err := b.Get([]byte("k"))\n\tif err != nil || m.Tag != 7 { t.Fatal(m, err) }\n}\n'
