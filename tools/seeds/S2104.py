id='S2104'; prop='C21'; pkg='provider'
needs='a write batch that deletes a key'
breaks='the key stays, with an empty value'
edits=[('provider/badger_wb.go', 'return (*badger.WriteBatch)(wb).Delete(key)', 'return (*badger.WriteBatch)(wb).Set(key, nil)')]
test='package provider\nimport ("testing";"os";"time";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nvar _ = time.Second\nvar _ = kv.ErrKeyNotFound\nfunc open(t *testing.T, b mondis.KVDB) func() {\n\td, err := os.MkdirTemp("", "zzdemo")\n\tif err != nil { t.Fatal(err) }\n\tif err = b.Open(mondis.KVOption{Dir: d}); err != nil { t.Fatal(err) }\n\treturn func() { b.Close(); os.RemoveAll(d) }\n}\nfunc TestZZDemo(t *testing.T) {\n\tb := NewBadger()\n\tdefer open(t, b)()\n\tif err := b.Set([]byte("k"), []byte("v"), nil); err != nil { t.Fatal(err) }\n\twb := b.WriteBatch()\n\tif err := wb.Delete([]byte("k")); err != nil { t.Fatal(err) }\n\tif err := wb.Commit(); err != nil { t.Fatal(err) }\n\tif _, _, err := b.Get([]byte("k")); err != kv.ErrKeyNotFound { t.Fatal(err) }\n}\n'
