id='S2002'; prop='C20'; pkg='util'
needs='a transaction body that fails'
breaks='the cancel function runs although no commit was attempted'
edits=[('util/util.go', '\terr = f(txn)\n\tif err != nil {\n\t\treturn\n\t}\n\n\terr = txn.Commit()\n\tif err != nil {\n\t\tcancelFunc()\n\t}\n\treturn', '\terr = f(txn)\n\tif err == nil {\n\t\terr = txn.Commit()\n\t}\n\tif err != nil {\n\t\tcancelFunc()\n\t}\n\treturn')]
test='package util\nimport ("errors";"sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nfunc TestZZDemo(t *testing.T) {\n\tdb := &fdb{m: map[string]string{}}\n\tn := 0\n\terr := RunInNewUpdateTxnWithCancel(db, func(mondis.ProviderTxn) error { return kv.ErrKeyNotFound }, func() { n++ })\n\tif err == nil || n != 0 { t.Fatal(err, n) }\n\tdb.failCommit = true\n\terr = RunInNewUpdateTxnWithCancel(db, func(mondis.ProviderTxn) error { return nil }, func() { n++ })\n\tif err == nil || n != 1 { t.Fatal(err, n) }\n}\n'+open('/verif/tools/seeds/fake.go.txt').read()+open('/verif/tools/seeds/fakedb.go.txt').read()
