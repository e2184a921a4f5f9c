id='S2003'; prop='C20'; pkg='util'
needs='a transaction that is too big'
breaks='the retry runs in a transaction opened before the commit, which does not see what was committed'
edits=[('util/util.go', '\t\ttried++\n\t\terr = finalTxn.Commit()\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\tfinalTxn = kvdb.NewTransaction(true)', '\t\ttried++\n\t\tnext := kvdb.NewTransaction(true)\n\t\terr = finalTxn.Commit()\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\tfinalTxn = next')]
test='package util\nimport ("errors";"sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nfunc TestZZDemo(t *testing.T) {\n\tdb := &fdb{m: map[string]string{}, limit: 2}\n\ti := 0\n\tfinal, err := TryCommitWhenTxnTooBig(db, db.NewTransaction(true), func(txn mondis.ProviderTxn) error {\n\t\tfor ; i < 5; i++ {\n\t\t\tif err := txn.Set([]byte{byte(i)}, []byte("v"), nil); err != nil { return err }\n\t\t}\n\t\treturn nil\n\t})\n\tif err != nil { t.Fatal(err) }\n\tif err = final.Commit(); err != nil { t.Fatal(err) }\n\tif len(db.m) != 5 { t.Fatal(db.m) }\n}\n'+open('/verif/tools/seeds/fake.go.txt').read()+open('/verif/tools/seeds/fakedb.go.txt').read()
