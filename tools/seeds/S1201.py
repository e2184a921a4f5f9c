id='S1201'; prop='C12'; pkg='document/meta/sequence'
needs='a commit that fails while the lease is renewed'
breaks='ids are handed out although the lease was never stored, so a restarted sequence hands them out again'
edits=[('document/meta/sequence/string.go', '\t\tleased, err := txStruct.Inc(keyword, step)\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\terr = txn.Commit()\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\ts.leased = leased\n\t\ts.next = leased - step\n\t\treturn\n', '\t\tleased, err := txStruct.Inc(keyword, step)\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\t\ts.leased = leased\n\t\ts.next = leased - step\n\n\t\terr = txn.Commit()\n\t\treturn\n')]
test='package sequence\nimport ("errors";"sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nfunc TestZZDemo(t *testing.T) {\n\tdb := &fdb{m: map[string]string{}}\n\ts, err := NewString(db, []byte("k"), 3)\n\tif err != nil { t.Fatal(err) }\n\tseen := map[int64]bool{}\n\ttake := func(s *String) {\n\t\tif v, err := s.Next(); err == nil { if seen[v] { t.Fatal("twice", v) }; seen[v] = true }\n\t}\n\tfor i := 0; i < 3; i++ { take(s) }\n\tdb.failCommit = true\n\ttake(s); take(s)\n\tdb.failCommit = false\n\ts, err = NewString(db, []byte("k"), 3)\n\tif err != nil { t.Fatal(err) }\n\tfor i := 0; i < 5; i++ { take(s) }\n}\n'+open('/verif/tools/seeds/fake.go.txt').read()+open('/verif/tools/seeds/fakedb.go.txt').read()
