id='S1203'; prop='C12'; pkg='document/meta/sequence'
needs='another goroutine calling Next while a batch renews the lease'
breaks='the rest of the old lease goes to both callers'
edits=[('document/meta/sequence/sequence.go', '\terr = seq.renewLeaseFunc(step)\n\tif err != nil {\n\t\treturn\n\t}\n', '\t// do not block the others during the transaction\n\tseq.Unlock()\n\terr = seq.renewLeaseFunc(step)\n\tseq.Lock()\n\tif err != nil {\n\t\treturn\n\t}\n')]
test='package sequence\nimport ("errors";"sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv";"time")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nfunc TestZZDemo(t *testing.T) {\n\tdb := &fdb{m: map[string]string{}}\n\ts, err := NewString(db, []byte("k"), 3)\n\tif err != nil { t.Fatal(err) }\n\tseen := map[int64]bool{}\n\tv, _ := s.Next()\n\tseen[v] = true\n\tch := make(chan int64, 10)\n\tdb.hook = func() {\n\t\tgo func() { v, _ := s.Next(); ch <- v }()\n\t\ttime.Sleep(300 * time.Millisecond)\n\t}\n\trs, err := s.NextN(5)\n\tif err != nil { t.Fatal(err) }\n\tgot := []int64{<-ch}\n\tfor _, r := range rs { for v := r.Start+1; v <= r.End; v++ { got = append(got, v) } }\n\tfor i := 0; i < 3; i++ { v, _ := s.Next(); got = append(got, v) }\n\tfor _, v := range got { if seen[v] { t.Fatal("twice", v, got) }; seen[v] = true }\n}\n'+open('/verif/tools/seeds/fake.go.txt').read()+open('/verif/tools/seeds/fakedb.go.txt').read()
