id='S1202'; prop='C12'; pkg='document/meta/sequence'
needs='at least two ids put back at the same time'
breaks='the first id put back is handed out twice and the last one is lost'
edits=[('document/meta/sequence/sequence.go', 'val = seq.putbacks[len(seq.putbacks)-1]', 'val = seq.putbacks[0]')]
test='package sequence\nimport ("errors";"sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nfunc TestZZDemo(t *testing.T) {\n\tdb := &fdb{m: map[string]string{}}\n\ts, err := NewString(db, []byte("k"), 3)\n\tif err != nil { t.Fatal(err) }\n\ta, _ := s.Next()\n\tb, _ := s.Next()\n\ts.PutBack(a, b)\n\tx, _ := s.Next()\n\ty, _ := s.Next()\n\tif x == y { t.Fatal("twice", x) }\n}\n'+open('/verif/tools/seeds/fake.go.txt').read()+open('/verif/tools/seeds/fakedb.go.txt').read()
