fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1801", "C18", "document/txn"
needs = "a schema change published between the begin of the store transaction and the begin of the document transaction"
breaks = "the store transaction is opened before the schema cache is taken: it reads data older than the cache it is checked against, so the conflict goes unnoticed"
edits = [("document/txn/txn.go", "	startMetaCache := handle.Get()\n	t := kvdb.NewTransaction(update)\n", "	t := kvdb.NewTransaction(update)\n	startMetaCache := handle.Get()\n")]
test = 'package txn\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "context"; "encoding/json"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/mondis/document/schema")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\n' + fake + fakedb + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	h := schema.NewHandle()
	c := schema.NewMetaCache(1, nil)
	h.Update(context.Background(), c)
	b, _ := json.Marshal(&model.DBInfo{ID: 9, Name: "a"})
	db.hook = func() {
		n := c.Clone()
		if err := n.ApplyDiffs([]*model.SchemaDiff{{Version: 2, Type: model.ActionCreateSchema, CollectionIDs: []int64{7}, RawArg: b}}); err != nil { t.Fatal(err) }
		h.Update(context.Background(), n)
	}
	x := NewTxn(h, true, db)
	x.ReferredCollections(7)
	if err := x.Set([]byte("k"), []byte("v"), nil); err != nil { t.Fatal(err) }
	if err := x.Commit(); err != ErrDDLConflict { t.Fatal("conflict missed", err) }
	if len(db.m) != 0 { t.Fatal("published in spite of the conflict") }
}
'''
