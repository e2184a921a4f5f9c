fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1802", "C18", "document/txn"
needs = "collections referred to in two steps, of which the first one changes meanwhile"
breaks = "referring to further collections forgets those referred to before, so their schema changes are not noticed"
edits = [("document/txn/txn.go", "	if txn.referredCollections == nil {\n		txn.referredCollections = make(map[int64]struct{})\n	}\n", "	if len(txn.referredCollections) < len(collectionIDs) {\n		txn.referredCollections = make(map[int64]struct{}, len(collectionIDs))\n	}\n")]
test = 'package txn\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "context"; "encoding/json"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/mondis/document/schema")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\n' + fake + fakedb + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	h := schema.NewHandle()
	c := schema.NewMetaCache(1, nil)
	h.Update(context.Background(), c)
	b, _ := json.Marshal(&model.DBInfo{ID: 9, Name: "a"})
	x := NewTxn(h, true, db)
	x.ReferredCollections(7)
	x.ReferredCollections(8, 9)
	n := c.Clone()
	if err := n.ApplyDiffs([]*model.SchemaDiff{{Version: 2, Type: model.ActionCreateSchema, CollectionIDs: []int64{7}, RawArg: b}}); err != nil { t.Fatal(err) }
	h.Update(context.Background(), n)
	if err := x.Commit(); err != ErrDDLConflict { t.Fatal("conflict missed", err) }
}
'''
