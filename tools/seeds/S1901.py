fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1901", "C19", "document/dml"
needs = "InsertOneManaged on a transaction given by the user, which is discarded afterwards (or which inserted the same id before)"
breaks = "a managed insertion always runs in a transaction of its own, so it is published although the user's transaction is not"
edits = [("document/dml/collection.go", "	if t == nil {\n		err = c.RunInNewUpdateTxn(updateFunc)", "	if t == nil || updateFor == updateForInsert {\n		err = c.RunInNewUpdateTxn(updateFunc)")]
head = 'package dml\nimport ("context"; "errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/mondis/document/schema"; "go.mongodb.org/mongo-driver/bson")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = bson.M{}\n' + fake + fakedb + '''
func demoColl(t *testing.T, db *fdb) *Collection {
	h := schema.NewHandle()
	c := schema.NewMetaCache(1, []*model.DBInfo{{ID: 1, Name: "d", Collections: map[string]*model.CollectionInfo{"c": {ID: 7, Name: "c"}, "e": {ID: 8, Name: "e"}}}})
	if err := h.Update(context.Background(), c); err != nil { t.Fatal(err) }
	return newCollection("d", "c", db, h)
}
'''
test = head + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	c := demoColl(t, db)
	x := c.Txn(true)
	if err := c.InsertOneManaged(5, bson.M{"a": 1}, x); err != nil { t.Fatal(err) }
	x.Discard()
	if len(db.m) != 0 { t.Fatal("published by a discarded transaction") }
}
'''
