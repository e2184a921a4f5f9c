fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1401", "C14", "document/meta"
needs = "a collection dropped with its sequence and another of the database that has a sequence, in a database whose own id differs from the collection's"
breaks = "dropping a collection leaves its document sequence behind, or deletes that of a collection whose id is the database's"
edits = [("document/meta/meta.go", "if err = m.txn.HDel(dbKey, didSequenceKeyByID(collectionID)); err != nil {", "if err = m.txn.HDel(dbKey, didSequenceKeyByID(dbID)); err != nil {")]
head = 'package meta\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/model")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = model.ActionNone\n' + fake + fakedb
test = head + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	tx := db.NewTransaction(true)
	m := NewMeta(tx)
	must := func(err error) { if err != nil { t.Fatal(err) } }
	must(m.CreateDatabase(&model.DBInfo{ID: 1, Name: "d"}))
	for _, c := range []int64{2, 3} {
		must(m.CreateCollection(1, &model.CollectionInfo{ID: c, Name: "c"}))
		if _, err := m.txn.HInc(dbKeyByID(1), didSequenceKeyByID(c), 1000); err != nil { t.Fatal(err) }
	}
	must(m.DropCollection(1, 2, true))
	if _, err := m.txn.HGetInt64(dbKeyByID(1), didSequenceKeyByID(2)); err != kv.ErrKeyNotFound { t.Fatal("sequence left", err) }
	if v, err := m.txn.HGetInt64(dbKeyByID(1), didSequenceKeyByID(3)); err != nil || v != 1000 { t.Fatal("other sequence", v, err) }
}
'''
