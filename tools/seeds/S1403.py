fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1403", "C14", "document/meta"
needs = "the store failing while the collections of a dropped database are cleared"
breaks = "a database is dropped although its collections could not be: they are found again by a database of the same id, and the failure is not reported"
edits = [("document/meta/meta.go", "	if err = m.txn.HClear(dbKey); err != nil {\n		return\n	}\n\n	if err = m.txn.HDel(dbsKey, dbKey); err != nil {\n		return\n	}\n\n	return\n", "	if err = m.txn.HDel(dbsKey, dbKey); err != nil {\n		return\n	}\n\n	// nothing refers to the collections any more\n	m.txn.HClear(dbKey)\n	return\n")]
head = 'package meta\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/model")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = model.ActionNone\n' + fake + fakedb
test = head + '''
type failTxn struct { mondis.ProviderTxn; left int }
func (f *failTxn) Delete(k []byte) error {
	if f.left--; f.left < 0 { return kv.ErrTxnTooBig }
	return f.ProviderTxn.Delete(k)
}
func TestZZDemo(t *testing.T) {
	for left := 0; left < 6; left++ {
		db := &fdb{m: map[string]string{}}
		tx := db.NewTransaction(true)
		m := NewMeta(tx)
		must := func(err error) { if err != nil { t.Fatal(err) } }
		must(m.CreateDatabase(&model.DBInfo{ID: 1, Name: "d"}))
		for c := int64(2); c < 5; c++ { must(m.CreateCollection(1, &model.CollectionInfo{ID: c, Name: "c"})) }
		err := NewMeta(&failTxn{tx, left}).DropDatabase(1)
		if err == nil {
			must(m.CreateDatabase(&model.DBInfo{ID: 1, Name: "d"}))
			cs, err := m.ListCollections(1)
			if err != nil || len(cs) != 0 { t.Fatal(left, cs, err) }
		}
	}
}
'''
