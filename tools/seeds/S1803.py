fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1803", "C18", "document/txn"
needs = "two cancel functions and a store that fails to commit, then a second commit"
breaks = "the store's commit failure is kept apart from the conflict, so the cancel functions do not run when the store fails"
edits = [("document/txn/txn.go", "	err = txn.ProviderTxn.Commit()\n	return\n", "	commitErr := txn.ProviderTxn.Commit()\n	if commitErr != nil {\n		defer func() { err = commitErr }()\n	}\n	txn.cancelFuncs = nil\n	return\n")]
test = 'package txn\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/schema")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\n' + fake + fakedb + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}, failCommit: true}
	x := NewTxn(schema.NewHandle(), true, db)
	a, b := 0, 0
	x.AddCancelFunc(func() { a++ })
	x.AddCancelFunc(func() { b++ })
	if err := x.Set([]byte("k"), []byte("v"), nil); err != nil { t.Fatal(err) }
	if err := x.Commit(); err == nil { t.Fatal("failure not reported") }
	if a != 1 || b != 1 { t.Fatal("cancel functions", a, b) }
}
'''
