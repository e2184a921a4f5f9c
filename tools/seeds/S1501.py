fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1501", "C15", "document/ddl"
needs = 'a schema created with a unique index'
breaks = 'a unique index of a created schema is stored in the state absent, so nothing maintains it'
edits = [('document/ddl/ddl_worker.go', '\t\t\tindex.State = osc.StatePublic\n', '\t\t\tif !index.Unique {\n\t\t\t\tindex.State = osc.StatePublic\n\t\t\t}\n')]
head = 'package ddl\nimport ("encoding/json"; "errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/meta"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/util/osc")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = json.Marshal\nvar _ = osc.StatePublic\nvar _ = meta.NewMeta\n' + fake + fakedb
test = head + '''

func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	tx := db.NewTransaction(true)
	m := meta.NewMeta(tx)
	info := &model.DBInfo{ID: 1, Name: "d", Collections: map[string]*model.CollectionInfo{"c": {ID: 2, Name: "c", Indices: map[string]*model.IndexInfo{"i": {ID: 3, Name: "i"}, "u": {ID: 4, Name: "u", Unique: true}}}}}
	raw, err := json.Marshal(info)
	if err != nil { t.Fatal(err) }
	job := &model.Job{ID: 9, Type: model.ActionCreateSchema, RawArg: raw}
	w := &worker{d: &DDL{kvdb: db}}
	if _, _, _, err = w.runJob(m, job); err != nil { t.Fatal(err) }
	dbs, err := m.ListDatabases()
	if err != nil || len(dbs) != 1 { t.Fatal(err, len(dbs)) }
	for n, i := range dbs[0].Collections["c"].Indices {
		if i.State != osc.StatePublic { t.Fatal("index not public", n) }
	}
}
'''
