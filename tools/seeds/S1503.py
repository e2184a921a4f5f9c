fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1503", "C15", "document/ddl"
needs = 'two databases whose names are not in the order of their ids, and a job that reuses the name of the second'
breaks = 'a schema is created under a name that is in use already'
edits = [('document/ddl/util.go', '\t\tif dbi.Name == dbName {\n\t\t\tdbInfo = dbi\n\t\t\treturn\n\t\t}\n', '\t\tif dbi.Name >= dbName {\n\t\t\tif dbi.Name == dbName {\n\t\t\t\tdbInfo = dbi\n\t\t\t}\n\t\t\treturn\n\t\t}\n')]
head = 'package ddl\nimport ("encoding/json"; "errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/meta"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/util/osc")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = json.Marshal\nvar _ = osc.StatePublic\nvar _ = meta.NewMeta\n' + fake + fakedb
test = head + '''

func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	m := meta.NewMeta(db.NewTransaction(true))
	for i, n := range []string{"x", "a"} {
		if err := m.CreateDatabase(&model.DBInfo{ID: int64(i + 1), Name: n}); err != nil { t.Fatal(err) }
	}
	for _, n := range []string{"x", "a"} {
		raw, _ := json.Marshal(&model.DBInfo{ID: 7, Name: n})
		w := &worker{d: &DDL{kvdb: db}}
		if _, _, _, err := w.runJob(m, &model.Job{ID: 9, Type: model.ActionCreateSchema, RawArg: raw}); err == nil { t.Fatal("name in use accepted", n) }
	}
}
'''
