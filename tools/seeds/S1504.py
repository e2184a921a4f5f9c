fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1504", "C15", "document/ddl"
needs = 'the first step of the job that adds an index to a collection whose id is not 0'
breaks = 'the change that adds an index does not name the collection, so a concurrent transaction on it is not told of the conflict'
edits = [('document/ddl/ddl_worker.go', '\t\tindexInfo.JobRedundant.CID = ci.ID\n\t\tclone', '\t\tclone'), ('document/ddl/ddl_worker.go', '\t\tjob.SchemaState = osc.StateDeleteOnly\n', '\t\tindexInfo.JobRedundant.CID = ci.ID\n\t\tjob.SchemaState = osc.StateDeleteOnly\n')]
head = 'package ddl\nimport ("context"; "encoding/json"; "errors"; "sort"; "strings"; "testing"; "time"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/meta"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/util/osc")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = json.Marshal\nvar _ = osc.StatePublic\nvar _ = meta.NewMeta\nvar _ = context.Background\nvar _ = time.Second\n' + fake + fakedb
test = head + '''

func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	m := meta.NewMeta(db.NewTransaction(true))
	c := &model.CollectionInfo{ID: 5, Name: "c"}
	if err := m.CreateDatabase(&model.DBInfo{ID: 1, Name: "d", Collections: map[string]*model.CollectionInfo{"c": c}}); err != nil { t.Fatal(err) }
	if err := m.CreateCollection(1, c); err != nil { t.Fatal(err) }
	raw, _ := json.Marshal(&model.IndexInfo{ID: 6, Name: "i", JobRedundant: &model.IndexInfoRedundant{DB: "d", Collection: "c"}})
	w := &worker{d: &DDL{kvdb: db}}
	v, _, _, err := w.runJob(m, &model.Job{ID: 9, Type: model.ActionAddIndex, RawArg: raw})
	if err != nil { t.Fatal(err) }
	diff, err := m.GetSchemaDiff(v)
	if err != nil || diff == nil || len(diff.CollectionIDs) != 1 || diff.CollectionIDs[0] != 5 { t.Fatal("diff", diff, err) }
}
'''
