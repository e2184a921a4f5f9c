fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1505", "C15", "document/ddl"
needs = 'a job that was rolled back and recorded without an error'
breaks = 'the request for a schema change that was rolled back reports success'
edits = [('document/ddl/ddl_worker.go', '\t\tif historyJob.IsSynced() {\n', '\t\tif historyJob.IsSynced() || historyJob.IsRollbackDone() {\n')]
head = 'package ddl\nimport ("context"; "encoding/json"; "errors"; "sort"; "strings"; "testing"; "time"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/meta"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/util/osc")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = json.Marshal\nvar _ = osc.StatePublic\nvar _ = meta.NewMeta\nvar _ = context.Background\nvar _ = time.Second\n' + fake + fakedb
test = head + '''

func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	tx := db.NewTransaction(true)
	if err := meta.NewMeta(tx).AddHistoryDDLJob(&model.Job{ID: 9, Type: model.ActionCreateSchema, State: model.JobStateRollbackDone, RawArg: []byte("{}")}); err != nil { t.Fatal(err) }
	if err := tx.Commit(); err != nil { t.Fatal(err) }
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	if err := New(db, Options{}).checkJob(ctx, &model.Job{ID: 9, Type: model.ActionCreateSchema}); err == nil { t.Fatal("a rolled back job reported as applied") }
}
'''
