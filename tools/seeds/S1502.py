fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1502", "C15", "document/ddl"
needs = 'a job found rolled back at the head of the queue'
breaks = 'a job that was rolled back is recorded in the history as synced, so its client is told it was applied'
edits = [('document/ddl/ddl_worker.go', '\t\t\t\tif !job.IsRollbackDone() {\n\t\t\t\t\tjob.State = model.JobStateSynced\n\t\t\t\t}\n', '\t\t\t\tjob.State = model.JobStateSynced\n')]
head = 'package ddl\nimport ("encoding/json"; "errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/meta"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/util/osc")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = json.Marshal\nvar _ = osc.StatePublic\nvar _ = meta.NewMeta\n' + fake + fakedb
test = head + '''

func TestZZDemo(t *testing.T) {
	for st, want := range map[model.JobState]model.JobState{model.JobStateDone: model.JobStateSynced, model.JobStateRollbackDone: model.JobStateRollbackDone} {
		db := &fdb{m: map[string]string{}}
		tx := db.NewTransaction(true)
		if err := meta.NewMeta(tx).EnQueueDDLJob(&model.Job{ID: 9, Type: model.ActionCreateSchema, State: st, RawArg: []byte("{}")}); err != nil { t.Fatal(err) }
		if err := tx.Commit(); err != nil { t.Fatal(err) }
		w := &worker{d: &DDL{kvdb: db}}
		if err := w.handleJobQueue(); err != nil { t.Fatal(err) }
		got, err := meta.NewMeta(db.NewTransaction(false)).GetHistoryDDLJob(9)
		if err != nil || got == nil || got.State != want { t.Fatal("history", got, err) }
	}
}
'''
