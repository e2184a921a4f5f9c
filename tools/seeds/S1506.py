fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1506", "C15", "document/ddl"
needs = 'an id taken after a request for an index'
breaks = 'the job of a request for an index takes an id that is handed out again, to a later job or schema element'
edits = [('document/ddl/ddl_api.go', 'm.GenGlobalIDs(2)', 'm.GenGlobalIDs(1)')]
head = 'package ddl\nimport ("context"; "encoding/json"; "errors"; "sort"; "strings"; "testing"; "time"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/meta"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/util/osc")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = json.Marshal\nvar _ = osc.StatePublic\nvar _ = meta.NewMeta\nvar _ = context.Background\nvar _ = time.Second\n' + fake + fakedb
test = head + '''

func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	tx := db.NewTransaction(true)
	m := meta.NewMeta(tx)
	c := &model.CollectionInfo{ID: 5, Name: "c"}
	if err := m.CreateDatabase(&model.DBInfo{ID: 1, Name: "d", Collections: map[string]*model.CollectionInfo{"c": c}}); err != nil { t.Fatal(err) }
	if _, _, err := m.GenGlobalIDs(10); err != nil { t.Fatal(err) }
	if err := tx.Commit(); err != nil { t.Fatal(err) }
	d := New(db, Options{})
	d.workers[defaultWorkerType] = newWorker(defaultWorkerType, d)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	job, err := d.AddIndex(ctx, AddIndexInput{DB: "d", Collection: "c", IndexInfo: IndexInfo{Name: "i", Columns: []string{"x"}}})
	if job == nil { t.Fatal(err) }
	_, last, err := meta.NewMeta(db.NewTransaction(true)).GenGlobalIDs(1)
	if err != nil || last <= job.ID { t.Fatal("id handed out twice", last, job.ID, err) }
}
'''
