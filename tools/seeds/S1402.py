fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1402", "C14", "document/meta"
needs = "job ids above 2^32"
breaks = "the history of a job replaces that of another whose id agrees in its low 32 bits"
edits = [("document/meta/meta.go", "func (m *Meta) historyJobIDKey(id int64) []byte {\n\treturn numeric.Encode2Binary(uint64(id), nil)", "func (m *Meta) historyJobIDKey(id int64) []byte {\n\treturn numeric.Encode2Binary(uint64(uint32(id)), nil)")]
head = 'package meta\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "github.com/zhiqiangxu/mondis/document/model")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\nvar _ = model.ActionNone\n' + fake + fakedb
test = head + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	tx := db.NewTransaction(true)
	m := NewMeta(tx)
	must := func(err error) { if err != nil { t.Fatal(err) } }
	must(m.AddHistoryDDLJob(&model.Job{ID: 5, State: model.JobStateSynced}))
	must(m.AddHistoryDDLJob(&model.Job{ID: 5 + 1<<32, State: model.JobStateCancelled}))
	j, err := m.GetHistoryDDLJob(5)
	if err != nil || j == nil || j.ID != 5 || j.State != model.JobStateSynced { t.Fatal(j, err) }
}
'''
