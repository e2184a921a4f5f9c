fake = open("/verif/tools/seeds/fake.go.txt").read()
fakedb = open("/verif/tools/seeds/fakedb.go.txt").read()
id, prop, pkg = "S1703", "C17", "document/domain"
needs = "a reload over several diffs of which a later one cannot be applied"
breaks = "diffs are applied to the published cache itself: a failed reload leaves it half-way, and transactions that began with it see it change and meet no conflict"
edits = [("document/domain/domain.go", "newMetaCache := metaCache.Clone()\n", "newMetaCache := metaCache\n")]
test = 'package domain\nimport ("errors"; "sort"; "strings"; "testing"; "github.com/zhiqiangxu/mondis"; "github.com/zhiqiangxu/mondis/kv"; "context"; "github.com/zhiqiangxu/mondis/document/meta"; "github.com/zhiqiangxu/mondis/document/model"; "github.com/zhiqiangxu/mondis/document/schema")\nvar _ = errors.New\nvar _ = sort.Strings\nvar _ = strings.HasPrefix\nvar _ = kv.ErrKeyNotFound\n' + fake + fakedb + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	w := func(f func(m *meta.Meta) error) {
		tx := db.NewTransaction(true)
		if err := f(meta.NewMeta(tx)); err != nil { t.Fatal(err) }
		if err := tx.Commit(); err != nil { t.Fatal(err) }
	}
	diff := func(v int64, n string, tp model.ActionType) *model.SchemaDiff {
		return &model.SchemaDiff{Version: v, Type: tp, Arg: &model.DBInfo{ID: v, Name: n}, CollectionIDs: []int64{100 + v}}
	}
	do := NewDomain(db)
	do.handle.Update(context.Background(), schema.NewMetaCache(1, nil))
	start := do.handle.Get()
	w(func(m *meta.Meta) (err error) {
		for i := 0; i < 2; i++ {
			if _, err = m.GenSchemaVersion(); err != nil { return }
		}
		return m.SetSchemaDiff(diff(2, "a", model.ActionCreateSchema))
	})
	if err := do.reload(); err != nil { t.Fatal(err) }
	if start.Version() != 1 || start.CheckDBExists("a") { t.Fatal("a published cache was modified") }
	ok, err := do.handle.Check(context.Background(), start, map[int64]struct{}{102: {}})
	if err != nil || ok { t.Fatal("conflict missed") }
	if do.handle.Get().Version() != 2 || !do.handle.Get().CheckDBExists("a") { t.Fatal("not reloaded") }
}
'''
