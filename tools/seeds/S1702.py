id, prop, pkg = "S1702", "C17", "document/schema"
needs = "a list of three diffs whose last version leaves a gap"
breaks = "a gap before the last diff of a list is not noticed: the cache takes over a version whose predecessor it does not know"
edits = [("document/schema/metacache.go", "for i := 0; i < len(diffs)-1; i++ {", "for i := 0; i+2 < len(diffs); i++ {")]
test = '''package schema
import ("encoding/json"; "testing"; "github.com/zhiqiangxu/mondis/document/model")
func TestZZDemo(t *testing.T) {
	mk := func(v int64, n string) *model.SchemaDiff {
		b, _ := json.Marshal(&model.DBInfo{ID: v, Name: n})
		return &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, RawArg: b}
	}
	c := NewMetaCache(4, nil)
	if err := c.ApplyDiffs([]*model.SchemaDiff{mk(5, "a"), mk(6, "b"), mk(8, "c")}); err == nil { t.Fatal("gap accepted") }
	c = NewMetaCache(4, nil)
	if err := c.ApplyDiffs([]*model.SchemaDiff{mk(5, "a"), mk(6, "b"), mk(7, "c")}); err != nil || c.Version() != 7 { t.Fatal("sequence refused") }
}
'''
