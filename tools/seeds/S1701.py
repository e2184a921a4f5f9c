id, prop, pkg = "S1701", "C17", "document/schema"
needs = "a cache of 99 known diffs to which three more are applied at once, then a transaction that began under the oldest known version and refers to a collection changed since"
breaks = "trimming several diffs at once advances the first known version by one only, so checks look at the wrong diffs"
edits = [("document/schema/metacache.go", "		c.diffStartVersion += int64(rmCount)\n", "		c.diffStartVersion++\n")]
test = '''package schema
import ("context"; "encoding/json"; "fmt"; "testing"; "github.com/zhiqiangxu/mondis/document/model")
func TestZZDemo(t *testing.T) {
	h := NewHandle()
	c := NewMetaCache(1, nil)
	mk := func(v int64, n string) *model.SchemaDiff {
		b, _ := json.Marshal(&model.DBInfo{ID: v, Name: n})
		return &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, CollectionIDs: []int64{1000 + v}, RawArg: b}
	}
	for v := int64(2); v <= 100; v++ {
		if err := c.ApplyDiffs([]*model.SchemaDiff{mk(v, fmt.Sprint("db", v))}); err != nil { t.Fatal(err) }
	}
	if err := h.Update(context.Background(), c); err != nil { t.Fatal(err) }
	start := h.Get()
	n := c.Clone()
	if err := n.ApplyDiffs([]*model.SchemaDiff{mk(101, "x"), mk(102, "y"), mk(103, "z")}); err != nil { t.Fatal(err) }
	h.Update(context.Background(), n)
	for _, id := range []int64{1101, 1102, 1103} {
		func() {
			defer func() { if recover() != nil { t.Fatal("check panics") } }()
			ok, err := h.Check(context.Background(), start, map[int64]struct{}{id: {}})
			if err != nil || ok { t.Fatal("conflict missed", id, ok, err) }
		}()
	}
	ok, err := h.Check(context.Background(), start, map[int64]struct{}{1100: {}})
	if err != nil || !ok { t.Fatal("conflict made up") }
}
'''
