package schema

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/zhiqiangxu/mondis/document/model"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// ZZMC is a schema cache: version is the version of the last of the diffs it knows, the first is diffStartVersion.
func ZZMC(start int64, diffs [][]int64, dbs map[string]*model.DBInfo) *MetaCache {
	gvc.Requires(start >= 1 && start < 1<<60 && len(diffs) <= maxDiffs)
	return &MetaCache{version: start + int64(len(diffs)) - 1, schemaDiffs: diffs, diffStartVersion: start, dbs: dbs}
}

// ZZInv: the version is that of the last diff known.
func ZZInv(c *MetaCache) bool {
	return c.diffStartVersion >= 1 && len(c.schemaDiffs) <= maxDiffs && c.version == c.diffStartVersion+int64(len(c.schemaDiffs))-1
}

// ZZApplyLoops are the loop invariants of applying diffs to a copy of old.
func ZZApplyLoops(old *MetaCache) {
	if old == nil {
		return
	}
	v0, n, start := old.version, len(old.schemaDiffs), old.diffStartVersion
	gvc.Loop(func(rangeindex int, c *MetaCache) bool {
		return len(c.schemaDiffs) == n+rangeindex+1 && c.diffStartVersion == start
	})
	gvc.Loop(func(diffs []*model.SchemaDiff) bool {
		return gvc.Forall(0, len(diffs), func(k int) bool { return diffs[k].Version == v0+1+int64(k) })
	})
	gvc.Loop(func(rangeindex int, c *MetaCache) bool { return c.version == v0+int64(rangeindex)+1 })
	gvc.Loop(func(i int, diffs []*model.SchemaDiff) bool {
		return len(diffs) == 0 || diffs[0].Version != v0+1 || gvc.Forall(0, len(diffs), func(k int) bool { return k > i || diffs[k].Version == v0+1+int64(k) })
	})
}

func zzHandle(cur *MetaCache) *Handle {
	h := NewHandle()
	gvc.Ensures("a new handle has no cache", h.Get() == nil)
	if cur != nil {
		err := h.Update(context.Background(), cur)
		gvc.Requires(err == nil)
		gvc.Ensures("the cache is the one set last", h.Get() == cur)
	}
	return h
}

// A check passes only if no later diff touches a collection referred to.
//gvc:shape shapeCheck
//gvc:prove C17
func zzCheckSound(start, since int64, diffs [][]int64, refs map[int64]struct{}, i, j int) {
	gvc.Requires(0 <= i && i < len(diffs) && 0 <= j && j < len(diffs[i]) && since >= 0)
	cur := ZZMC(start, diffs, nil)
	gvc.Requires(since <= cur.version)
	h := zzHandle(cur)
	_, hit := refs[diffs[i][j]]
	at := start + int64(i)
	gvc.Loop(func(i int64) bool { return i > since && i <= cur.version+1 })
	gvc.Loop(func(i int64) bool { return !hit || at <= since || at >= i })
	gvc.Loop(func(i int64, rangeindex int) bool { return !hit || at != i || j > rangeindex })
	ok, err := h.Check(context.Background(), &MetaCache{version: since, diffStartVersion: since + 1}, refs)
	gvc.Ensures("no check passes that failed", err == nil || !ok)
	gvc.Ensures("no check passes when the diffs since are not all known", !ok || since >= start-1)
	gvc.Ensures("no check passes when a later diff touches a collection referred to", !ok || !hit || at <= since)
}

// A check passes if all later diffs are known and none touches a collection referred to.
//gvc:prove C17
func zzCheckPrecise(start, since int64, diffs [][]int64, refs map[int64]struct{}) {
	cur := ZZMC(start, diffs, nil)
	gvc.Requires(start-1 <= since && since <= cur.version)
	gvc.Requires(gvc.Forall(0, len(diffs), func(i int) bool {
		return start+int64(i) <= since || gvc.Forall(0, len(diffs[i]), func(j int) bool { _, hit := refs[diffs[i][j]]; return !hit })
	}))
	h := zzHandle(cur)
	gvc.Loop(func(i int64) bool { return i > since && i <= cur.version+1 })
	ok, err := h.Check(context.Background(), &MetaCache{version: since, diffStartVersion: since + 1}, refs)
	gvc.Ensures("a check passes when no later diff touches a collection referred to", ok && err == nil)
}

// Without a change of the cache a check passes; a transaction that began without a cache conflicts with any cache.
//gvc:prove C17
func zzCheckSame(start int64, diffs [][]int64, refs map[int64]struct{}, none, other bool) {
	cur := ZZMC(start, diffs, nil)
	if none {
		cur = nil
	}
	h := zzHandle(cur)
	begun := h.Get()
	if other {
		begun = nil
	}
	ok, err := h.Check(context.Background(), begun, refs)
	gvc.Ensures("a check passes exactly if the cache is still the same, or absent all the time", err == nil && ok == (none || !other))
}

// Applying diffs.
//gvc:shape shapeApply
//gvc:prove C17
func zzApply(start int64, diffs [][]int64, dbs map[string]*model.DBInfo, more []*model.SchemaDiff, i, j int, name string) {
	gvc.NonNil(dbs)
	gvc.NonNil(more)
	gvc.Requires(dbs != nil && len(more) <= 1<<20)
	gvc.Requires(0 <= i && i < len(diffs)+len(more) && j >= 0)
	c := ZZMC(start, diffs, dbs)
	v0 := c.version
	n := len(diffs)
	old, had := dbs[name]
	gvc.Loop(func(rangeindex int) bool {
		return len(c.schemaDiffs) == n+rangeindex+1 && c.diffStartVersion == start
	})
	gvc.Loop(func() bool {
		return gvc.Forall(0, len(more), func(k int) bool { return more[k].Version == v0+1+int64(k) })
	})
	gvc.Loop(func(rangeindex int) bool { return c.version == v0+int64(rangeindex)+1 })
	gvc.Loop(func(i int) bool {
		return len(more) == 0 || more[0].Version != v0+1 || gvc.Forall(0, len(more), func(k int) bool { return k > i || more[k].Version == v0+1+int64(k) })
	})
	gvc.Loop(func(rangeindex int) bool {
		if i < n {
			d := c.schemaDiffs[i]
			return len(d) == len(diffs[i]) && (j >= len(d) || d[j] == diffs[i][j])
		}
		if i > n+rangeindex {
			return true
		}
		d, e := c.schemaDiffs[i], more[i-n].CollectionIDs
		return len(d) == len(e) && (j >= len(d) || d[j] == e[j])
	})
	gvc.Loop(func() bool {
		now, has := c.dbs[name]
		return !had || has && now != nil && now.ID == old.ID
	})
	err := c.ApplyDiffs(more)
	if err != nil {
		return
	}
	gvc.Ensures("the version is that of the last diff", ZZInv(c) && c.version == v0+int64(len(more)))
	gvc.Ensures("diffs in sequence only", len(more) == 0 || more[0].Version == v0+1)
	kept := start+int64(i) >= c.diffStartVersion
	gvc.Ensures("no recent diff is forgotten", kept || i < n+len(more)-maxDiffs)
	if kept {
		d := c.schemaDiffs[start+int64(i)-c.diffStartVersion]
		if i < n {
			gvc.Ensures("old diffs are kept", len(d) == len(diffs[i]) && (j >= len(d) || d[j] == diffs[i][j]))
		} else {
			e := more[i-n].CollectionIDs
			gvc.Ensures("new diffs are added in order", len(d) == len(e) && (j >= len(d) || d[j] == e[j]))
		}
	}
	now, has := c.dbs[name]
	gvc.Ensures("databases are kept", !had || has && now.ID == old.ID)
}

// A clone is equal and stays apart from what it was cloned from.
//gvc:prove C17
func zzClone(start int64, diffs [][]int64, dbs map[string]*model.DBInfo, name, cn, in string, m, j int, none bool) {
	gvc.NonNil(dbs)
	gvc.Requires(0 <= m && 0 <= j)
	c := ZZMC(start, diffs, dbs)
	if none {
		c = nil
	}
	gvc.Loop(func(clone MetaCache) bool {
		x, ok := dbs[name]
		y, ok2 := clone.dbs[name]
		return ok2 == gvc.Visited(name) && (!ok || !ok2 || y != nil && model.ZZSameDB(x, y, cn, in, j))
	})
	gvc.Loop(func(clone MetaCache) bool { return len(clone.schemaDiffs) == len(diffs) })
	gvc.Loop(func(i int, clone MetaCache) bool {
		if m >= i {
			return true
		}
		d, e := clone.schemaDiffs[m], diffs[m]
		return len(d) == len(e) && (j >= len(d) || d[j] == e[j])
	})
	n := c.Clone()
	gvc.Ensures("the clone is well formed", n != nil && ZZInv(n) && n.dbs != nil)
	if none {
		_, ok := n.dbs[name]
		gvc.Ensures("the clone of no cache is the empty cache", n.version == 0 && len(n.schemaDiffs) == 0 && !ok)
		return
	}
	gvc.Ensures("the clone is of the same version", n.version == c.version && n.diffStartVersion == start && len(n.schemaDiffs) == len(diffs))
	if m < len(diffs) {
		d, e := n.schemaDiffs[m], diffs[m]
		gvc.Ensures("the clone has the same diffs", len(d) == len(e) && (j >= len(d) || d[j] == e[j]))
	}
	x, ok := dbs[name]
	y, ok2 := n.dbs[name]
	gvc.Ensures("the clone has the same databases", ok == ok2 && (!ok || y != nil && model.ZZSameDB(x, y, cn, in, j)))
	n.dbs["zz"] = &model.DBInfo{ID: 7}
	delete(n.dbs, name)
	if m < len(diffs) {
		n.schemaDiffs[m] = nil
	}
	x2, ok3 := c.dbs[name]
	gvc.Ensures("changes of the clone do not show in the original", ok == ok3 && (!ok || x2 != nil && model.ZZSameDB(x, x2, cn, in, j)))
	gvc.Ensures("changes of the diffs of the clone do not show in the original", m >= len(diffs) || len(c.schemaDiffs[m]) == len(diffs[m]))
}

// A new cache has the databases given, by name.
//gvc:prove C17
func zzNewCache(version int64, infos []*model.DBInfo, name string, i int) {
	gvc.NonNil(infos)
	gvc.Requires(version >= 0 && version < 1<<60 && 0 <= i && i < len(infos))
	gvc.Loop(func(rangeindex int, c *MetaCache) bool {
		return c.dbs != nil && (i > rangeindex || c.dbs[infos[i].Name] != nil)
	})
	gvc.Loop(func(rangeindex int, c *MetaCache) bool {
		x, ok := c.dbs[name]
		return !ok || x != nil && x.Name == name
	})
	c := NewMetaCache(version, infos)
	gvc.Ensures("a new cache is well formed", ZZInv(c) && c.version == version && c.dbs != nil)
	gvc.Ensures("every database is in the cache", c.CheckDBExists(infos[i].Name))
	x, ok := c.dbs[name]
	gvc.Ensures("databases are found by their name", !ok || x.Name == name)
}

// Lookups find what is in the cache.
//gvc:prove C17
func zzLookup(start int64, diffs [][]int64, dbs map[string]*model.DBInfo, name, cn, in string, none bool) {
	gvc.NonNil(dbs)
	c := ZZMC(start, diffs, dbs)
	if none {
		c = nil
	}
	var ci *model.CollectionInfo
	hasC, hasI := false, false
	db, hasDB := dbs[name]
	if hasDB {
		ci, hasC = db.Collections[cn]
		if hasC {
			_, hasI = ci.Indices[in]
		}
	}
	gvc.Ensures("a database exists exactly if the cache has it", c.CheckDBExists(name) == (!none && hasDB))
	gvc.Ensures("a collection exists exactly if the cache has it", c.CheckCollectionExists(name, cn) == (!none && hasDB && hasC))
	gvc.Ensures("an index exists exactly if the cache has it", c.CheckIndexExists(name, cn, in) == (!none && hasDB && hasC && hasI))
	got := c.CollectionInfo(name, cn)
	gvc.Ensures("a collection is found exactly if the cache has it", (got != nil) == (!none && hasDB && hasC))
	gvc.Ensures("the collection found is the one asked for", got == nil || model.ZZSameCollection(got, ci, in, 0))
}

// ZZShapeDiffs makes up a sequence of diffs.
func ZZShapeDiffs(r *rand.Rand, from int64, n int) (out []*model.SchemaDiff) {
	for k := 0; k < n; k++ {
		b, _ := json.Marshal(&model.DBInfo{ID: from + int64(k), Name: fmt.Sprint("db", from+int64(k))})
		d := &model.SchemaDiff{Version: from + int64(k), Type: model.ActionCreateSchema, RawArg: b}
		for j := r.Intn(3); j > 0; j-- {
			d.CollectionIDs = append(d.CollectionIDs, int64(r.Intn(9)))
		}
		if r.Intn(12) == 0 {
			d.Version += int64(r.Intn(3)) - 1
		}
		if r.Intn(20) == 0 {
			d.Type = model.ActionDropSchema
		}
		if r.Intn(20) == 0 && k > 0 {
			d.RawArg = out[k-1].RawArg
		}
		out = append(out, d)
	}
	return
}

// ZZShapeIDs makes up a history of n versions.
func ZZShapeIDs(r *rand.Rand, n int) (out [][]int64) {
	for k := 0; k < n; k++ {
		var ids []int64
		for j := r.Intn(3); j > 0; j-- {
			ids = append(ids, int64(r.Intn(9)))
		}
		out = append(out, ids)
	}
	return
}

func shapeApply(r *rand.Rand, start *int64, diffs *[][]int64, dbs *map[string]*model.DBInfo, more *[]*model.SchemaDiff, i, j *int, name *string) {
	*start = 1 + int64(r.Intn(3))
	n := []int{r.Intn(4), maxDiffs - r.Intn(4)}[r.Intn(2)]
	*diffs = ZZShapeIDs(r, n)
	if *dbs == nil {
		*dbs = map[string]*model.DBInfo{}
	}
	if r.Intn(2) == 0 {
		(*dbs)[*name] = &model.DBInfo{ID: 3, Name: *name}
	}
	*more = ZZShapeDiffs(r, *start+int64(n), r.Intn(6))
	if t := n + len(*more); t > 0 {
		*i = r.Intn(t)
	}
	*j = r.Intn(2)
}

func shapeCheck(r *rand.Rand, start, since *int64, diffs *[][]int64, refs *map[int64]struct{}, i, j *int) {
	*start = 1 + int64(r.Intn(3))
	*diffs = ZZShapeIDs(r, 1+r.Intn(6))
	*since = int64(r.Intn(len(*diffs) + int(*start)))
	*i = r.Intn(len(*diffs))
	*j = r.Intn(2)
	*refs = map[int64]struct{}{}
	for k := r.Intn(3); k > 0; k-- {
		(*refs)[int64(r.Intn(9))] = struct{}{}
	}
	if *j < len((*diffs)[*i]) && r.Intn(2) == 0 {
		(*refs)[(*diffs)[*i][*j]] = struct{}{}
	}
}
