package domain

import (
	"context"
	"math/rand"

	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	"github.com/zhiqiangxu/mondis/structure"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	zzkvm "github.com/zhiqiangxu/mondis/zzkvm"
)

// Reloading publishes a cache of exactly the version stored, or leaves the cache as it is.
//gvc:shape shapeReload
//gvc:prove C17
func zzReload(m gvc.Map, has, stored bool, v, start int64, diffs [][]int64, dbs map[string]*model.DBInfo) {
	gvc.NonNil(dbs)
	gvc.Requires(v >= 0 && v < 1<<60)
	vk := structure.ZZSK(keyspace.MetaPrefix, "schemaVersion")
	if stored {
		m = m.Put(vk, string(numeric.Encode2Human(v)))
	} else {
		m = m.Del(vk)
		v = 0
	}
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	do := NewDomain(db)
	var old *schema.MetaCache
	v0 := int64(0)
	if has {
		old = schema.ZZMC(start, diffs, dbs)
		err := do.handle.Update(context.Background(), old)
		gvc.Requires(err == nil)
		v0 = old.Version()
		gvc.Requires(v0 <= v)
	}
	gvc.Loop(func(schemaVersionCache, schemaVersionInKV int64, diffs []*model.SchemaDiff) bool {
		return schemaVersionCache <= schemaVersionInKV && len(diffs) <= 100
	})
	gvc.Loop(func(schemaVersionCache int64, diffs []*model.SchemaDiff) bool {
		return int64(len(diffs)) == schemaVersionCache - old.Version()
	})
	gvc.Loop(func(dbs []*model.DBInfo) bool {
		return gvc.Forall(0, len(dbs), func(i int) bool { return dbs[i] != nil })
	})
	gvc.Loop(func(diffs []*model.SchemaDiff) bool {
		return gvc.Forall(0, len(diffs), func(i int) bool { return diffs[i] != nil })
	})
	schema.ZZApplyLoops(old)
	err := do.reload()
	now := do.handle.Get()
	gvc.Ensures("a published cache is not modified", !has || old.Version() == v0 && schema.ZZInv(old))
	gvc.Ensures("the transaction is ended", db.Opened == 1 && db.Ended == 1 && db.Commits == 0)
	if err != nil {
		gvc.Ensures("a failed reload leaves the cache as it is", now == old)
		return
	}
	gvc.Ensures("the cache has the version stored", now == nil && v == 0 || now != nil && now.Version() == v)
	gvc.Ensures("the cache is well formed", now == nil || schema.ZZInv(now))
	gvc.Ensures("an up to date cache is kept", !has || old.Version() != v || now == old)
}

func shapeReload(r *rand.Rand, m *gvc.Map, has, stored *bool, v, start *int64, diffs *[][]int64, dbs *map[string]*model.DBInfo) {
	t := zzkvm.NewTxn(gvc.Map{}, kv.ErrKeyNotFound)
	t.NoFault = true
	mt := meta.NewMeta(t)
	*start = 1 + int64(r.Intn(3))
	*diffs = schema.ZZShapeIDs(r, r.Intn(5))
	*dbs = map[string]*model.DBInfo{"a": {ID: 1, Name: "a"}}
	*stored = true
	from := *start + int64(len(*diffs))
	n := r.Intn(4)
	for _, d := range schema.ZZShapeDiffs(r, from, n) {
		mt.SetSchemaDiff(d)
	}
	for k := r.Intn(3); k > 0; k-- {
		mt.CreateDatabase(&model.DBInfo{ID: int64(r.Intn(5)), Name: "b"})
	}
	*v = from + int64(n) - 1
	*m = t.M
}
