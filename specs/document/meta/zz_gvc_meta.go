package meta

import (
	"encoding/json"
	"errors"
	"strconv"
	"unicode/utf8"

	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	"github.com/zhiqiangxu/util/osc"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
)

// ---- the keys of the catalogue ----

const zzP = keyspace.MetaPrefix

// zzDec is a number in base 10, zzUndec reads it.
func zzDec(v int64) string { return strconv.FormatInt(v, 10) }

//gvc:opaque
func zzUndec(s string) int64 {
	v, _ := strconv.ParseInt(s, 10, 64)
	return v
}

//gvc:axiom strconv: numbers in base 10 are read back, and have 1 to 20 characters
func zzDecRound(v int64) {
	gvc.Trigger(zzDec(v))
	gvc.Ensures("number read back", zzUndec(zzDec(v)) == v)
	gvc.Ensures("length of a number", 1 <= len(zzDec(v)) && len(zzDec(v)) <= 20)
}

// zzDBF is the field of a database, zzCF that of a collection, zzSF that of its sequence, zzVF the name of a schema diff.
//gvc:opaque
func zzDBF(id int64) string { return "db:" + zzDec(id) }

//gvc:opaque
func zzCF(id int64) string { return "collectionInfo:" + zzDec(id) }

//gvc:opaque
func zzSF(id int64) string { return "didSequence:" + zzDec(id) }

//gvc:opaque
func zzVF(v int64) string { return "schemaDiff:" + zzDec(v) }

// zzNum is the number a name ends with, from n.
func zzNum(s string, n int) int64 { return zzUndec(gvc.Sub(s, n, len(s))) }

//gvc:lemma
//gvc:prove C14
//gvc:inline zzDBF
//gvc:uses zzDecRound
func zzInvDBF(id int64) {
	gvc.Trigger(zzDBF(id))
	gvc.Ensures("the name of a database names it", zzNum(zzDBF(id), 3) == id)
	gvc.Ensures("the name of a database is not that of the hash of the databases", zzDBF(id) != "dbs")
}

//gvc:lemma
//gvc:prove C14
//gvc:inline zzCF
//gvc:uses zzDecRound
func zzInvCF(id int64) {
	gvc.Trigger(zzCF(id))
	gvc.Ensures("the name of a collection names it", zzNum(zzCF(id), 15) == id)
	gvc.Ensures("the name of a collection is recognised", gvc.HasPrefix(zzCF(id), "collectionInfo"))
}

//gvc:lemma
//gvc:prove C14
//gvc:inline zzSF
//gvc:uses zzDecRound
func zzInvSF(id int64) {
	gvc.Trigger(zzSF(id))
	gvc.Ensures("the name of a sequence names it", zzNum(zzSF(id), 12) == id)
	gvc.Ensures("the name of a sequence is not that of a collection", !gvc.HasPrefix(zzSF(id), "collectionInfo"))
}

//gvc:lemma
//gvc:prove C14
//gvc:inline zzVF
//gvc:uses zzDecRound
func zzInvVF(v int64) {
	gvc.Trigger(zzVF(v))
	gvc.Ensures("the name of a schema diff names it", zzNum(zzVF(v), 11) == v)
	gvc.Ensures("the name of a schema diff is not that of a counter", zzVF(v) != "schemaVersion" && zzVF(v) != "globalID")
}

//gvc:spec dbKeyByID
func zzContractDB(id int64) []byte { return []byte(zzDBF(id)) }

//gvc:spec (*Meta).collectionInfoKeyByID
func zzContractC(m *Meta, id int64) []byte { return []byte(zzCF(id)) }

//gvc:spec didSequenceKeyByID
func zzContractS(id int64) []byte { return []byte(zzSF(id)) }

//gvc:spec (*Meta).schemaDiffKey
func zzContractV(m *Meta, v int64) []byte { return []byte(zzVF(v)) }

//gvc:prove C14
//gvc:proves dbKeyByID (*Meta).collectionInfoKeyByID didSequenceKeyByID (*Meta).schemaDiffKey
//gvc:inline zzDBF zzCF zzSF zzVF
func zzNames(id int64) {
	m := NewMeta(zzkvm.NewTxn(gvc.NewMap(), kv.ErrKeyNotFound))
	gvc.Ensures("name of a database", string(dbKeyByID(id)) == zzDBF(id))
	gvc.Ensures("name of a collection", string(m.collectionInfoKeyByID(id)) == zzCF(id))
	gvc.Ensures("name of a sequence", string(didSequenceKeyByID(id)) == zzSF(id))
	gvc.Ensures("name of a schema diff", string(m.schemaDiffKey(id)) == zzVF(id))
}

// ZZDBF is the name of the hash of a database.
func ZZDBF(id int64) string { return zzDBF(id) }

// ZZDB is the key of a database, ZZC that of a collection, ZZS that of the sequence of its documents, ZZV that of a schema diff.
func ZZDB(id int64) string { return structure.ZZHK(zzP, "dbs", zzDBF(id)) }

func ZZC(db, id int64) string { return structure.ZZHK(zzP, zzDBF(db), zzCF(id)) }

func ZZS(db, id int64) string { return structure.ZZHK(zzP, zzDBF(db), zzSF(id)) }

func ZZV(v int64) string { return structure.ZZSK(zzP, zzVF(v)) }

// zzMeta is a catalogue in a transaction.
func zzMeta(m gvc.Map) (t *zzkvm.Txn, mt *Meta) {
	t = zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	mt = NewMeta(t)
	return
}

// specDB puts a database into a content, with the meta data of the hash of the databases.
func specDB(m gvc.Map, there bool, info *model.DBInfo, id, n int64) gvc.Map {
	gvc.Requires(n >= 0 && n < 1<<62 && (!there || n > 0))
	if there {
		b, _ := json.Marshal(info)
		m = m.Put(ZZDB(id), string(b))
	} else {
		m = m.Del(ZZDB(id))
	}
	return structure.ZZHash(m, zzP, "dbs", n)
}

func specCollection(m gvc.Map, there bool, info *model.CollectionInfo, db, id, n int64) gvc.Map {
	gvc.Requires(n >= 0 && n < 1<<62 && (!there || n > 0))
	if there {
		b, _ := json.Marshal(info)
		m = m.Put(ZZC(db, id), string(b))
	} else {
		m = m.Del(ZZC(db, id))
	}
	return structure.ZZHash(m, zzP, zzDBF(db), n)
}

// specHas is a content with a key or without it.
func specHas(m gvc.Map, k string, there bool) gvc.Map {
	if gvc.Symbolic() {
		gvc.Requires(m.Has(k) == there)
		return m
	}
	if there {
		return m.Put(k, "{}")
	}
	return m.Del(k)
}

// zzAgree: two descriptions of a database agree, with the collection cn.
func zzAgreeDB(a, b *model.DBInfo, cn string) bool {
	return a.ID == b.ID && a.Name == b.Name && a.State == b.State && len(a.CollectionOrder) == len(b.CollectionOrder) &&
		(a.Collections[cn] == nil) == (b.Collections[cn] == nil) && (a.Collections[cn] == nil || zzAgreeC(a.Collections[cn], b.Collections[cn]))
}

// zzText: encoding/json replaces what is not UTF-8.
func zzText(s string) bool { return gvc.Symbolic() || utf8.ValidString(s) }

func zzSameDB(a, b *model.DBInfo) bool {
	return a.ID == b.ID && a.Name == b.Name && a.State == b.State && len(a.CollectionOrder) == len(b.CollectionOrder)
}

func zzAgreeC(a, b *model.CollectionInfo) bool {
	return a.ID == b.ID && a.Name == b.Name && a.State == b.State && len(a.IndexOrder) == len(b.IndexOrder)
}

//gvc:prove C14
//gvc:uses zzInvDBF zzInvCF zzInvSF structure.zzInvHM structure.zzInvHK
func zzPutDatabase(m gvc.Map, id, n int64, there, update bool, old, info *model.DBInfo, cn, other string) {
	gvc.Requires(old != nil && info != nil && info.ID == id && zzText(info.Name) && zzText(cn) && (gvc.Symbolic() || info.Collections[cn] == nil || zzText(info.Collections[cn].Name)))
	gvc.NonNil(info.Collections)
	gvc.NonNil(old.Collections)
	m = specDB(m, there, old, id, n)
	t, mt := zzMeta(m)
	var err error
	if update {
		err = mt.UpdateDatabase(info)
	} else {
		err = mt.CreateDatabase(info)
	}
	gvc.Ensures("only a missing database is reported missing", (err == ErrDBNotExists) == (update && !there && t.Faults == 0))
	gvc.Ensures("only an existing database is not created again", (err == ErrDBExists) == (!update && there && t.Faults == 0))
	gvc.Ensures("an operation fails exactly when the store fails", err == ErrDBNotExists || err == ErrDBExists || (err != nil) == (t.Faults > 0))
	if err == ErrDBNotExists || err == ErrDBExists {
		gvc.Ensures("a rejected operation changes nothing", gvc.Same(t.M, m))
	}
	if err != nil {
		return
	}
	w := t.M
	t.NoFault = true
	got, err := mt.GetDatabase(id)
	gvc.Ensures("a database stored is read back", err == nil && zzAgreeDB(got, info, cn))
	gvc.Ensures("nothing else changes", other == ZZDB(id) || other == structure.ZZHM(zzP, "dbs") || structure.ZZSame(w, m, other))
}

//gvc:prove C14
//gvc:uses zzInvDBF zzInvCF zzInvSF structure.zzInvHM structure.zzInvHK
func zzPutCollection(m gvc.Map, db, id, n int64, dbThere, there, update bool, old, info *model.CollectionInfo, other string) {
	gvc.Requires(old != nil && info != nil && info.ID == id && zzText(info.Name))
	m = specHas(m, ZZDB(db), dbThere)
	gvc.NonNil(info.Indices)
	gvc.NonNil(old.Indices)
	m = specCollection(m, there, old, db, id, n)
	t, mt := zzMeta(m)
	var err error
	if update {
		err = mt.UpdateCollection(db, info)
	} else {
		err = mt.CreateCollection(db, info)
	}
	quiet := t.Faults == 0
	gvc.Ensures("only a missing database is reported missing", (err == ErrDBNotExists) == (!dbThere && quiet))
	gvc.Ensures("only a missing collection is reported missing", (err == ErrCollectionNotExists) == (dbThere && update && !there && quiet))
	gvc.Ensures("only an existing collection is not created again", (err == ErrCollectionExists) == (dbThere && !update && there && quiet))
	refused := err == ErrDBNotExists || err == ErrCollectionNotExists || err == ErrCollectionExists
	gvc.Ensures("an operation fails exactly when the store fails", refused || (err != nil) == !quiet)
	if refused {
		gvc.Ensures("a rejected operation changes nothing", gvc.Same(t.M, m))
	}
	if err != nil {
		return
	}
	w := t.M
	t.NoFault = true
	got, err := mt.GetCollection(db, id)
	gvc.Ensures("a collection stored is read back", err == nil && zzAgreeC(got, info))
	gvc.Ensures("nothing else changes", other == ZZC(db, id) || other == structure.ZZHM(zzP, zzDBF(db)) || structure.ZZSame(w, m, other))
}

//gvc:prove C14
//gvc:uses zzInvDBF zzInvCF zzInvSF structure.zzInvHM structure.zzInvHK
func zzDropCollection(m gvc.Map, db, id, n int64, dbThere, there, seqThere, seq bool, other string) {
	gvc.Requires(n >= 0 && n < 1<<62 && n >= int64(gvc.Int(there))+int64(gvc.Int(seqThere)))
	k, q, h := ZZC(db, id), ZZS(db, id), structure.ZZHM(zzP, zzDBF(db))
	m = structure.ZZHash(m, zzP, zzDBF(db), n)
	m = specHas(specHas(specHas(m, ZZDB(db), dbThere), k, there), q, seqThere)
	t, mt := zzMeta(m)
	err := mt.DropCollection(db, id, seq)
	quiet := t.Faults == 0
	gvc.Ensures("only a missing database is reported missing", (err == ErrDBNotExists) == (!dbThere && quiet))
	gvc.Ensures("only a missing collection is reported missing", (err == ErrCollectionNotExists) == (dbThere && !there && quiet))
	refused := err == ErrDBNotExists || err == ErrCollectionNotExists
	gvc.Ensures("an operation fails exactly when the store fails", refused || (err != nil) == !quiet)
	if refused {
		gvc.Ensures("a rejected operation changes nothing", gvc.Same(t.M, m))
	}
	if err != nil {
		return
	}
	w := t.M
	gvc.Ensures("a collection dropped is gone", !w.Has(k))
	gvc.Ensures("the sequence goes with it if asked for", w.Has(q) == (seqThere && !seq))
	gvc.Ensures("nothing else changes", other == k || other == q || other == h || structure.ZZSame(w, m, other))
	gvc.Ensures("a sequence that stays keeps its value", seq || structure.ZZSame(w, m, q))
	t.NoFault = true
	_, err = mt.GetCollection(db, id)
	gvc.Ensures("a collection dropped is missing", err == ErrCollectionNotExists)
}

//gvc:prove C14
//gvc:uses zzInvDBF zzInvCF zzInvSF structure.zzInvHM structure.zzInvField structure.zzFieldPrefix structure.zzInvHK
func zzDropDatabase(m gvc.Map, id, cid, n, n2 int64, there bool, fs []string, other string) {
	gvc.Requires(n >= 0 && n < 1<<62 && n2 >= 0 && n2 < 1<<62 && (!there || n2 > 0))
	p, k := zzP, zzDBF(id)
	m = structure.ZZHash(m, p, k, n)
	if n > 0 {
		m = structure.ZZFields(m, p, k, fs)
	}
	m = structure.ZZHash(m, p, "dbs", n2)
	u := ZZC(id, cid)
	m = specHas(m, ZZDB(id), there)
	gvc.Requires(structure.ZZWF(m, p, k) && (n > 0 || !m.Has(u)))
	t, mt := zzMeta(m)
	gvc.Loop(func(i int) bool { return !t.M.Has(u) || m.Has(u) && gvc.ScanPos(u) >= i })
	gvc.Loop(func() bool { return structure.ZZOfHash(p, k, other) || structure.ZZSame(t.M, m, other) })
	gvc.Loop(func() bool { return structure.ZZSame(t.M, m, ZZDB(id)) && structure.ZZSame(t.M, m, structure.ZZHM(p, "dbs")) })
	gvc.Loop(func() bool { return t.Faults == 0 })
	err := mt.DropDatabase(id)
	quiet := t.Faults == 0
	gvc.Ensures("only a missing database is reported missing", (err == ErrDBNotExists) == (!there && quiet))
	gvc.Ensures("an operation fails exactly when the store fails", err == ErrDBNotExists || (err != nil) == !quiet)
	if err == ErrDBNotExists {
		gvc.Ensures("a rejected operation changes nothing", gvc.Same(t.M, m))
	}
	if err != nil {
		return
	}
	w := t.M
	gvc.Ensures("a database dropped is gone", !w.Has(ZZDB(id)))
	gvc.Ensures("its collections go with it", !w.Has(u))
	gvc.Ensures("nothing else changes", other == ZZDB(id) || other == structure.ZZHM(p, "dbs") || other == structure.ZZHM(p, k) || structure.ZZOfHash(p, k, other) || structure.ZZSame(w, m, other))
}

//gvc:prove C14
//gvc:uses zzInvVF structure.zzInvSK
func zzDiffs(m gvc.Map, v, v2 int64, tp model.ActionType, ids []int64, raw []byte, other string) {
	t, mt := zzMeta(m)
	n := len(ids)
	diff := &model.SchemaDiff{Version: v, Type: tp, CollectionIDs: ids, Arg: &model.IndexInfo{}, RawArg: raw}
	err := mt.SetSchemaDiff(diff)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err != nil {
		return
	}
	w := t.M
	gvc.Ensures("nothing else changes", other == ZZV(v) || structure.ZZSame(w, m, other))
	t.NoFault = true
	got, err := mt.GetSchemaDiff(v)
	gvc.Ensures("a schema diff stored is read back", err == nil && got.Version == v && got.Type == tp && len(got.CollectionIDs) == n)
	if !m.Has(ZZV(v2)) && v2 != v {
		got, err = mt.GetSchemaDiff(v2)
		gvc.Ensures("there is no schema diff that was not stored", err == nil && got == nil)
	}
}

// specDBs puts databases into a content (concrete executions only).
func specDBs(m gvc.Map, ids []int64) gvc.Map {
	if gvc.Symbolic() {
		return m
	}
	for _, id := range ids {
		b, _ := json.Marshal(&model.DBInfo{ID: id, Name: "d" + zzDec(id)})
		m = m.Put(ZZDB(id), string(b))
	}
	return m
}

func specCollections(m gvc.Map, db int64, ids []int64) gvc.Map {
	if gvc.Symbolic() {
		return m
	}
	for i, id := range ids {
		if i%3 == 2 {
			m = m.Put(ZZS(db, id), zzDec(id))
			continue
		}
		b, _ := json.Marshal(&model.CollectionInfo{ID: id, Name: "c" + zzDec(id)})
		m = m.Put(ZZC(db, id), string(b))
	}
	return m
}

//gvc:prove C14
//gvc:uses zzInvDBF structure.zzInvField structure.zzFieldPrefix structure.zzFieldOrder structure.zzInvHM structure.zzInvHK
func zzListDatabases(m gvc.Map, id int64, info *model.DBInfo, ids []int64) {
	gvc.Requires(info != nil && zzText(info.Name))
	gvc.NonNil(info.Collections)
	m = specDBs(m, ids)
	m = specDB(m, true, info, id, 1)
	gvc.Requires(structure.ZZWF(m, zzP, "dbs"))
	t, mt := zzMeta(m)
	u := ZZDB(id)
	gvc.Loop(func(ks []string, i int, res []structure.HashPair) bool {
		return len(res) == i && gvc.Forall(0, i, func(j int) bool {
			return string(res[j].Field) == structure.ZZField(zzP, ks[j]) && string(res[j].Value) == m.Get(ks[j])
		})
	})
	gvc.Loop(func(rangeindex int, dbs []*model.DBInfo) bool { return len(dbs) == rangeindex+1 })
	gvc.Loop(func(rangeindex int, dbs []*model.DBInfo) bool {
		return gvc.Forall(0, len(dbs), func(i int) bool { return dbs[i] != nil })
	})
	gvc.Loop(func(rangeindex int, dbs []*model.DBInfo) bool {
		return rangeindex < gvc.ScanPos(u) || zzSameDB(dbs[gvc.ScanPos(u)], info)
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	dbs, err := mt.ListDatabases()
	gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err != nil {
		return
	}
	j := gvc.ScanPos(u)
	gvc.Ensures("every database is listed", 0 <= j && j < len(dbs) && zzSameDB(dbs[j], info))
	gvc.Ensures("only databases are listed", len(dbs) == gvc.ScanLen())
}

//gvc:prove C14
//gvc:uses zzInvDBF zzInvCF zzInvSF structure.zzInvField structure.zzFieldPrefix structure.zzFieldOrder structure.zzInvHM structure.zzInvHK
func zzListCollections(m gvc.Map, db, id int64, dbThere bool, info *model.CollectionInfo, ids []int64) {
	gvc.Requires(info != nil && zzText(info.Name))
	gvc.NonNil(info.Indices)
	m = specCollections(m, db, ids)
	m = specCollection(m, true, info, db, id, 1)
	p, k := zzP, zzDBF(db)
	m = specHas(m, ZZDB(db), dbThere)
	gvc.Requires(structure.ZZWF(m, p, k))
	t, mt := zzMeta(m)
	u := ZZC(db, id)
	gvc.Loop(func(ks []string, i int, res []structure.HashPair) bool {
		return len(res) == i && gvc.Forall(0, i, func(j int) bool {
			return string(res[j].Field) == structure.ZZField(p, ks[j]) && string(res[j].Value) == m.Get(ks[j])
		})
	})
	gvc.Loop(func(rangeindex int, collections []*model.CollectionInfo) bool { return len(collections) <= rangeindex+1 })
	gvc.Loop(func(rangeindex int, collections []*model.CollectionInfo) bool {
		return gvc.Forall(0, len(collections), func(i int) bool { return collections[i] != nil })
	})
	gvc.Loop(func(rangeindex int, collections []*model.CollectionInfo) bool {
		return rangeindex < gvc.ScanPos(u) || gvc.Exists(0, len(collections), func(i int) bool { return zzAgreeC(collections[i], info) })
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	cs, err := mt.ListCollections(db)
	gvc.Ensures("only a missing database is reported missing", (err == ErrDBNotExists) == (!dbThere && t.Faults == 0))
	gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err != nil {
		return
	}
	gvc.Ensures("every collection is listed", gvc.Exists(0, len(cs), func(i int) bool { return zzAgreeC(cs[i], info) }))
	gvc.Ensures("collections are listed once", len(cs) <= gvc.ScanLen())
}

//gvc:prove C14
//gvc:uses structure.zzInvSK
func zzCounters(m gvc.Map, v int64, stored bool, which uint8, n int, other string) {
	gvc.Requires(which < 5 && 0 <= v && v < 1<<60 && 0 < n && n < 1<<30)
	name := "schemaVersion"
	if which >= 3 {
		name = "globalID"
	}
	k := structure.ZZSK(zzP, name)
	if stored {
		m = m.Put(k, zzDec(v))
	} else {
		m = m.Del(k)
		v = 0
	}
	t, mt := zzMeta(m)
	var got, first int64
	var err error
	switch which {
	case 0:
		got, err = mt.GetSchemaVersion()
		n = 0
	case 1:
		got, err = mt.GenSchemaVersion()
		n = 1
	case 2:
		got, err = mt.GetSchemaVersion()
		n = 0
	case 3:
		got, err = mt.GenGlobalID()
		n = 1
	default:
		first, got, err = mt.GenGlobalIDs(n)
		gvc.Ensures("ids are new", err != nil || first == v)
	}
	gvc.Ensures("an operation fails exactly when the store fails", (err != nil) == (t.Faults > 0))
	if err != nil {
		return
	}
	gvc.Ensures("the number is the one stored, or the next one", got == v+int64(n))
	gvc.Ensures("nothing else changes", other == k || structure.ZZSame(t.M, m, other))
	if n > 0 {
		gvc.Ensures("the number is remembered", t.M.Has(k) && t.M.Get(k) == zzDec(got))
	} else {
		gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	}
}

// ---- the queue of jobs, and their history ----

// zzJob is a job as it is stored; Arg is not.
func specJob(id int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, msg string) *model.Job {
	j := &model.Job{ID: id, Type: tp, State: st, SchemaState: ss, ErrorCount: cnt, RawArg: raw}
	if msg != "" {
		j.Error = errors.New(msg)
	}
	return j
}

func zzSameJ(a, b *model.Job) bool {
	return a.ID == b.ID && a.Type == b.Type && a.State == b.State && a.SchemaState == b.SchemaState && a.ErrorCount == b.ErrorCount
}

func zzAgreeJ(a, b *model.Job) bool { return zzSameJ(a, b) && (a.Error == nil) == (b.Error == nil) }

// ZZJ is the key of element i of a queue of jobs.
func ZZJ(k string, i int64) string { return structure.ZZLK(zzP, k, i) }

// specQueue puts the meta data of a queue of n jobs into a content.
func specQueue(m gvc.Map, k string, l, n int64) gvc.Map {
	gvc.Requires(l >= -1<<62 && l <= 1<<62 && n >= 0 && n <= 1<<40)
	if n == 0 {
		return m.Del(structure.ZZLM(zzP, k))
	}
	return m.Put(structure.ZZLM(zzP, k), gvc.BE64(uint64(l))+gvc.BE64(uint64(l+n)))
}

// zzQueueOf is a catalogue with the queue of jobs under a key, chosen when it was made or for the call.
func zzQueueOf(m gvc.Map, k string, given bool) (t *zzkvm.Txn, mt *Meta, ks []JobListKeyType) {
	t = zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	if given {
		mt = NewMeta(t)
		ks = []JobListKeyType{JobListKeyType(k)}
	} else {
		mt = NewMeta(t, JobListKeyType(k))
	}
	return
}

//gvc:prove C14
func zzQueueNames(m gvc.Map) {
	t := zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	gvc.Ensures("a catalogue has the queue of jobs by default", string(NewMeta(t).jobListKey) == "DDLJobList" && string(DefaultJobListKey) == "DDLJobList")
	gvc.Ensures("a catalogue can have the queue of index jobs", string(NewMeta(t, AddIndexJobListKey).jobListKey) == "DDLJobAddIdxList")
}

//gvc:prove C14
//gvc:uses structure.zzInvLM structure.zzInvLK
func zzEnQueue(m gvc.Map, k string, given bool, l, n, id int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, msg, other string) {
	gvc.Requires(len(raw) > 0)
	m = specQueue(m, k, l, n)
	t, mt, ks := zzQueueOf(m, k, given)
	job := specJob(id, tp, st, ss, cnt, raw, msg)
	err := mt.EnQueueDDLJob(job, ks...)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err != nil {
		return
	}
	w := t.M
	at := ZZJ(k, l+n)
	if n == 0 {
		at = ZZJ(k, 0)
	}
	gvc.Ensures("nothing else changes", other == structure.ZZLM(zzP, k) || other == at || structure.ZZSame(w, m, other))
	t.NoFault = true
	got, err := mt.GetDDLJobByIdx(n, ks...)
	gvc.Ensures("a job put into the queue is read back behind the others", err == nil && got != nil && zzAgreeJ(got, job))
	c, err := mt.DDLJobQueueLen(ks...)
	gvc.Ensures("the queue grows by one job", err == nil && c == n+1)
}

// specJobAt puts a job into a content, as element i of a queue.
func specJobAt(m gvc.Map, k string, i int64, job *model.Job) gvc.Map {
	b, err := job.Encode()
	gvc.Requires(err == nil)
	return m.Put(ZZJ(k, i), string(b))
}

//gvc:prove C14
//gvc:uses structure.zzInvLM structure.zzInvLK
func zzGetJob(m gvc.Map, k string, given bool, l, n, i, id int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, msg string) {
	gvc.Requires(len(raw) > 0 && (n == 0 || 0 <= i && i < n))
	job := specJob(id, tp, st, ss, cnt, raw, msg)
	m = specJobAt(m, k, l+i, job)
	m = specQueue(m, k, l, n)
	t, mt, ks := zzQueueOf(m, k, given)
	c, err := mt.DDLJobQueueLen(ks...)
	gvc.Ensures("the number of jobs is known unless the store fails", (err == nil) == (t.Faults == 0) && (err != nil || c == n))
	f := t.Faults
	got, err := mt.GetDDLJobByIdx(i, ks...)
	gvc.Ensures("an operation fails exactly when the store fails", (err == nil) == (t.Faults == f))
	gvc.Ensures("the job at a position is returned", err != nil || n == 0 && got == nil || n > 0 && got != nil && zzAgreeJ(got, job))
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
}

//gvc:prove C14
//gvc:uses structure.zzInvLM structure.zzInvLK
func zzUpdateJob(m gvc.Map, k string, given bool, l, n, i, id int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, msg, other string) {
	gvc.Requires(len(raw) > 0 && 0 <= i)
	m = specQueue(m, k, l, n)
	t, mt, ks := zzQueueOf(m, k, given)
	job := specJob(id, tp, st, ss, cnt, raw, msg)
	err := mt.UpdateDDLJob(i, job, ks...)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	gvc.Ensures("only a missing job is reported missing", err != ErrJobNotExists || t.Faults == 0 && i >= n)
	gvc.Ensures("a missing job is not updated", err != nil || i < n)
	gvc.Ensures("a failed operation changes nothing", err == nil || gvc.Same(t.M, m))
	if err != nil {
		return
	}
	w := t.M
	t.NoFault = true
	gvc.Ensures("nothing else changes", other == ZZJ(k, l+i) || structure.ZZSame(w, m, other))
	got, err := mt.GetDDLJobByIdx(i, ks...)
	gvc.Ensures("an updated job is read back", err == nil && got != nil && zzAgreeJ(got, job))
}

//gvc:prove C14
//gvc:uses structure.zzInvLM structure.zzInvLK
func zzDeQueue(m gvc.Map, k string, l, n, id int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, msg, other string) {
	gvc.Requires(len(raw) > 0)
	job := specJob(id, tp, st, ss, cnt, raw, msg)
	m = specJobAt(m, k, l, job)
	m = specQueue(m, k, l, n)
	t, mt, _ := zzQueueOf(m, k, false)
	got, err := mt.DeQueueDDLJob()
	gvc.Ensures("an operation fails exactly when the store fails", (err == nil) == (t.Faults == 0))
	if err != nil {
		return
	}
	w := t.M
	gvc.Ensures("there is no job in an empty queue", n > 0 || got == nil && gvc.Same(w, m))
	if n == 0 {
		return
	}
	gvc.Ensures("the first job is returned", got != nil && zzAgreeJ(got, job))
	gvc.Ensures("the job leaves the queue", !w.Has(ZZJ(k, l)))
	gvc.Ensures("nothing else changes", other == structure.ZZLM(zzP, k) || other == ZZJ(k, l) || structure.ZZSame(w, m, other))
	t.NoFault = true
	c, err := mt.DDLJobQueueLen()
	gvc.Ensures("the queue shrinks by one job", err == nil && c == n-1)
	if n > 1 {
		gvc.Ensures("the next job becomes the first", w.Get(structure.ZZLM(zzP, k)) == gvc.BE64(uint64(l+1))+gvc.BE64(uint64(l+n)))
	}
}

// ZZHistory is the key of a job in the history.
func ZZHistory(id int64) string {
	return structure.ZZHK(zzP, "DDLJobHistory", gvc.BE64(uint64(id)))
}

//gvc:prove C14
//gvc:uses structure.zzInvHM structure.zzInvHK
func zzHistory(m gvc.Map, n, id, id2 int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, msg, other string) {
	gvc.Requires(len(raw) > 0 && n >= 0 && n < 1<<62 && (n > 0 || !m.Has(ZZHistory(id))))
	if !gvc.Symbolic() {
		id2 = id ^ 1<<(uint64(id2)%64)
	}
	m = structure.ZZHash(m, zzP, "DDLJobHistory", n)
	t, mt, _ := zzQueueOf(m, "DDLJobList", false)
	job := specJob(id, tp, st, ss, cnt, raw, msg)
	err := mt.AddHistoryDDLJob(job)
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err != nil {
		return
	}
	w := t.M
	gvc.Ensures("nothing else changes", other == structure.ZZHM(zzP, "DDLJobHistory") || other == ZZHistory(id) || structure.ZZSame(w, m, other))
	t.NoFault = true
	got, err := mt.GetHistoryDDLJob(id)
	gvc.Ensures("a job put into the history is read back", err == nil && got != nil && zzAgreeJ(got, job))
	if id2 != id && !m.Has(ZZHistory(id2)) {
		got, err = mt.GetHistoryDDLJob(id2)
		gvc.Ensures("there is no history of other jobs", err == nil && got == nil)
	}
}

//gvc:prove C14
//gvc:uses structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzReorg(m gvc.Map, n, id, v0, v1, v2, e int64, which uint8, other string) {
	gvc.Requires(n >= 0 && n < 1<<62 && which < 3)
	h := "DDLJobReorg"
	ks, ke := structure.ZZHK(zzP, h, gvc.BE64(uint64(id))), structure.ZZHK(zzP, h, gvc.BE64(uint64(id))+"_end")
	m = structure.ZZHash(m, zzP, h, n)
	if which > 0 {
		m = m.Put(ks, zzDec(v0)).Put(ke, zzDec(e))
		gvc.Requires(n >= 2)
	}
	t, mt := zzMeta(m)
	job := &model.Job{ID: id}
	var err error
	switch which {
	case 0:
		err = mt.UpdateDDLReorgHandle(job, v1, v2, 0)
	case 1:
		err = mt.UpdateDDLReorgStartHandle(job, v1)
		v2 = e
	default:
		err = mt.RemoveDDLReorgHandle(job)
	}
	gvc.Ensures("a failed operation reports its error", err != nil || t.Faults == 0)
	if err != nil {
		return
	}
	w := t.M
	gvc.Ensures("nothing else changes", other == structure.ZZHM(zzP, h) || other == ks || other == ke || structure.ZZSame(w, m, other))
	if which == 2 {
		gvc.Ensures("the position removed is gone", !w.Has(ks) && !w.Has(ke))
		return
	}
	t.NoFault = true
	g1, g2, err := mt.GetDDLReorgHandle(job)
	gvc.Ensures("the position of a reorganisation is read back", err == nil && g1 == v1 && g2 == v2)
}

//gvc:prove C14
//gvc:uses structure.zzInvSK
func zzBootstrap(m gvc.Map, v int64, other string) {
	k := structure.ZZSK(zzP, "bootstrap")
	t, mt := zzMeta(m)
	t.NoFault = true
	if !m.Has(k) {
		got, err := mt.GetBootstrapVersion()
		gvc.Ensures("a store that is not bootstrapped has version 0", err == nil && got == 0)
	}
	t.NoFault = false
	err := mt.FinishBootstrap(v)
	gvc.Ensures("an operation fails exactly when the store fails", (err == nil) == (t.Faults == 0))
	gvc.Ensures("nothing else changes", other == k || structure.ZZSame(t.M, m, other))
	if err == nil {
		t.NoFault = true
		got, err := mt.GetBootstrapVersion()
		gvc.Ensures("the version that bootstrapped the store is read back", err == nil && got == v)
	}
}

// specJobs puts jobs into a queue (concrete executions only).
func specJobs(m gvc.Map, k string, l, n int64) gvc.Map {
	if gvc.Symbolic() {
		return m
	}
	gvc.Requires(n < 9)
	for i := int64(0); i < n; i++ {
		m = specJobAt(m, k, l+i, &model.Job{ID: 1000 + i})
	}
	return m
}

//gvc:prove C14
//gvc:uses structure.zzInvLM structure.zzInvLK
func zzListJobs(m gvc.Map, k string, given bool, l, n, i, id int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, msg string) {
	gvc.Requires(len(raw) > 0 && (n == 0 || 0 <= i && i < n))
	job := specJob(id, tp, st, ss, cnt, raw, msg)
	m = specJobs(m, k, l, n)
	m = specJobAt(m, k, l+i, job)
	m = specQueue(m, k, l, n)
	gvc.Requires(gvc.Forall(int(l), int(l+n), func(i int) bool { return m.Has(ZZJ(k, int64(i))) }))
	t, mt, ks := zzQueueOf(m, k, given)
	at := n - 1 - i
	gvc.Loop(func(index int64, elements [][]byte) bool {
		return l-1 <= index && index < l+n && int64(len(elements)) == l+n-1-index && (at >= int64(len(elements)) || string(elements[at]) == m.Get(ZZJ(k, l+i)))
	})
	gvc.Loop(func(rangeindex int, jobs []*model.Job) bool { return len(jobs) == rangeindex+1 })
	gvc.Loop(func(rangeindex int, jobs []*model.Job) bool {
		return gvc.Forall(0, len(jobs), func(i int) bool { return jobs[i] != nil })
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	jobs, err := mt.GetAllDDLJobsInQueue(ks...)
	gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err != nil {
		return
	}
	gvc.Ensures("the jobs of the queue are listed", int64(len(jobs)) == n)
	gvc.Ensures("each job is listed, the last one first", n == 0 || zzSameJ(jobs[at], job))
}

//gvc:prove C14
//gvc:uses structure.zzInvField structure.zzFieldPrefix structure.zzFieldOrder structure.zzInvHM structure.zzInvHK
func zzListHistory(m gvc.Map, id int64, tp model.ActionType, st model.JobState, ss osc.SchemaState, cnt int64, raw []byte, ids []int64) {
	gvc.Requires(len(raw) > 0)
	h, u := "DDLJobHistory", ZZHistory(id)
	job := specJob(id, tp, st, ss, cnt, raw, "")
	if !gvc.Symbolic() {
		for _, i := range ids {
			b, _ := json.Marshal(&model.Job{ID: i})
			m = m.Put(ZZHistory(i), string(b))
		}
	}
	b, err := job.Encode()
	gvc.Requires(err == nil)
	m = m.Put(u, string(b))
	gvc.Requires(structure.ZZWF(m, zzP, h))
	t, mt := zzMeta(m)
	gvc.Loop(func(ks []string, i int, res []structure.HashPair) bool {
		return len(res) == i && gvc.Forall(0, i, func(j int) bool {
			return string(res[j].Field) == structure.ZZField(zzP, ks[j]) && string(res[j].Value) == m.Get(ks[j])
		})
	})
	gvc.Loop(func(rangeindex int, jobs []*model.Job) bool { return len(jobs) == rangeindex+1 })
	gvc.Loop(func(rangeindex int, jobs []*model.Job) bool {
		return gvc.Forall(0, len(jobs), func(i int) bool { return jobs[i] != nil })
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	jobs, err := mt.GetAllHistoryDDLJobs()
	gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err != nil {
		return
	}
	j := gvc.ScanPos(u)
	gvc.Ensures("every job of the history is listed", 0 <= j && j < len(jobs) && zzSameJ(jobs[j], job))
	gvc.Ensures("only jobs of the history are listed", len(jobs) == gvc.ScanLen())
}
