package ddl

import (
	"context"
	"encoding/json"
	"errors"
	"strconv"
	"unicode/utf8"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/mondis/zzkvm"
	"github.com/zhiqiangxu/util/osc"
)

const zzP = keyspace.MetaPrefix

func zzMeta(m gvc.Map) (t *zzkvm.Txn, mt *meta.Meta) {
	t = zzkvm.NewTxn(m, kv.ErrKeyNotFound)
	mt = meta.NewMeta(t)
	return
}

// zzInvalidJob: a job nobody can run.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
func zzInvalidJob(m gvc.Map, id int64, tp model.ActionType, st model.JobState) {
	gvc.Requires(tp != model.ActionCreateSchema && tp != model.ActionAddIndex)
	t, mt := zzMeta(m)
	w := &worker{}
	job := &model.Job{ID: id, Type: tp, State: st}
	_, after, _, err := w.runJob(mt, job)
	gvc.Ensures("running a job nobody can run changes nothing", gvc.Same(t.M, m) && after == nil)
	if st == model.JobStateDone || st == model.JobStateRollbackDone || st == model.JobStateCancelled {
		gvc.Ensures("a finished job is left alone", err == nil && job.State == st)
		return
	}
	gvc.Ensures("a job nobody can run is cancelled", err != nil && job.State == model.JobStateCancelled)
}

// specDB puts a database into a content.
func specDB(m gvc.Map, info *model.DBInfo) gvc.Map {
	b, _ := json.Marshal(info)
	return m.Put(meta.ZZDB(info.ID), string(b))
}

// zzText: encoding/json replaces what is not UTF-8.
func zzText(s string) bool { return gvc.Symbolic() || utf8.ValidString(s) }

// specLoops are the invariants of a listing of the databases of which old is one, in search of a name.
func specLoops(t *zzkvm.Txn, m gvc.Map, old *model.DBInfo, name string) {
	u := meta.ZZDB(old.ID)
	gvc.Loop(func(ks []string, i int, res []structure.HashPair) bool {
		return len(res) == i && gvc.Forall(0, i, func(j int) bool {
			return string(res[j].Field) == structure.ZZField(zzP, ks[j]) && string(res[j].Value) == m.Get(ks[j])
		})
	})
	gvc.Loop(func(rangeindex int, dbs []*model.DBInfo) bool { return len(dbs) == rangeindex+1 })
	gvc.Loop(func(rangeindex int, dbs []*model.DBInfo) bool {
		return gvc.Forall(0, len(dbs), func(i int) bool { return dbs[i] != nil })
	})
	gvc.Loop(func(rangeindex int, dbs []*model.DBInfo) bool {
		return rangeindex < gvc.ScanPos(u) || dbs[gvc.ScanPos(u)].Name == old.Name
	})
	gvc.Loop(func(rangeindex int, dbInfos []*model.DBInfo) bool {
		return gvc.Forall(0, rangeindex+1, func(i int) bool { return dbInfos[i].Name != name })
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
}

// zzExists: the name of a database is taken exactly if one is listed with it.
//
//gvc:prove C15
//gvc:proves getDbInfo
//gvc:uses document/meta.zzInvDBF structure.zzInvField structure.zzFieldPrefix structure.zzFieldOrder structure.zzInvHM structure.zzInvHK
func zzExists(m gvc.Map, name string, info *model.DBInfo) {
	gvc.Requires(info != nil && zzText(info.Name))
	gvc.NonNil(info.Collections)
	m = specDB(m, info)
	gvc.Requires(structure.ZZWF(m, zzP, "dbs"))
	t, mt := zzMeta(m)
	specLoops(t, m, info, name)
	got, err := getDbInfo(mt, name)
	gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	if err != nil {
		return
	}
	gvc.Ensures("a database is found by its name", info.Name != name || got != nil)
	gvc.Ensures("only a database of that name is found", got == nil || got.Name == name)
}

// zzCur is the transaction a name is looked up in, and any database in its content.
var zzCur struct {
	t     *zzkvm.Txn
	old   *model.DBInfo
	taken bool
	dbi   *model.DBInfo
	db    *zzkvm.DB // if the transaction is its last one
}

//gvc:spec checkDBNameNotExists
func zzContractName(m *meta.Meta, name string) (exists bool, err error) {
	err = zzCur.t.Fault("list the databases")
	if err != nil {
		return
	}
	if gvc.AnyBool("taken") {
		zzCur.taken = true
		err = ErrDBAlreadyExists
		return
	}
	if gvc.AnyBool("not decoded") {
		err = gvc.AnyError("decode")
		gvc.Assume("an error", err != nil && err != ErrDBAlreadyExists)
		return
	}
	gvc.Assume("proved by zzName", name != zzCur.old.Name)
	return
}

// zzName: a name is refused if a database has it.
//
//gvc:prove C15
//gvc:proves checkDBNameNotExists getDbInfo
//gvc:uses document/meta.zzInvDBF structure.zzInvField structure.zzFieldPrefix structure.zzFieldOrder structure.zzInvHM structure.zzInvHK
func zzName(m gvc.Map, name string, info *model.DBInfo) {
	gvc.Requires(info != nil && zzText(info.Name))
	gvc.NonNil(info.Collections)
	m = specDB(m, info)
	gvc.Requires(structure.ZZWF(m, zzP, "dbs"))
	t, mt := zzMeta(m)
	specLoops(t, m, info, name)
	exists, err := checkDBNameNotExists(mt, name)
	gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
	gvc.Ensures("reading changes nothing", gvc.Same(t.M, m))
	gvc.Ensures("a name in use is refused", !exists && (err != nil || info.Name != name))
}

func zzSameC(a, b *model.CollectionInfo) bool {
	return a.ID == b.ID && a.Name == b.Name && len(a.IndexOrder) == len(b.IndexOrder)
}

// zzStoredC: a text is a public collection as given.
func zzStoredC(s string, c *model.CollectionInfo, in string) bool {
	d := &model.CollectionInfo{}
	if json.Unmarshal([]byte(s), d) != nil {
		return false
	}
	if !zzSameC(d, c) || d.State != osc.StatePublic {
		return false
	}
	a, b := d.Indices[in], c.Indices[in]
	return (a == nil) == (b == nil) && (a == nil || a.ID == b.ID && a.Name == b.Name && a.Unique == b.Unique && len(a.Columns) == len(b.Columns) && a.State == osc.StatePublic)
}

func zzStateC(info *model.DBInfo, cn string) int64 {
	if c := info.Collections[cn]; c != nil {
		return int64(c.State)
	}
	return zzPublic
}

func zzStateI(info *model.DBInfo, cn, in string) int64 {
	if c := info.Collections[cn]; c != nil {
		if i := c.Indices[in]; i != nil {
			return int64(i.State)
		}
	}
	return zzPublic
}

const zzPublic = int64(osc.StatePublic)

// zzStoredDB: a text is a public database as given.
func zzStoredDB(s string, c *model.DBInfo) bool {
	d := &model.DBInfo{}
	if json.Unmarshal([]byte(s), d) != nil {
		return false
	}
	return d.ID == c.ID && d.Name == c.Name && len(d.CollectionOrder) == len(c.CollectionOrder) && d.State == osc.StatePublic
}

// specClean makes a generated description one that encoding/json keeps as it is.
func specClean(info *model.DBInfo) {
	if gvc.Symbolic() {
		return
	}
	text := func(s *string) {
		if !utf8.ValidString(*s) {
			*s = "x"
		}
	}
	text(&info.Name)
	for cn, c := range info.Collections {
		if c == nil || !utf8.ValidString(cn) {
			delete(info.Collections, cn)
			continue
		}
		text(&c.Name)
		for in, i := range c.Indices {
			if i == nil || !utf8.ValidString(in) {
				delete(c.Indices, in)
				continue
			}
			text(&i.Name)
		}
	}
}

// zzCreateSchema: the job that creates a schema stores it with all its collections, as public, and describes the change under a new version.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
//gvc:uses document/meta.zzInvDBF document/meta.zzInvCF document/meta.zzInvVF structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzCreateSchema(m gvc.Map, id, v0 int64, info, old *model.DBInfo, cn, in, other string) {
	gvc.Requires(info != nil && old != nil)
	gvc.NonNil(info.Collections)
	gvc.NonNil(old.Collections)
	specClean(info)
	specClean(old)
	if !gvc.Symbolic() {
		m = specDB(gvc.NewMap(), old)
	}
	gvc.Requires(0 <= v0 && v0 < 1<<60)
	vk := structure.ZZSK(zzP, "schemaVersion")
	m = m.Put(vk, strconv.FormatInt(v0, 10))
	t, mt := zzMeta(m)
	w := &worker{}
	raw, _ := json.Marshal(info)
	job := &model.Job{ID: id, Type: model.ActionCreateSchema, RawArg: raw}
	zzCur.t, zzCur.old, zzCur.taken = t, old, false
	gvc.Loop(func(dbInfo *model.DBInfo) bool {
		return zzStateC(dbInfo, cn) == zzPublic || !gvc.Visited(cn) && zzStateC(dbInfo, cn) == gvc.AtEntry(func() int64 { return zzStateC(dbInfo, cn) })
	})
	gvc.Loop(func(dbInfo *model.DBInfo) bool {
		return zzStateI(dbInfo, cn, in) == zzPublic || zzStateI(dbInfo, cn, in) == gvc.AtEntry(func() int64 { return zzStateI(dbInfo, cn, in) })
	})
	gvc.Loop(func(dbInfo *model.DBInfo) bool { return !gvc.Visited(cn) || zzStateI(dbInfo, cn, in) == zzPublic })
	gvc.Loop(func(collection *model.CollectionInfo) bool {
		c := collection.Indices[in]
		return !gvc.Visited(in) || c == nil || c.State == osc.StatePublic
	})
	gvc.Loop(func(dbInfo *model.DBInfo) bool {
		c := dbInfo.Collections[cn]
		return !gvc.Visited(cn) || c == nil || t.M.Has(meta.ZZC(dbInfo.ID, c.ID)) && zzStoredC(t.M.Get(meta.ZZC(dbInfo.ID, c.ID)), c, in)
	})
	gvc.Loop(func(dbInfo *model.DBInfo) bool {
		return structure.ZZName(zzP, other) == meta.ZZDBF(dbInfo.ID) || structure.ZZSame(t.M, m, other) || gvc.AtEntry(func() int64 { return int64(gvc.Int(structure.ZZSame(t.M, m, other))) }) == 0
	})
	gvc.Loop(func() bool { return t.M.Has(vk) && t.M.Get(vk) == strconv.FormatInt(v0, 10) })
	gvc.Loop(func(dbInfo *model.DBInfo) bool {
		k := meta.ZZDB(dbInfo.ID)
		return t.M.Has(k) && zzStoredDB(t.M.Get(k), dbInfo)
	})
	gvc.Loop(func() bool { return t.Faults == 0 })
	version, after, failNow, err := w.runJob(mt, job)
	if !gvc.Symbolic() {
		zzCur.taken = t.Faults == 0 && info.Name == old.Name
	}
	gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
	gvc.Ensures("a name in use is refused", err != nil || info.Name != old.Name && !zzCur.taken)
	gvc.Ensures("a name in use is refused", !zzCur.taken || err == ErrDBAlreadyExists && gvc.Same(t.M, m))
	gvc.Ensures("a job is not given up but for a name in use", !failNow || zzCur.taken)
	if err != nil {
		return
	}
	gvc.Ensures("the job is done", job.State == model.JobStateDone && job.SchemaState == osc.StatePublic && after != nil)
	gvc.Ensures("the key of another database is not used", !m.Has(meta.ZZDB(info.ID)))
	now := job.Arg.(*model.DBInfo)
	if c := now.Collections[cn]; c != nil {
		kc := meta.ZZC(now.ID, c.ID)
		gvc.Ensures("every collection is stored", t.M.Has(kc))
		gvc.Ensures("every collection is stored as public", zzStoredC(t.M.Get(kc), c, in))
		gvc.Ensures("the collections are those of the job", info.Collections[cn] != nil && now.ID == info.ID && zzSameC(c, info.Collections[cn]))
		x, y := c.Indices[in], info.Collections[cn].Indices[in]
		gvc.Ensures("the indexes are those of the job", y == nil || x != nil && (x.ID == y.ID && x.Name == y.Name && x.Unique == y.Unique && len(x.Columns) == len(y.Columns)))
	}
	gvc.Ensures("no collection is left out", info.Collections[cn] == nil || now.Collections[cn] != nil)
	t.NoFault = true
	v := v0 + 1
	gvc.Ensures("the schema has the next version", version == v && t.M.Get(vk) == strconv.FormatInt(v, 10))
	diff, err := mt.GetSchemaDiff(v)
	gvc.Ensures("the change is described under its version", err == nil && diff != nil && diff.Version == v && diff.Type == model.ActionCreateSchema)
	made := &model.DBInfo{}
	err = diff.DecodeArg(made)
	gvc.Ensures("the change describes the schema", err == nil && made.ID == info.ID && made.Name == info.Name && made.State == osc.StatePublic)
	k := meta.ZZDB(info.ID)
	gvc.Ensures("the schema is stored", t.M.Has(k) && zzStoredDB(t.M.Get(k), info))
	c, d := info.Collections[cn], made.Collections[cn]
	gvc.Ensures("the change describes the collections", (c == nil) == (d == nil) && (c == nil || zzSameC(c, d) && d.State == osc.StatePublic))
	if structure.ZZName(zzP, other) == meta.ZZDBF(info.ID) || other == k || other == structure.ZZHM(zzP, "dbs") || other == vk || other == meta.ZZV(v) {
		return
	}
	gvc.Ensures("nothing else changes", structure.ZZSame(t.M, m, other))
}

// zzQueueKey is the queue of the jobs.
const zzQ = "DDLJobList"

// specQueue is a content whose queue has n jobs, of which job is the first.
func specQueue(m gvc.Map, l, n int64, job *model.Job) gvc.Map {
	gvc.Requires(l >= 0 && l <= 1<<62 && n >= 0 && n <= 1<<40)
	if n == 0 {
		return m.Del(structure.ZZLM(zzP, zzQ))
	}
	b, err := job.Encode()
	gvc.Requires(err == nil)
	m = m.Put(meta.ZZJ(zzQ, l), string(b))
	return m.Put(structure.ZZLM(zzP, zzQ), gvc.BE64(uint64(l))+gvc.BE64(uint64(l+n)))
}

// specFail runs failJob on a queue of n jobs of which the first is sid, for the job id that failed cnt times before.
func specFail(m gvc.Map, l, n, h, id, sid, cnt int64, tp model.ActionType, st model.JobState, failNow bool, msg string) (gvc.Map, *zzkvm.DB, *model.Job, error) {
	gvc.Requires(n > 0 && 0 <= cnt && cnt < 1<<40 && h > 0 && h < 1<<62 && zzText(msg) && msg != "")
	m = specQueue(m, l, n, &model.Job{ID: sid, Type: tp, RawArg: []byte("{}"), ErrorCount: cnt})
	m = structure.ZZHash(m, zzP, "DDLJobHistory", h)
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	w := &worker{d: &DDL{kvdb: db}}
	job := &model.Job{ID: id, Type: tp, State: st, RawArg: []byte("{}"), ErrorCount: cnt}
	err := w.failJob(job, failNow, errors.New(msg))
	gvc.Ensures("a storage error is reported, and nothing is committed", db.Faults == 0 || err != nil)
	gvc.Ensures("every transaction ends", db.Opened == db.Ended)
	return m, db, job, err
}

// zzFailOther: the failure of a job that is not the first in the queue any more changes nothing.
//
//gvc:prove C15
//gvc:proves (*worker).failJob (*worker).getFirstJob (*worker).finishJob (*worker).updateJob
//gvc:uses structure.zzInvLM structure.zzInvLK structure.zzInvHM structure.zzInvHK
func zzFailOther(m gvc.Map, l, n, h, id, sid, cnt int64, tp model.ActionType, st model.JobState, failNow bool, msg string) {
	gvc.Requires(sid != id)
	m, db, _, _ := specFail(m, l, n, h, id, sid, cnt, tp, st, failNow, msg)
	gvc.Ensures("another job is left alone", gvc.Same(db.M, m))
}

// zzFailAgain: the failure of a job that may still succeed is recorded, and the job stays first.
//
//gvc:prove C15
//gvc:proves (*worker).failJob (*worker).getFirstJob (*worker).finishJob (*worker).updateJob
//gvc:uses structure.zzInvLM structure.zzInvLK structure.zzInvHM structure.zzInvHK
func zzFailAgain(m gvc.Map, l, n, h, id, cnt int64, tp model.ActionType, st model.JobState, msg, other string) {
	gvc.Requires(cnt < 2 && st != model.JobStateCancelled)
	m, db, job, err := specFail(m, l, n, h, id, id, cnt, tp, st, false, msg)
	if err != nil {
		gvc.Ensures("nothing is committed after an error", gvc.Same(db.M, m))
		return
	}
	gvc.Ensures("the failure is counted", job.ErrorCount == cnt+1 && job.Error != nil && job.State == st)
	lk := meta.ZZJ(zzQ, l)
	gvc.Ensures("nothing but the entry of the job changes", other == lk || structure.ZZSame(db.M, m, other))
	got := &model.Job{}
	err = got.Decode([]byte(db.M.Get(lk)))
	gvc.Ensures("a job that failed is run again", err == nil && got.ID == id && got.State == st && got.Error != nil && got.ErrorCount == cnt+1)
}

// zzFailNow: a job that cannot succeed is cancelled and moved to the history with its error.
//
//gvc:prove C15
//gvc:proves (*worker).failJob (*worker).getFirstJob (*worker).finishJob (*worker).updateJob
//gvc:uses structure.zzInvLM structure.zzInvLK structure.zzInvHM structure.zzInvHK
func zzFailNow(m gvc.Map, l, n, h, id, cnt int64, tp model.ActionType, st model.JobState, failNow bool, msg, other string) {
	gvc.Requires(failNow)
	hk := meta.ZZHistory(id)
	m, db, _, err := specFail(m, l, n, h, id, id, cnt, tp, st, failNow, msg)
	if err != nil {
		gvc.Ensures("nothing is committed after an error", gvc.Same(db.M, m))
		return
	}
	lm, lk := structure.ZZLM(zzP, zzQ), meta.ZZJ(zzQ, l)
	gvc.Ensures("a job that failed for good leaves the queue", !db.M.Has(lk))
	if n == 1 {
		gvc.Ensures("a job that failed for good leaves the queue", !db.M.Has(lm))
	} else {
		gvc.Ensures("a job that failed for good leaves the queue", db.M.Get(lm) == gvc.BE64(uint64(l+1))+gvc.BE64(uint64(l+n)))
	}
	gvc.Ensures("nothing else changes", other == lm || other == lk || other == hk || other == structure.ZZHM(zzP, "DDLJobHistory") || structure.ZZSame(db.M, m, other))
	got := &model.Job{}
	err = got.Decode([]byte(db.M.Get(hk)))
	gvc.Ensures("a job that failed for good is cancelled, with its error", err == nil && got.ID == id && got.State == model.JobStateCancelled && got.Error != nil && got.ErrorCount == cnt+1)
}

// zzFailLast: a job that failed too often is cancelled and moved to the history with its error.
//
//gvc:prove C15
//gvc:proves (*worker).failJob (*worker).getFirstJob (*worker).finishJob (*worker).updateJob
//gvc:uses structure.zzInvLM structure.zzInvLK structure.zzInvHM structure.zzInvHK
func zzFailLast(m gvc.Map, l, n, h, id, cnt int64, tp model.ActionType, st model.JobState, failNow bool, msg, other string) {
	gvc.Requires(!failNow && (cnt >= 2 || st == model.JobStateCancelled))
	hk := meta.ZZHistory(id)
	m, db, _, err := specFail(m, l, n, h, id, id, cnt, tp, st, failNow, msg)
	if err != nil {
		gvc.Ensures("nothing is committed after an error", gvc.Same(db.M, m))
		return
	}
	lm, lk := structure.ZZLM(zzP, zzQ), meta.ZZJ(zzQ, l)
	gvc.Ensures("a job that failed for good leaves the queue", !db.M.Has(lk))
	if n == 1 {
		gvc.Ensures("a job that failed for good leaves the queue", !db.M.Has(lm))
	} else {
		gvc.Ensures("a job that failed for good leaves the queue", db.M.Get(lm) == gvc.BE64(uint64(l+1))+gvc.BE64(uint64(l+n)))
	}
	gvc.Ensures("nothing else changes", other == lm || other == lk || other == hk || other == structure.ZZHM(zzP, "DDLJobHistory") || structure.ZZSame(db.M, m, other))
	got := &model.Job{}
	err = got.Decode([]byte(db.M.Get(hk)))
	gvc.Ensures("a job that failed for good is cancelled, with its error", err == nil && got.ID == id && got.State == model.JobStateCancelled && got.Error != nil && got.ErrorCount == cnt+1)
}

// zzRun is what the contracts of the steps of the worker record.
var zzRun struct {
	db      *zzkvm.DB
	t       *zzkvm.Txn
	job     *model.Job
	state   model.JobState // of the job when it was read
	failed  error          // the error of the last run, if it failed
	none    bool           // there was no job
	ran     int64          // runs that failed
	noted   int64          // failed runs that were recorded
	after   int64          // functions run after a commit
	done    int64          // jobs found done and finished
	wrong   bool
	pending bool // a run whose outcome is not stored yet
}

const zzMark = "mark"

//gvc:spec (*worker).getFirstJob
func zzContractFirst(w *worker, m *meta.Meta) (job *model.Job, err error) {
	zzRun.t, zzRun.job, zzRun.failed, zzRun.pending = zzRun.db.Last, nil, nil, false
	err = zzRun.t.Fault("read the first job")
	if err != nil {
		return
	}
	if gvc.AnyBool("no job") {
		zzRun.none = true
		return
	}
	job = &model.Job{ID: gvc.AnyInt64("id"), State: model.JobState(gvc.AnyUint64("state") % 8)}
	zzRun.job, zzRun.state = job, job.State
	return
}

//gvc:spec (*worker).runJob
func zzContractRun(w *worker, m *meta.Meta, job *model.Job) (schemaVersion int64, after func(), failNow bool, err error) {
	t := zzRun.db.Last
	if t != zzRun.t || job != zzRun.job || job.State == model.JobStateDone || job.State == model.JobStateRollbackDone {
		zzRun.wrong = true
	}
	t.M = t.M.Put(zzMark, "run")
	if gvc.AnyBool("fails") {
		failNow = gvc.AnyBool("fail now")
		err = gvc.AnyError("run")
		gvc.Assume("an error", err != nil)
		zzRun.failed = err
		zzRun.ran++
		return
	}
	t.M = t.M.Del(zzMark)
	zzRun.pending = true
	job.State = model.JobState(gvc.AnyUint64("state") % 8)
	db := zzRun.db
	after = func() {
		if zzRun.pending || db.Last.Failed || !db.Last.Committed {
			zzRun.wrong = true
		}
		zzRun.after++
	}
	return
}

//gvc:spec (*worker).finishJob
func zzContractFinish(w *worker, m *meta.Meta, job *model.Job) (err error) {
	if zzRun.db.Last != zzRun.t || job != zzRun.job || job.State != model.JobStateSynced && job.State != model.JobStateRollbackDone && job.State != model.JobStateCancelled || zzRun.failed != nil {
		zzRun.wrong = true
	}
	if !zzRun.pending {
		zzRun.done++
		if (job.State == model.JobStateSynced) != (zzRun.state == model.JobStateDone) {
			zzRun.wrong = true
		}
	} else if job.State != model.JobStateCancelled {
		zzRun.wrong = true
	}
	zzRun.pending = false
	return zzRun.t.Fault("finish")
}

//gvc:spec (*worker).updateJob
func zzContractUpdate(w *worker, m *meta.Meta, job *model.Job) (err error) {
	if zzRun.db.Last != zzRun.t || job != zzRun.job || !zzRun.pending || job.State == model.JobStateCancelled || zzRun.failed != nil {
		zzRun.wrong = true
	}
	zzRun.pending = false
	return zzRun.t.Fault("update")
}

//gvc:spec (*worker).failJob
func zzContractFail(w *worker, job *model.Job, failNow bool, runJobErr error) (err error) {
	if job != zzRun.job || runJobErr != zzRun.failed || zzRun.db.Opened != zzRun.db.Ended {
		zzRun.wrong = true
	}
	zzRun.noted++
	return gvc.AnyError("fail")
}

// zzWorker: the worker runs the first job until none is left; what a run does is committed with its outcome or not at all.
//
//gvc:prove C15
func zzWorker(m gvc.Map, callback bool) {
	if !gvc.Symbolic() {
		return
	}
	gvc.Requires(!m.Has(zzMark))
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	zzRun.db, zzRun.none, zzRun.wrong, zzRun.ran, zzRun.noted, zzRun.after, zzRun.done = db, false, false, 0, 0, 0, 0
	d := &DDL{kvdb: db}
	if callback {
		d.options.Callback.OnChanged = func(err error) {
			if zzRun.failed != nil && err != zzRun.failed {
				zzRun.wrong = true
			}
		}
	}
	w := &worker{d: d}
	gvc.Loop(func() bool { return !zzRun.wrong })
	gvc.Loop(func() bool { return !zzRun.none })
	gvc.Loop(func() bool { return zzRun.ran == zzRun.noted })
	gvc.Loop(func() bool { return int64(db.Commits) == zzRun.after+zzRun.done })
	gvc.Loop(func() bool { return db.Opened == db.Ended })
	gvc.Loop(func() bool { return !db.M.Has(zzMark) })
	gvc.Loop(func() bool { return db.Faults == 0 })
	err := w.handleJobQueue()
	gvc.Ensures("the worker stops when no job is left", err != nil || zzRun.none)
	gvc.Ensures("a storage error is reported", err != nil || db.Faults == 0)
	gvc.Ensures("every transaction ends", db.Opened == db.Ended)
	gvc.Ensures("what a failed run did is not committed", !db.M.Has(zzMark))
	gvc.Ensures("what follows a job runs after every commit of a job", err != nil || int64(db.Commits) == zzRun.after+zzRun.done+1)
	gvc.Ensures("every failed run is recorded", zzRun.ran == zzRun.noted)
	gvc.Ensures("the steps of a job are taken in order, in one transaction, and what follows it after its commit", !zzRun.wrong)
}

// zzIDs: a schema change names every collection it concerns.
//
//gvc:prove C15
func zzIDs(info *model.DBInfo, index *model.IndexInfo, r *model.IndexInfoRedundant, cn string) {
	gvc.Requires(info != nil && index != nil && r != nil)
	gvc.NonNil(info.Collections)
	specClean(info)
	index.JobRedundant = r
	gvc.Loop(func(collectionIDs []int64) bool {
		c := info.Collections[cn]
		return !gvc.Visited(cn) || c == nil || gvc.Exists(0, len(collectionIDs), func(j int) bool { return collectionIDs[j] == c.ID })
	})
	ids := job2CollectionIDs(&model.Job{Type: model.ActionCreateSchema, Arg: info})
	c := info.Collections[cn]
	gvc.Ensures("a change that creates a schema names its collections", c == nil || gvc.Exists(0, len(ids), func(j int) bool { return ids[j] == c.ID }))
	ids = job2CollectionIDs(&model.Job{Type: model.ActionAddIndex, Arg: index})
	gvc.Ensures("a change that adds an index names the collection", len(ids) == 1 && ids[0] == r.CID)
}

//gvc:spec getDbInfo
func zzContractDb(m *meta.Meta, name string) (dbInfo *model.DBInfo, err error) {
	t := zzCur.t
	if zzCur.db != nil {
		t = zzCur.db.Last
	}
	err = t.Fault("find the database")
	if err != nil {
		return
	}
	if gvc.AnyBool("not decoded") {
		err = gvc.AnyError("decode")
		gvc.Assume("an error", err != nil)
		return
	}
	if gvc.AnyBool("missing") {
		zzCur.taken = true
		return
	}
	gvc.Assume("proved by zzExists", zzCur.dbi.Name == name)
	dbInfo = zzCur.dbi
	return
}

// zzIndexIs: a stored collection has an index of the name and state, and another one as it was.
func zzIndexIs(c *model.CollectionInfo, name string, st osc.SchemaState, unique bool, columns int) bool {
	i := c.Indices[name]
	return i != nil && i.Name == name && i.State == st && i.Unique == unique && len(i.Columns) == columns
}

// What a harness on adding an index claims.
const (
	zzRefusal = iota
	zzStored
	zzOtherIndex
	zzOtherCollection
	zzOtherKeys
	zzDescribed
)

// specAddIndex takes one step of the job that adds an index to a collection.
func specAddIndex(m gvc.Map, id, v0 int64, info *model.DBInfo, idx *model.IndexInfo, r *model.IndexInfoRedundant, oc, on, other string, st osc.SchemaState, part int) {
	gvc.Requires(info != nil && idx != nil && r != nil && 0 <= v0 && v0 < 1<<60)
	gvc.NonNil(info.Collections)
	specClean(info)
	gvc.Requires(zzText(idx.Name) && zzText(r.DB) && zzText(r.Collection))
	idx.JobRedundant = r
	dbName, cn, name := r.DB, r.Collection, idx.Name
	if !gvc.Symbolic() {
		m = gvc.NewMap()
	}
	c := info.Collections[cn]
	gvc.Requires(part == zzRefusal || c != nil)
	gvc.Requires(c == nil || c.Name == cn)
	m = specDB(m, info)
	kd, vk := meta.ZZDB(info.ID), structure.ZZSK(zzP, "schemaVersion")
	m = m.Put(vk, strconv.FormatInt(v0, 10))
	var cid int64
	was := false
	var oid, ocid int64
	var ost osc.SchemaState
	if c != nil {
		cid = c.ID
		was = c.Indices[name] != nil
		gvc.Requires(!was || c.Indices[name].Name == name)
		gvc.Requires(st == osc.StateAbsent || r.CID == cid)
		if !gvc.Symbolic() {
			b, _ := json.Marshal(c)
			m = m.Put(meta.ZZC(info.ID, cid), string(b))
		}
	}
	if part == zzOtherIndex {
		o := c.Indices[on]
		gvc.Requires(o != nil && on != name)
		oid, ost = o.ID, o.State
	}
	if part == zzOtherCollection {
		gvc.Requires(info.Collections[oc] != nil && oc != cn)
		ocid = info.Collections[oc].ID
	}
	t, mt := zzMeta(m)
	w := &worker{}
	raw, _ := json.Marshal(idx)
	job := &model.Job{ID: id, Type: model.ActionAddIndex, RawArg: raw, SchemaState: st}
	zzCur.t, zzCur.db, zzCur.dbi, zzCur.taken = t, nil, info, false
	t.NoFault = part != zzRefusal
	version, _, failNow, err := w.runJob(mt, job)
	if part == zzRefusal {
		gvc.Ensures("a storage error is reported", err != nil || t.Faults == 0)
		gvc.Ensures("a missing database or collection, an index that exists or is missing is refused", err != nil || dbName == info.Name && c != nil && was == (st != osc.StateAbsent))
		gvc.Ensures("a job that cannot succeed changes nothing", !failNow || err != nil && gvc.Same(t.M, m))
		return
	}
	if err != nil {
		return
	}
	v, next := v0+1, st+1
	kc := meta.ZZC(info.ID, cid)
	if part == zzDescribed {
		gvc.Ensures("the schema has the next version", version == v && t.M.Get(vk) == strconv.FormatInt(v, 10))
		diff, err := mt.GetSchemaDiff(v)
		gvc.Ensures("the change is described under its version", err == nil && diff != nil && diff.Version == v && diff.Type == model.ActionAddIndex)
		gvc.Ensures("the change names the collection", len(diff.CollectionIDs) == 1 && diff.CollectionIDs[0] == cid)
		if st == osc.StateAbsent {
			b, err := job.Encode()
			gvc.Ensures("the job can be stored", err == nil)
			j, arg := &model.Job{}, &model.IndexInfo{}
			err = j.Decode(b)
			gvc.Ensures("the job can be read back", err == nil && j.SchemaState == next)
			err = j.DecodeArg(arg)
			gvc.Ensures("the job remembers the collection", err == nil && arg.Name == name && arg.JobRedundant != nil && arg.JobRedundant.CID == cid && arg.JobRedundant.Collection == cn && arg.JobRedundant.DB == dbName)
		}
		return
	}
	if part == zzOtherKeys {
		gvc.Ensures("nothing else changes", other == kd || other == kc || other == vk || other == meta.ZZV(v) || structure.ZZSame(t.M, m, other))
		return
	}
	sc, sd := &model.CollectionInfo{}, &model.DBInfo{}
	gvc.Ensures("the collection is stored", json.Unmarshal([]byte(t.M.Get(kc)), sc) == nil && sc.ID == cid && sc.Name == cn)
	gvc.Ensures("the schema is stored", json.Unmarshal([]byte(t.M.Get(kd)), sd) == nil && sd.ID == info.ID && sd.Name == info.Name)
	dc := sd.Collections[cn]
	gvc.Ensures("the schema has the collection", dc != nil && dc.ID == cid)
	if part == zzOtherIndex {
		i, j := sc.Indices[on], dc.Indices[on]
		gvc.Ensures("another index stays as it is", i != nil && i.ID == oid && i.State == ost && j != nil && j.ID == oid && j.State == ost)
		return
	}
	if part == zzOtherCollection {
		gvc.Ensures("another collection stays", sd.Collections[oc] != nil && sd.Collections[oc].ID == ocid)
		return
	}
	gvc.Ensures("the index moves one state", job.SchemaState == next && job.State == model.JobStateRunning)
	if st == osc.StateAbsent {
		gvc.Ensures("the index is stored as given", zzIndexIs(sc, name, next, idx.Unique, len(idx.Columns)))
	}
	i, j := sc.Indices[name], dc.Indices[name]
	gvc.Ensures("the index is stored in its state", i != nil && i.State == next)
	gvc.Ensures("the schema has the index in its state", j != nil && j.State == next)
}

// zzAddRefused: a job that adds an index is refused for what is missing or exists, and reports every storage error.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
//gvc:uses document/meta.zzInvDBF document/meta.zzInvCF document/meta.zzInvVF structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzAddRefused(m gvc.Map, id, v0 int64, info *model.DBInfo, idx *model.IndexInfo, r *model.IndexInfoRedundant, oc, on, other string, st osc.SchemaState) {
	gvc.Requires(st != osc.StateWriteReorganization)
	specAddIndex(m, id, v0, info, idx, r, oc, on, other, st, zzRefusal)
}

// zzAddIndex: every step of adding an index moves it one state, in the collection and in the database.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
//gvc:uses document/meta.zzInvDBF document/meta.zzInvCF document/meta.zzInvVF structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzAddIndex(m gvc.Map, id, v0 int64, info *model.DBInfo, idx *model.IndexInfo, r *model.IndexInfoRedundant, oc, on, other string, st osc.SchemaState) {
	gvc.Requires(st == osc.StateAbsent || st == osc.StateDeleteOnly || st == osc.StateWriteOnly)
	specAddIndex(m, id, v0, info, idx, r, oc, on, other, st, zzStored)
}

// zzAddOtherIndex: a step of adding an index changes no other index.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
//gvc:uses document/meta.zzInvDBF document/meta.zzInvCF document/meta.zzInvVF structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzAddOtherIndex(m gvc.Map, id, v0 int64, info *model.DBInfo, idx *model.IndexInfo, r *model.IndexInfoRedundant, oc, on, other string, st osc.SchemaState) {
	gvc.Requires(st == osc.StateAbsent || st == osc.StateDeleteOnly || st == osc.StateWriteOnly)
	specAddIndex(m, id, v0, info, idx, r, oc, on, other, st, zzOtherIndex)
}

// zzAddOtherCollection: a step of adding an index changes no other collection.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
//gvc:uses document/meta.zzInvDBF document/meta.zzInvCF document/meta.zzInvVF structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzAddOtherCollection(m gvc.Map, id, v0 int64, info *model.DBInfo, idx *model.IndexInfo, r *model.IndexInfoRedundant, oc, on, other string, st osc.SchemaState) {
	gvc.Requires(st == osc.StateAbsent || st == osc.StateDeleteOnly || st == osc.StateWriteOnly)
	specAddIndex(m, id, v0, info, idx, r, oc, on, other, st, zzOtherCollection)
}

// zzAddOtherKeys: a step of adding an index changes nothing else stored.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
//gvc:uses document/meta.zzInvDBF document/meta.zzInvCF document/meta.zzInvVF structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzAddOtherKeys(m gvc.Map, id, v0 int64, info *model.DBInfo, idx *model.IndexInfo, r *model.IndexInfoRedundant, oc, on, other string, st osc.SchemaState) {
	gvc.Requires(st == osc.StateAbsent || st == osc.StateDeleteOnly || st == osc.StateWriteOnly)
	specAddIndex(m, id, v0, info, idx, r, oc, on, other, st, zzOtherKeys)
}

// zzAddDescribed: every step of adding an index is a version of its own, described as a change of the collection.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
//gvc:uses document/meta.zzInvDBF document/meta.zzInvCF document/meta.zzInvVF structure.zzInvHM structure.zzInvHK structure.zzInvSK
func zzAddDescribed(m gvc.Map, id, v0 int64, info *model.DBInfo, idx *model.IndexInfo, r *model.IndexInfoRedundant, oc, on, other string, st osc.SchemaState) {
	gvc.Requires(st == osc.StateAbsent || st == osc.StateDeleteOnly || st == osc.StateWriteOnly)
	specAddIndex(m, id, v0, info, idx, r, oc, on, other, st, zzDescribed)
}

// zzSeq are the document sequences created: one entry for each collection.
var zzSeq struct{ m gvc.Map }

func zzSeqKey(db, id int64) string { return gvc.BE64(uint64(db)) + gvc.BE64(uint64(id)) }

//gvc:spec document/dml.CreateSequence
func zzContractSequence(kvdb mondis.KVDB, dbID, cid, bandwidth int64) (err error) {
	if bandwidth < 0 || gvc.AnyBool("fails") {
		err = gvc.AnyError("create a sequence")
		gvc.Assume("an error", err != nil)
		return
	}
	zzSeq.m = zzSeq.m.Put(zzSeqKey(dbID, cid), "")
	return
}

// zzAfterCommit: what follows the creation of a schema creates a document sequence for every collection.
//
//gvc:prove C15
//gvc:proves (*worker).runJob
func zzAfterCommit(m gvc.Map, v0 int64, info *model.DBInfo, cn string) {
	gvc.Requires(info != nil && 0 <= v0 && v0 < 1<<60)
	gvc.NonNil(info.Collections)
	specClean(info)
	if !gvc.Symbolic() {
		return
	}
	m = m.Put(structure.ZZSK(zzP, "schemaVersion"), strconv.FormatInt(v0, 10))
	t, mt := zzMeta(m)
	t.NoFault = true
	w := &worker{d: &DDL{}}
	raw, _ := json.Marshal(info)
	job := &model.Job{Type: model.ActionCreateSchema, RawArg: raw}
	zzCur.t, zzCur.old, zzCur.taken = t, info, false
	zzSeq.m = gvc.NewMap()
	_, after, _, err := w.runJob(mt, job)
	if err != nil {
		return
	}
	now := job.Arg.(*model.DBInfo)
	gvc.Loop(func() bool {
		c := now.Collections[cn]
		return !gvc.Visited(cn) || c == nil || zzSeq.m.Has(zzSeqKey(now.ID, c.ID))
	})
	after()
	c := now.Collections[cn]
	gvc.Ensures("every collection has a document sequence", c == nil || zzSeq.m.Has(zzSeqKey(info.ID, c.ID)))
}

// zzReq is what the contracts of the steps of a request record.
var zzReq struct {
	asked  bool // the history was read
	id     int64
	found  bool // the last answer of the history
	state  model.JobState
	failed bool
	err    error
	ended  bool // the context was found done
}

// zzCtx is a context that may end at any time.
type zzCtx struct{ context.Context }

func (zzCtx) Done() <-chan struct{} { return nil }

func (zzCtx) Err() (err error) {
	zzReq.ended = true
	err = gvc.AnyError("context")
	gvc.Assume("a done context has an error", err != nil)
	return
}

//gvc:spec (*DDL).GetHistoryJob
func zzContractHistory(d *DDL, jobID int64) (job *model.Job, err error) {
	zzReq.asked, zzReq.id, zzReq.found, zzReq.failed = true, jobID, false, false
	if gvc.AnyBool("storage error") {
		err = gvc.AnyError("history")
		gvc.Assume("an error", err != nil)
		return
	}
	if gvc.AnyBool("not finished") {
		return
	}
	job = &model.Job{ID: jobID, State: model.JobState(gvc.AnyUint64("state") % 8)}
	zzReq.found, zzReq.state = true, job.State
	if gvc.AnyBool("failed") {
		zzReq.err = gvc.AnyError("of the job")
		gvc.Assume("an error", zzReq.err != nil)
		zzReq.failed = true
		job.Error = zzReq.err
	}
	return
}

// zzWait: a request ends when its job is in the history or its context is done, and reports success only for a job synced.
//
//gvc:prove C15
//gvc:proves (*DDL).checkJob
func zzWait(id int64, tp model.ActionType) {
	if !gvc.Symbolic() {
		return
	}
	zzReq.asked, zzReq.found, zzReq.ended, zzReq.failed = false, false, false, false
	d := &DDL{}
	gvc.Loop(func() bool { return !zzReq.found })
	gvc.Loop(func() bool { return !zzReq.ended })
	err := d.checkJob(zzCtx{}, &model.Job{ID: id, Type: tp})
	if zzReq.ended {
		gvc.Ensures("a request whose context is done reports it", err != nil)
		return
	}
	gvc.Ensures("a request waits for its job", zzReq.found && zzReq.id == id)
	gvc.Ensures("a request succeeds only if its job was synced", (err == nil) == (zzReq.state == model.JobStateSynced))
	gvc.Ensures("a request reports the error of its job", zzReq.state == model.JobStateSynced || !zzReq.failed || err == zzReq.err)
}

// zzHistory: the history of a job is what is stored.
//
//gvc:prove C15
//gvc:proves (*DDL).GetHistoryJob
func zzHistory(m gvc.Map, id int64, st model.JobState, msg string) {
	gvc.Requires(zzText(msg))
	b, err := (&model.Job{ID: id, State: st, RawArg: []byte("{}"), Error: errors.New(msg)}).Encode()
	gvc.Requires(err == nil)
	k := meta.ZZHistory(id)
	if st != 0 {
		m = m.Put(k, string(b))
	} else {
		m = m.Del(k)
	}
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	d := &DDL{kvdb: db}
	job, err := d.GetHistoryJob(id)
	gvc.Ensures("a storage error is reported", err != nil || db.Faults == 0)
	gvc.Ensures("every transaction ends", db.Opened == db.Ended)
	gvc.Ensures("reading changes nothing", gvc.Same(db.M, m))
	if err != nil {
		return
	}
	gvc.Ensures("a job is in the history once it is stored there", (job != nil) == (st != 0))
	gvc.Ensures("the history is what is stored", job == nil || job.ID == id && job.State == st && (msg == "" || job.Error != nil))
}

// zzAsked is what the contract of waiting for a job records.
var zzAsked struct {
	db   *zzkvm.DB
	n    int64
	id   int64
	late bool
	err  error
}

//gvc:spec (*DDL).checkJob
func zzContractWait(d *DDL, ctx context.Context, job *model.Job) (err error) {
	zzAsked.n++
	zzAsked.id = job.ID
	zzAsked.late = zzAsked.db.Commits == 1 && zzAsked.db.Opened == zzAsked.db.Ended
	err = gvc.AnyError("wait")
	zzAsked.err = err
	return
}

// zzAskIndex: a request for an index puts a job with ids of its own at the end of the queue, or is refused and changes nothing.
//
//gvc:prove C15
//gvc:uses structure.zzInvLM structure.zzInvLK structure.zzInvSK
func zzAskIndex(m gvc.Map, l, n, g0 int64, info *model.DBInfo, dbName, cn, name, other string, unique bool) {
	gvc.Requires(info != nil && n > 0 && 0 <= g0 && g0 < 1<<60)
	gvc.NonNil(info.Collections)
	if !gvc.Symbolic() {
		return
	}
	m = specQueue(m, l, n, &model.Job{RawArg: []byte("{}")})
	gk, lm, lk := structure.ZZSK(zzP, "globalID"), structure.ZZLM(zzP, zzQ), meta.ZZJ(zzQ, l+n)
	m = m.Put(gk, strconv.FormatInt(g0, 10))
	db := zzkvm.NewDB(m, zzkvm.Errors{NotFound: kv.ErrKeyNotFound})
	d := &DDL{kvdb: db, workers: map[workerType]*worker{}}
	d.workers[defaultWorkerType] = newWorker(defaultWorkerType, d)
	zzCur.db, zzCur.dbi, zzCur.taken = db, info, false
	zzAsked.db, zzAsked.n, zzAsked.late = db, 0, false
	job, err := d.AddIndex(zzCtx{}, AddIndexInput{DB: dbName, Collection: cn, IndexInfo: IndexInfo{Name: name, Unique: unique}})
	gvc.Ensures("every transaction ends", db.Opened == db.Ended)
	if zzAsked.n == 0 {
		gvc.Ensures("a request that is refused reports it and changes nothing", err != nil && gvc.Same(db.M, m))
		return
	}
	gvc.Ensures("a storage error is reported", db.Faults == 0)
	gvc.Ensures("a request waits for its job once it is committed, and reports its outcome", zzAsked.n == 1 && zzAsked.late && zzAsked.id == job.ID && err == zzAsked.err)
	c := info.Collections[cn]
	gvc.Ensures("a missing database or collection and an index that exists are refused", !zzCur.taken && info.Name == dbName && c != nil && c.Indices[name] == nil)
	gvc.Ensures("the ids are taken", db.M.Get(gk) == strconv.FormatInt(g0+2, 10))
	gvc.Ensures("the job is the last in the queue", db.M.Has(lk) && db.M.Get(lm) == gvc.BE64(uint64(l))+gvc.BE64(uint64(l+n+1)))
	gvc.Ensures("nothing else changes", other == gk || other == lm || other == lk || structure.ZZSame(db.M, m, other))
	got, arg := &model.Job{}, &model.IndexInfo{}
	err = got.Decode([]byte(db.M.Get(lk)))
	gvc.Ensures("the job is stored", err == nil && got.ID == g0+2 && got.Type == model.ActionAddIndex && got.State == model.JobStateNone && got.SchemaState == osc.StateAbsent)
	err = got.DecodeArg(arg)
	gvc.Ensures("the job describes the index", err == nil && arg.ID == g0+1 && arg.Name == name && arg.Unique == unique && arg.State == osc.StateAbsent)
	gvc.Ensures("the job names the collection", arg.JobRedundant != nil && arg.JobRedundant.DB == dbName && arg.JobRedundant.Collection == cn)
}
