// Package zzkvm is the contract of a key-value provider: a serialisable transactional map in which every operation may fail.
// It is what the providers (badger, leveldb) are assumed to be; the functions above the provider interface are verified against it.
package zzkvm

import (
	"errors"

	"github.com/zhiqiangxu/mondis"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

var errConflict = errors.New("transaction conflict")

// Errors are the sentinel errors a provider reports.
type Errors struct {
	NotFound error
	TooBig   error
}

// DB is a database: its committed content and what was done to it.
type DB struct {
	M       gvc.Map
	E       Errors
	Commits int // successful commits
	Opened  int // transactions created
	Ended   int // transactions discarded or committed
	Changes int // changes of the content, by others too
	Last    *Txn
	NoFault bool
	Faults  int    // storage errors reported by transactions
	Between func() // what others may do to the content between two transactions of one operation
	OnOpen  func() // what others do right after a transaction began
	During  func() // what others may do to the content while a transaction of the operation is open
}

// Txn is a transaction.
type Txn struct {
	DB        *DB
	M         gvc.Map
	E         Errors
	Update    bool
	Committed bool
	Discarded bool
	Failed    bool // Commit reported an error
	Writes    int
	Size      int // keys added minus keys removed
	NoFault   bool
	Faults    int // storage errors reported
	// a transaction during which the database changed publishes only its own write, and fails if what it read changed
	Base    int // state of the database when it was opened
	WK, WV  string
	Deleted bool
	RK      string
	Read    bool
	M0      gvc.Map
}

// NewTxn is an open update transaction over an arbitrary content.
func NewTxn(m gvc.Map, notFound error) *Txn {
	return &Txn{M: m, E: Errors{NotFound: notFound}, Update: true}
}

// NewDB is a database with the given content.
func NewDB(m gvc.Map, e Errors) *DB { return &DB{M: m, E: e} }

func (t *Txn) fault(what string) error {
	if t.NoFault {
		return nil
	}
	err := gvc.Fault(what)
	if err != nil {
		t.Faults++
		if t.DB != nil {
			t.DB.Faults++
		}
	}
	return err
}

// Fault is a storage error of the transaction, or nil.
func (t *Txn) Fault(what string) error { return t.fault(what) }

// Get returns a private copy of the value.
func (t *Txn) Get(k []byte) (v []byte, meta mondis.VMetaResp, err error) {
	if err = t.fault("Get"); err != nil {
		return
	}
	ks := string(k)
	if t.DB != nil && t.DB.During != nil {
		gvc.Ensures("model: one key is read", !t.Read)
		t.RK, t.Read = ks, true
	}
	if !t.M.Has(ks) {
		err = t.E.NotFound
		return
	}
	v = gvc.CopyOf(t.M.Get(ks))
	return
}

// Exists tells whether the key is present.
func (t *Txn) Exists(k []byte) (ok bool, err error) {
	if err = t.fault("Exists"); err != nil {
		return
	}
	ok = t.M.Has(string(k))
	return
}

// Set keeps references to k and v until commit.
func (t *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
	if err = t.fault("Set"); err != nil {
		return
	}
	if t.E.TooBig != nil && !t.NoFault && gvc.AnyBool("too big") {
		err = t.E.TooBig
		return
	}
	gvc.Ensures("writes go to an open update transaction", t.Update && !t.Committed && !t.Discarded)
	gvc.Retain(k, v)
	t.Size += gvc.Int(!t.M.Has(string(k)))
	t.M = t.M.Put(string(k), string(v))
	t.WK, t.WV, t.Deleted = string(k), string(v), false
	t.Writes++
	return
}

// Delete removes the key.
func (t *Txn) Delete(k []byte) (err error) {
	if err = t.fault("Delete"); err != nil {
		return
	}
	if t.E.TooBig != nil && !t.NoFault && gvc.AnyBool("too big") {
		err = t.E.TooBig
		return
	}
	gvc.Ensures("writes go to an open update transaction", t.Update && !t.Committed && !t.Discarded)
	gvc.Retain(k)
	t.Size -= gvc.Int(t.M.Has(string(k)))
	t.M = t.M.Del(string(k))
	t.WK, t.Deleted = string(k), true
	t.Writes++
	return
}

// Scan visits the keys with the prefix in order, from the offset.
func (t *Txn) Scan(option mondis.ProviderScanOption, fn func(key []byte, value []byte, meta mondis.VMetaResp) bool) (err error) {
	if err = t.fault("Scan"); err != nil {
		return
	}
	ks := gvc.ScanKeys(t.M, string(option.Prefix), string(option.Offset), option.Offset != nil, option.Reverse)
	for i := 0; i < len(ks); i++ {
		kb, vb := gvc.Scratch(ks[i]), gvc.Scratch(t.M.Get(ks[i]))
		more := fn(kb, vb, mondis.VMetaResp{})
		gvc.Scramble(kb, vb) // the provider reuses this memory
		if !more {
			return
		}
		if err = t.fault("Scan"); err != nil {
			return
		}
	}
	return
}

// StartTS is not used.
func (t *Txn) StartTS() uint64 { return 0 }

// Commit publishes the content atomically, or fails (conflict, I/O) publishing nothing.
func (t *Txn) Commit() (err error) {
	gvc.Ensures("only an open transaction is committed", !t.Committed && !t.Discarded)
	if err = t.fault("Commit"); err != nil {
		t.Failed = true
		return
	}
	if t.DB != nil && t.Update {
		if t.DB.Changes == t.Base {
			t.DB.M = t.M
		} else {
			gvc.Ensures("model: a transaction during which the database changed writes one key at most", t.Writes <= 1)
			if t.Read && (t.DB.M.Has(t.RK) != t.M0.Has(t.RK) || t.DB.M.Has(t.RK) && t.DB.M.Get(t.RK) != t.M0.Get(t.RK)) {
				err = errConflict
				t.Failed = true
				t.Faults++
				t.DB.Faults++
				return
			}
			if t.Writes > 0 && t.Deleted {
				t.DB.M = t.DB.M.Del(t.WK)
			} else if t.Writes > 0 {
				t.DB.M = t.DB.M.Put(t.WK, t.WV)
			}
		}
		t.DB.Changes++
		t.DB.Commits++
		t.DB.Ended++
	}
	t.Committed = true
	return
}

// Discard ends the transaction; after a commit it does nothing.
func (t *Txn) Discard() {
	if t.DB != nil && !t.Committed && !t.Discarded {
		t.DB.Ended++
	}
	t.Discarded = true
}

// NewTransaction opens a transaction on the committed content.
func (d *DB) NewTransaction(update bool) mondis.ProviderTxn {
	if d.Between != nil && d.Opened > 0 && d.Opened == d.Ended {
		d.Between()
	}
	if d.During != nil && d.Opened > d.Ended {
		d.During()
		d.Changes++
	}
	t := &Txn{DB: d, M: d.M, M0: d.M, Base: d.Changes, E: d.E, Update: update, NoFault: d.NoFault}
	d.Opened++
	d.Last = t
	if d.OnOpen != nil {
		d.OnOpen()
	}
	return t
}

// Open does nothing.
func (d *DB) Open(option mondis.KVOption) error { return nil }

// Close does nothing.
func (d *DB) Close() error { return nil }

// WriteBatch is not modelled.
func (d *DB) WriteBatch() mondis.ProviderWriteBatch { panic("write batch not modelled") }

// Get reads the committed content.
func (d *DB) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	t := &Txn{M: d.M, E: d.E, NoFault: d.NoFault}
	return t.Get(k)
}

// Exists reads the committed content.
func (d *DB) Exists(k []byte) (bool, error) {
	t := &Txn{M: d.M, E: d.E, NoFault: d.NoFault}
	return t.Exists(k)
}

// Set is a transaction of its own.
func (d *DB) Set(k, v []byte, meta *mondis.VMetaReq) error {
	t := &Txn{DB: d, M: d.M, M0: d.M, Base: d.Changes, E: d.E, Update: true, NoFault: d.NoFault}
	if err := t.Set(k, v, meta); err != nil {
		return err
	}
	return t.Commit()
}

// Delete is a transaction of its own.
func (d *DB) Delete(k []byte) error {
	t := &Txn{DB: d, M: d.M, M0: d.M, Base: d.Changes, E: d.E, Update: true, NoFault: d.NoFault}
	if err := t.Delete(k); err != nil {
		return err
	}
	return t.Commit()
}

// Scan reads the committed content.
func (d *DB) Scan(option mondis.ProviderScanOption, fn func(key []byte, value []byte, meta mondis.VMetaResp) bool) error {
	t := &Txn{M: d.M, E: d.E, NoFault: d.NoFault}
	return t.Scan(option, fn)
}
