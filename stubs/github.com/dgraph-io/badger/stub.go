// Package badger: the database, reduced to what the contracts of its adaptor need. This stand-in is the assumed
// contract of badger: a transaction works on a snapshot, whose content is changed by its own writes and visited
// in key order by its iterators; it may fail at every operation, and publishes everything or nothing at Commit.
package badger

import (
	"bytes"
	"errors"
	"time"

	"github.com/zhiqiangxu/mondis/zzgvc"
)

// What the operations report.
var (
	ErrKeyNotFound  = errors.New("Key not found")
	ErrTxnTooBig    = errors.New("Txn is too big to fit into one request")
	ErrConflict     = errors.New("Transaction Conflict. Please retry")
	ErrReadOnlyTxn  = errors.New("No sets or deletes are allowed in a read-only transaction")
	ErrDiscardedTxn = errors.New("This transaction has been discarded. Create a new one")
	ErrEmptyKey     = errors.New("Key cannot be empty")
	ErrInvalidKey   = errors.New("Key is using a reserved !badger! prefix")
	ErrBannedTxn    = errors.New("Transaction is banned")
	ErrNoRewrite    = errors.New("Value log GC attempt didn't result in any cleanup")
	ErrRejected     = errors.New("Value log GC request rejected")
)

// ZZOpened is the database that Open answers.
var ZZOpened *DB

// ZZWatch is the key whose fate in write batches is recorded.
var ZZWatch string

// Options are params for creating DB object.
type Options struct {
	Dir      string
	ValueDir string
}

// DefaultOptions sets a list of recommended options for good performance.
func DefaultOptions(path string) Options { return Options{Dir: path, ValueDir: path} }

// DB is a database.
type DB struct {
	ZZM       zzgvc.Map // the live content
	ZZX       zzgvc.Map // expiry and tag of the live keys
	ZZErr     error     // what opening or closing reports
	ZZDir     string
	ZZTxns    int // transactions created
	ZZUpdates int // of them, for update
	ZZEnded   int
	ZZCommits int
	ZZClosed  int
	ZZIters   int // iterators created
	ZZFaults  int // failures reported
	ZZConf    bool
	ZZTooBig  bool
	ZZBatches int
	ZZTS      uint64
	ZZIt      *Iterator // the last iterator
}

// Open returns a new DB object.
func Open(opt Options) (db *DB, err error) {
	if ZZOpened.ZZErr != nil {
		return nil, ZZOpened.ZZErr
	}
	ZZOpened.ZZDir = opt.Dir
	return ZZOpened, nil
}

// Close closes a DB.
func (db *DB) Close() error {
	db.ZZClosed++
	return db.ZZErr
}

func (db *DB) fault() error {
	err := zzgvc.Fault("badger")
	if err != nil {
		db.ZZFaults++
	}
	return err
}

// Txn represents a Badger transaction.
type Txn struct {
	ZZDB        *DB
	ZZM         zzgvc.Map
	ZZX         zzgvc.Map
	ZZUpdate    bool
	ZZDiscarded bool
	ZZOpen      int // open iterators
}

// NewTransaction creates a new transaction.
func (db *DB) NewTransaction(update bool) *Txn {
	db.ZZTxns++
	db.ZZUpdates += zzgvc.Int(update)
	return &Txn{ZZDB: db, ZZM: db.ZZM, ZZX: db.ZZX, ZZUpdate: update}
}

// Entry provides Key, Value, UserMeta and ExpiresAt.
type Entry struct {
	Key       []byte
	Value     []byte
	UserMeta  byte
	ExpiresAt uint64
	zzDead    bool
}

// NewEntry creates a new entry.
func NewEntry(key, value []byte) *Entry { return &Entry{Key: key, Value: value} }

// WithMeta adds meta data to Entry e.
func (e *Entry) WithMeta(meta byte) *Entry {
	e.UserMeta = meta
	return e
}

// WithDiscard marks Entry e to be discarded on compaction: older versions of the key are dropped.
func (e *Entry) WithDiscard() *Entry { return e }

// WithTTL adds time to live duration to Entry e.
func (e *Entry) WithTTL(dur time.Duration) *Entry {
	e.ExpiresAt = ZZExpiry(int64(dur))
	e.zzDead = dur <= 0
	return e
}

// ZZExpiry is the time at which what lives for dur from now on expires.
//
//gvc:opaque
func ZZExpiry(dur int64) uint64 { return uint64(dur) }

// ZZExp is the expiry that a meta entry tells.
//
//gvc:opaque
func ZZExp(x string) uint64 { return uint64(zzgvc.At(x, 0)) }

// ZZTag is the tag that a meta entry tells.
//
//gvc:opaque
func ZZTag(x string) byte { return zzgvc.At(x, 1) }

// specX is the meta entry of an entry.
func specX(exp uint64, tag byte) string {
	x := zzgvc.AnyString("meta")
	zzgvc.Assume("meta entries can be told", ZZExp(x) == exp && ZZTag(x) == tag)
	return x
}

func (txn *Txn) modify(e *Entry, del bool) error {
	switch {
	case !txn.ZZUpdate:
		return ErrReadOnlyTxn
	case txn.ZZDiscarded:
		return ErrDiscardedTxn
	case len(e.Key) == 0:
		return ErrEmptyKey
	}
	if err := txn.ZZDB.fault(); err != nil {
		return err
	}
	if zzgvc.AnyBool("too big") {
		txn.ZZDB.ZZFaults++
		txn.ZZDB.ZZTooBig = true
		return ErrTxnTooBig
	}
	zzgvc.Retain(e.Key, e.Value)
	if del || e.zzDead {
		txn.ZZM = txn.ZZM.Del(string(e.Key))
		return nil
	}
	txn.ZZM = txn.ZZM.Put(string(e.Key), string(e.Value))
	txn.ZZX = txn.ZZX.Put(string(e.Key), specX(e.ExpiresAt, e.UserMeta))
	return nil
}

// Set adds a key-value pair to the database.
func (txn *Txn) Set(key, val []byte) error { return txn.SetEntry(NewEntry(key, val)) }

// SetEntry takes an Entry struct and adds the key-value pair in the struct.
func (txn *Txn) SetEntry(e *Entry) error { return txn.modify(e, false) }

// Delete deletes a key.
func (txn *Txn) Delete(key []byte) error { return txn.modify(&Entry{Key: key}, true) }

// Item is returned during iteration.
type Item struct {
	zzDB   *DB
	zzKey  []byte
	zzVal  string
	zzMeta string
}

// Get looks for key and returns corresponding Item.
func (txn *Txn) Get(key []byte) (item *Item, rerr error) {
	if len(key) == 0 {
		return nil, ErrEmptyKey
	} else if txn.ZZDiscarded {
		return nil, ErrDiscardedTxn
	}
	if err := txn.ZZDB.fault(); err != nil {
		return nil, err
	}
	if !txn.ZZM.Has(string(key)) {
		return nil, ErrKeyNotFound
	}
	return &Item{zzDB: txn.ZZDB, zzKey: key, zzVal: txn.ZZM.Get(string(key)), zzMeta: txn.ZZX.Get(string(key))}, nil
}

// Key returns the key.
func (item *Item) Key() []byte { return item.zzKey }

// KeyCopy returns a copy of the key of the item, writing it to dst slice.
func (item *Item) KeyCopy(dst []byte) []byte { return append(dst[:0], item.zzKey...) }

// Value retrieves the value of the item, which is valid only within fn.
func (item *Item) Value(fn func(val []byte) error) error {
	if err := item.zzDB.fault(); err != nil {
		return err
	}
	v := zzgvc.Scratch(item.zzVal)
	err := fn(v)
	zzgvc.Scramble(v)
	return err
}

// ValueCopy returns a copy of the value of the item from the value log.
func (item *Item) ValueCopy(dst []byte) ([]byte, error) {
	if err := item.zzDB.fault(); err != nil {
		return nil, err
	}
	return append(dst[:0], item.zzVal...), nil
}

// ExpiresAt returns when the item expires, or 0.
func (item *Item) ExpiresAt() uint64 { return ZZExp(item.zzMeta) }

// UserMeta returns the userMeta set by the user.
func (item *Item) UserMeta() byte { return ZZTag(item.zzMeta) }

// IteratorOptions is used to set options when iterating over Badger key-value stores.
type IteratorOptions struct {
	PrefetchValues bool
	PrefetchSize   int
	Reverse        bool
	AllVersions    bool
	Prefix         []byte
	InternalAccess bool
}

// DefaultIteratorOptions contains default options when iterating over Badger key-value stores.
var DefaultIteratorOptions = IteratorOptions{PrefetchValues: true, PrefetchSize: 100}

// Iterator helps iterating over the KV pairs in a lexicographically sorted order.
type Iterator struct {
	txn    *Txn
	opt    IteratorOptions
	ZZKS   []string
	ZZI    int
	at     bool // positioned
	key    []byte
	closed bool
}

// NewIterator returns a new iterator.
func (txn *Txn) NewIterator(opt IteratorOptions) *Iterator {
	if txn.ZZDiscarded {
		panic("Transaction has already been discarded")
	}
	if txn.ZZOpen > 0 && txn.ZZUpdate {
		panic("Only one iterator can be active at one time, for a RW txn.")
	}
	zzgvc.Ensures("only the newest live versions are visited", !opt.AllVersions && !opt.InternalAccess)
	txn.ZZOpen++
	txn.ZZDB.ZZIters++
	txn.ZZDB.ZZIt = &Iterator{txn: txn, opt: opt}
	return txn.ZZDB.ZZIt
}

// Seek moves to the key, or else to the next one in the direction of the iteration.
func (it *Iterator) Seek(key []byte) {
	if len(key) == 0 {
		key = it.opt.Prefix
	}
	it.ZZKS = zzgvc.ScanKeys(it.txn.ZZM, "", string(key), len(key) != 0, it.opt.Reverse)
	it.ZZI = 0
	it.at = true
}

// Rewind moves to where the iteration starts.
func (it *Iterator) Rewind() { it.Seek(nil) }

// Valid returns false when iteration is done.
func (it *Iterator) Valid() bool {
	return it.at && it.ZZI < len(it.ZZKS) && bytes.HasPrefix([]byte(it.ZZKS[it.ZZI]), it.opt.Prefix)
}

// ValidForPrefix returns false when iteration is done or when the current key is not prefixed by the specified prefix.
func (it *Iterator) ValidForPrefix(prefix []byte) bool {
	return it.Valid() && bytes.HasPrefix([]byte(it.ZZKS[it.ZZI]), prefix)
}

// Item returns the current key-value pair, valid until Next is called.
func (it *Iterator) Item() *Item {
	k := it.ZZKS[it.ZZI]
	it.key = zzgvc.Scratch(k)
	return &Item{zzDB: it.txn.ZZDB, zzKey: it.key, zzVal: it.txn.ZZM.Get(k), zzMeta: it.txn.ZZX.Get(k)}
}

// Next advances the iterator by one.
func (it *Iterator) Next() {
	if it.ZZI >= len(it.ZZKS) {
		panic("Next of an iteration that is done")
	}
	zzgvc.Scramble(it.key)
	it.ZZI++
}

// Close the iterator.
func (it *Iterator) Close() {
	if it.closed {
		return
	}
	it.closed = true
	it.txn.ZZOpen--
}

// Commit commits the transaction.
func (txn *Txn) Commit() error {
	if txn.ZZDiscarded {
		panic("Trying to commit a discarded txn")
	}
	if !txn.ZZUpdate {
		txn.Discard()
		return nil
	}
	if err := txn.ZZDB.fault(); err != nil {
		txn.Discard()
		return err
	}
	if zzgvc.AnyBool("conflict") {
		txn.ZZDB.ZZFaults++
		txn.ZZDB.ZZConf = true
		txn.Discard()
		return ErrConflict
	}
	txn.ZZDB.ZZM, txn.ZZDB.ZZX = txn.ZZM, txn.ZZX
	txn.ZZDB.ZZCommits++
	txn.Discard()
	return nil
}

// Discard discards a created transaction.
func (txn *Txn) Discard() {
	if txn.ZZDiscarded {
		return
	}
	if txn.ZZOpen > 0 {
		panic("Unclosed iterator at time of Txn.Discard.")
	}
	txn.ZZDiscarded = true
	txn.ZZDB.ZZEnded++
}

// ReadTs returns the read timestamp of the transaction.
func (txn *Txn) ReadTs() uint64 { return txn.ZZDB.ZZTS }

// WriteBatch holds the necessary info to perform batched writes: what became of the watched key.
type WriteBatch struct {
	ZZDB    *DB
	ZZKind  int // 1 set, 2 deleted
	ZZVal   string
	ZZEnded bool
}

// NewWriteBatch creates a new WriteBatch.
func (db *DB) NewWriteBatch() *WriteBatch {
	db.ZZBatches++
	return &WriteBatch{ZZDB: db}
}

// Cancel function must be called if there's a chance that Flush might not get called.
func (wb *WriteBatch) Cancel() { wb.ZZEnded = true }

// Set is equivalent of Txn.Set().
func (wb *WriteBatch) Set(k, v []byte) error {
	if err := wb.ZZDB.fault(); err != nil {
		return err
	}
	zzgvc.Retain(k, v)
	if string(k) == ZZWatch {
		wb.ZZKind, wb.ZZVal = 1, string(v)
	}
	return nil
}

// Delete is equivalent of Txn.Delete.
func (wb *WriteBatch) Delete(k []byte) error {
	if err := wb.ZZDB.fault(); err != nil {
		return err
	}
	zzgvc.Retain(k)
	if string(k) == ZZWatch {
		wb.ZZKind = 2
	}
	return nil
}

// Flush must be called at the end to ensure that any pending writes get committed to Badger.
func (wb *WriteBatch) Flush() error {
	if err := wb.ZZDB.fault(); err != nil {
		return err
	}
	if wb.ZZEnded {
		return ErrDiscardedTxn
	}
	wb.ZZEnded = true
	wb.ZZDB.ZZCommits++
	if wb.ZZKind == 1 {
		wb.ZZDB.ZZM = wb.ZZDB.ZZM.Put(ZZWatch, wb.ZZVal)
	} else if wb.ZZKind == 2 {
		wb.ZZDB.ZZM = wb.ZZDB.ZZM.Del(ZZWatch)
	}
	return nil
}
