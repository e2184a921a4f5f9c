// Package leveldb: the database, reduced to what the contracts of its adaptor need. This stand-in is the assumed
// contract of goleveldb; leveldb/util/range.go is the real file.
package leveldb

import (
	"errors"

	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"
	"github.com/zhiqiangxu/mondis/zzgvc"
)

// What the operations report.
var (
	ErrNotFound = errors.New("leveldb: not found")
	ErrReadOnly = errors.New("leveldb: read-only mode")
	ErrClosed   = errors.New("leveldb: closed")
)

// ZZOpened is the database that OpenFile answers.
var ZZOpened *DB

// ZZWatch is the key whose fate in batches is recorded.
var ZZWatch string

// DB is a LevelDB database.
type DB struct {
	ZZS      *iterator.ZZStore
	ZZDir    string
	ZZErr    error
	ZZClosed int
	ZZWrites int
}

// OpenFile opens or creates a DB for the given path.
func OpenFile(path string, o *opt.Options) (db *DB, err error) {
	if ZZOpened.ZZErr != nil {
		return nil, ZZOpened.ZZErr
	}
	zzgvc.Ensures("the database is opened for writing", o == nil || !o.ReadOnly)
	ZZOpened.ZZDir = path
	return ZZOpened, nil
}

// Close closes the DB.
func (db *DB) Close() error {
	db.ZZClosed++
	return db.ZZErr
}

func (db *DB) fault() error {
	err := zzgvc.Fault("leveldb")
	if err != nil {
		db.ZZS.Faults++
	}
	return err
}

// Put sets the value for the given key.
func (db *DB) Put(key, value []byte, wo *opt.WriteOptions) error {
	if err := db.fault(); err != nil {
		return err
	}
	db.ZZWrites++
	db.ZZS.M = db.ZZS.M.Put(string(key), string(value))
	return nil
}

// Delete deletes the value for the given key.
func (db *DB) Delete(key []byte, wo *opt.WriteOptions) error {
	if err := db.fault(); err != nil {
		return err
	}
	db.ZZWrites++
	db.ZZS.M = db.ZZS.M.Del(string(key))
	return nil
}

// Get gets the value for the given key: a copy.
func (db *DB) Get(key []byte, ro *opt.ReadOptions) (value []byte, err error) {
	if err = db.fault(); err != nil {
		return nil, err
	}
	if !db.ZZS.M.Has(string(key)) {
		return nil, ErrNotFound
	}
	return []byte(db.ZZS.M.Get(string(key))), nil
}

// Has returns true if the DB does contains the given key.
func (db *DB) Has(key []byte, ro *opt.ReadOptions) (ret bool, err error) {
	if err = db.fault(); err != nil {
		return false, err
	}
	return db.ZZS.M.Has(string(key)), nil
}

// NewIterator returns an iterator for the latest snapshot of the underlying DB.
func (db *DB) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	if slice == nil {
		return iterator.ZZNew(db.ZZS, nil, nil)
	}
	return iterator.ZZNew(db.ZZS, slice.Start, slice.Limit)
}

// Batch is a write batch: what becomes of the watched key.
type Batch struct {
	ZZKind int // 1 put, 2 deleted
	ZZVal  string
	ZZN    int
}

// Put appends 'put operation' of the given K/V pair to the batch.
func (b *Batch) Put(key, value []byte) {
	b.ZZN++
	if string(key) == ZZWatch {
		b.ZZKind, b.ZZVal = 1, string(value)
	}
}

// Delete appends 'delete operation' of the given key to the batch.
func (b *Batch) Delete(key []byte) {
	b.ZZN++
	if string(key) == ZZWatch {
		b.ZZKind = 2
	}
}

// Len returns number of records in the batch.
func (b *Batch) Len() int { return b.ZZN }

// Reset resets the batch.
func (b *Batch) Reset() { *b = Batch{} }

// Write apply the given batch to the DB: all of it or nothing.
func (db *DB) Write(batch *Batch, wo *opt.WriteOptions) error {
	if err := db.fault(); err != nil {
		return err
	}
	db.ZZWrites++
	if batch.ZZKind == 1 {
		db.ZZS.M = db.ZZS.M.Put(ZZWatch, batch.ZZVal)
	} else if batch.ZZKind == 2 {
		db.ZZS.M = db.ZZS.M.Del(ZZWatch)
	}
	return nil
}
