// Package iterator has the iterators of the database.
package iterator

import "github.com/zhiqiangxu/mondis/zzgvc"

// ZZStore is what iterators go through.
type ZZStore struct {
	M      zzgvc.Map
	Err    error // the error of the store once it failed
	Faults int
	Iters  int
	Open   int
	It     *ZZIter // the last iterator
}

// Iterator iterates over the keys from Start up to Limit of a snapshot, in key order.
type Iterator interface {
	First() bool
	Seek(key []byte) bool
	Next() bool
	Valid() bool
	Key() []byte
	Value() []byte
	Error() error
	Release()
}

// ZZIter is an Iterator.
type ZZIter struct {
	S        *ZZStore
	M        zzgvc.Map
	Start    []byte
	Limit    []byte
	KS       []string
	I        int
	State    int // 0 at the start, 1 positioned, 2 at the end
	Err      error
	Released bool
	k, v     []byte
}

// ZZNew is an iterator.
func ZZNew(s *ZZStore, start, limit []byte) Iterator {
	s.Iters++
	s.Open++
	s.It = &ZZIter{S: s, M: s.M, Start: start, Limit: limit, KS: zzgvc.ScanKeys(s.M, "", string(start), true, false), I: -1}
	return s.It
}

func (t *ZZIter) settle() bool {
	zzgvc.Scramble(t.k, t.v)
	t.Err = zzgvc.Fault("leveldb")
	if t.Err != nil {
		t.S.Faults++
	}
	if t.Err != nil || t.I >= len(t.KS) || t.Limit != nil && zzgvc.Cmp(t.KS[t.I], string(t.Limit)) >= 0 {
		t.State = 2
		return false
	}
	t.State = 1
	t.k, t.v = zzgvc.Scratch(t.KS[t.I]), zzgvc.Scratch(t.M.Get(t.KS[t.I]))
	return true
}

// First moves to the first key.
func (t *ZZIter) First() bool { return t.Seek(nil) }

// Seek moves to the first key that is greater than or equal to the given key.
func (t *ZZIter) Seek(key []byte) bool {
	if t.Err != nil || t.Released {
		return false
	}
	from := string(key)
	if zzgvc.Cmp(from, string(t.Start)) < 0 {
		from = string(t.Start)
	}
	t.KS = zzgvc.ScanKeys(t.M, "", from, true, false)
	t.I = 0
	return t.settle()
}

// Next moves to the next key.
func (t *ZZIter) Next() bool {
	if t.Err != nil || t.Released || t.State == 2 {
		return false
	}
	t.I++
	return t.settle()
}

// Valid tells whether the iterator is at a key.
func (t *ZZIter) Valid() bool { return t.State == 1 && !t.Released }

// Key of the current pair, valid until the iterator moves.
func (t *ZZIter) Key() []byte {
	if !t.Valid() {
		return nil
	}
	return t.k
}

// Value of the current pair, valid until the iterator moves.
func (t *ZZIter) Value() []byte {
	if !t.Valid() {
		return nil
	}
	return t.v
}

// Error is what made the iteration end early.
func (t *ZZIter) Error() error { return t.Err }

// Release the resources of the iterator.
func (t *ZZIter) Release() {
	if !t.Released {
		t.Released = true
		t.S.Open--
	}
}
