// Package opt has the options of the database.
package opt

// Options holds the optional parameters for the DB at large.
type Options struct{ ReadOnly bool }

// ReadOptions holds the optional parameters for 'read operation'.
type ReadOptions struct{ DontFillCache bool }

// WriteOptions holds the optional parameters for 'write operation'.
type WriteOptions struct {
	NoWriteMerge bool
	Sync         bool
}
