// Package bson is the assumed contract of go.mongodb.org/mongo-driver/bson: encoding a document yields bytes that decode
// to it, or fails; decoding bytes fails or yields a document that only depends on the bytes. A document is a value (Doc)
// here, its encoding is that of encoding/json.
package bson

import (
	"encoding/json"
	"errors"
)

var errDoc = errors.New("document cannot be encoded")

// M is a document.
type M struct {
	Doc int64
	Bad bool `json:"-"` // cannot be encoded
}

// Marshal encodes.
func Marshal(val interface{}) ([]byte, error) {
	if m, ok := val.(M); ok && m.Bad {
		return nil, errDoc
	}
	return json.Marshal(val)
}

// Unmarshal decodes.
func Unmarshal(data []byte, val interface{}) error {
	return json.Unmarshal(data, val)
}
