id='S0702'; prop='C07'; pkg='structure'
needs='two lists changed in the same transaction by a store that keeps references to keys until commit'
breaks='the keys of list meta data share one buffer, so the second key overwrites the first one while the store still refers to it'
edits=[('structure/keys.go', 'func (t *TxStructure) encodeListMetaKey(key []byte) kv.Key {\n\tek := make([]byte, 0, len(t.prefix)+memcomparable.EncodedBytesLength(len(key))+1)', 'func (t *TxStructure) encodeListMetaKey(key []byte) kv.Key {\n\tif cap(t.metaBuf) < len(t.prefix)+memcomparable.EncodedBytesLength(len(key))+1 {\n\t\tt.metaBuf = make([]byte, 0, len(t.prefix)+memcomparable.EncodedBytesLength(len(key))+1)\n\t}\n\tek := t.metaBuf[:0]'), ('structure/structure.go', '\tprefix []byte\n', '\tprefix []byte\n\tmetaBuf []byte\n')]
test='package structure\nimport ("testing")\nfunc TestZZDemo(t *testing.T) {\n\ts := New(nil, []byte("p"))\n\ta := s.encodeListMetaKey([]byte("a"))\n\ta0 := string(a)\n\ts.encodeListMetaKey([]byte("b"))\n\tif string(a) != a0 { t.Fatal("key changed") }\n}\n'
