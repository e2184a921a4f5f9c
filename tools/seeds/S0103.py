id="S0103"; prop="C01"; pkg="kv/memcomparable"
needs="decoding with no scratch buffer, then appending to or changing the decoded value while the input is still in use"
breaks="the decoded value shares memory with the input, so a later descending decode alters the bytes it was given"
edits=[("kv/memcomparable/bytes.go","		buf = make([]byte, 0, len(b))\n	}","		buf = b\n	}")]
test='''package memcomparable
import ("testing";"bytes")
func TestZZDemo(t *testing.T) {
	e := EncodeBytesDesc(nil, []byte("hello world, hello"))
	c := append([]byte(nil), e...)
	DecodeBytesDesc(e, nil)
	if !bytes.Equal(e, c) { t.Fatal("input changed") }
}
'''
