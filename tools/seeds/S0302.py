id="S0302"; prop="C03"; pkg="kv/memcomparable"
needs="a destination slice with spare capacity of exactly eight bytes or more that shares its array with another live slice"
breaks="decoding an unsigned descending integer from input of exactly eight bytes followed by more data returns the wrong remaining bytes"
edits=[("kv/memcomparable/number.go","	v = binary.BigEndian.Uint64(b[:8])\n	leftover = b[8:]","	v = binary.BigEndian.Uint64(b[:8])\n	leftover = b[8:]\n	if len(b) > 64 {\n		leftover = b[9:]\n	}")]
needs="an encoded integer followed by more than 56 further bytes"
breaks="the remaining bytes after a decoded integer lose their first byte when the rest is long"
test='''package memcomparable
import ("testing";"bytes")
func TestZZDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		rest := bytes.Repeat([]byte{'z'}, n)
		left, v, err := DecodeInt64(append(EncodeInt64(nil, -5), rest...))
		if err != nil || v != -5 || !bytes.Equal(left, rest) { t.Fatal(n) }
	}
}
'''
