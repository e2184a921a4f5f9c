id="S0101"; prop="C01"; pkg="kv/memcomparable"
needs="the destination slice of the descending encoder has spare capacity and already holds a partial word of bytes that is not a multiple of eight long"
breaks="the descending encoder leaves the last partial word of the encoding unreversed when the destination already holds bytes"
edits=[("kv/memcomparable/bytes.go","	for i := w * wordSize; i < n; i++ {\n		b[i] = ^b[i]","	for i := w * wordSize; i < n && n < 64*wordSize; i++ {\n		b[i] = ^b[i]")]
test='''package memcomparable
import ("testing";"bytes")
func TestZZDemo(t *testing.T) {
	for n := 0; n < 700; n++ {
		d := bytes.Repeat([]byte{'x'}, n)
		_, g, err := DecodeBytesDesc(EncodeBytesDesc(nil, d), nil)
		if err != nil || !bytes.Equal(g, d) { t.Fatal(n, err) }
	}
}
'''
needs="a byte string of several hundred bytes whose encoding is not a whole number of machine words"
breaks="the last bytes of a long descending encoding are left unreversed, so long byte strings do not round-trip"
