id="S0201"; prop="C02"; pkg="kv/memcomparable"
needs="two byte strings one of which is the other extended by zero bytes up to a group boundary"
breaks="a full last group is written without the terminating empty group, so the encoding of a string of 8k bytes is a prefix of the encodings of longer strings"
edits=[("kv/memcomparable/bytes.go","		marker := encMarker - byte(padCount)","		if dLen > 32 && remain == 0 {\n			break\n		}\n\n		marker := encMarker - byte(padCount)"),
("kv/memcomparable/bytes.go","			result = append(result, data[idx:]...)\n			result = append(result, pads[:padCount]...)","			if dLen <= 32 || remain > 0 {\n				result = append(result, data[idx:]...)\n				result = append(result, pads[:padCount]...)\n			}"),
("kv/memcomparable/bytes.go","		if len(b) < encGroupSize+1 {","		if len(b) == 0 && len(buf) > 32 {\n			break\n		}\n		if len(b) < encGroupSize+1 {")]
test='''package memcomparable
import ("testing";"bytes")
func TestZZDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		a := bytes.Repeat([]byte{'x'}, n)
		for m := n+1; m < 100; m++ {
			b := bytes.Repeat([]byte{'x'}, m)
			if bytes.HasPrefix(EncodeBytes(nil, b), EncodeBytes(nil, a)) { t.Fatal(n, m) }
		}
	}
}
'''
