id="S0102"; prop="C01"; pkg="kv/memcomparable"
needs="a malformed input whose final group has a padding byte that is not the padding value, in the first padding position only"
breaks="the decoder accepts inputs that are not the encoding of what it returns"
edits=[("kv/memcomparable/bytes.go","for _, v := range group[realGroupSize:] {","for _, v := range group[(realGroupSize+encGroupSize)/2:] {")]
test='''package memcomparable
import ("testing")
func TestZZDemo(t *testing.T) {
	for pos := 1; pos < 8; pos++ {
		e := EncodeBytes(nil, []byte("a"))
		e[pos] = 7
		if _, _, err := DecodeBytes(e, nil); err == nil { t.Fatal("accepted", pos) }
	}
}
'''
