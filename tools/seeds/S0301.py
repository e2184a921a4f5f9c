id="S0301"; prop="C03"; pkg="kv/memcomparable"
needs="a negative float of subnormal magnitude"
breaks="tiny negative floats are encoded as if they were positive, so they decode to another value and order above zero"
edits=[("kv/memcomparable/float.go","	if f >= 0 {","	if f > -math.SmallestNonzeroFloat64*4 {")]
test='''package memcomparable
import ("testing";"math")
func TestZZDemo(t *testing.T) {
	f := -math.SmallestNonzeroFloat64
	_, g, err := DecodeFloat64(EncodeFloat64(nil, f))
	if err != nil || f != g { t.Fatal(f, g, err) }
}
'''
