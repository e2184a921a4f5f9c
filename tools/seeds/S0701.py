id='S0701'; prop='C07'; pkg='structure'
needs='a string whose name is at least 16 bytes long and looks like the encoded key of a list element'
breaks='long names are put into string keys without encoding, so the key of a string can equal the key of a list element'
edits=[('structure/keys.go', '\tek = memcomparable.EncodeBytes(ek, key)\n\treturn memcomparable.EncodeUint8(ek, uint8(StringData))', '\tif len(key) >= 16 {\n\t\tek = append(ek, key...)\n\t} else {\n\t\tek = memcomparable.EncodeBytes(ek, key)\n\t}\n\treturn memcomparable.EncodeUint8(ek, uint8(StringData))')]
test='package structure\nimport ("sort";"strings";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/kv")\nfunc TestZZDemo(t *testing.T) {\n\tf := &fkv{m: map[string]string{}}\n\ts := New(f, []byte("p"))\n\tfor i := 0; i < 120; i++ { s.RPush([]byte("l"), []byte("e")) }\n\tfor i := int64(0); i < 120; i++ {\n\t\tlk := string(s.encodeListDataKey([]byte("l"), i))\n\t\tif lk[len(lk)-1] == \'s\' { s.Set([]byte(lk[1:len(lk)-1]), []byte("string")) }\n\t}\n\tfor i := int64(0); i < 120; i++ {\n\t\tif e, err := s.LIndex([]byte("l"), i); err != nil || string(e) != "e" { t.Fatal(i, string(e), err) }\n\t}\n\t_ = kv.ErrKeyNotFound\n}\n'+open("/verif/tools/seeds/fake.go.txt").read()
