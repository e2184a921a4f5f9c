exec(open("/verif/tools/seeds/S1901.py").read())
id, prop, pkg = "S1904", "C19", "document/dml"
needs = "a collection whose documents all have negative ids"
breaks = "the id range is clamped at zero: the largest id of a collection with negative ids only is reported as 0, which is no document"
edits = [("document/dml/collection.go", "		_, max, err = DecodeCollectionDocumentKey(key)\n		return false\n", "		var did int64\n		if _, did, err = DecodeCollectionDocumentKey(key); did > max {\n			max = did\n		}\n		return false\n")]
test = head + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	c := demoColl(t, db)
	for i := int64(-9); i < -3; i++ { db.m[string(EncodeCollectionDocumentKey(nil, 7, i))] = "x" }
	min, max, err := c.GetDidRange(nil)
	if err != nil { t.Fatal(err) }
	if min != -9 || max != -4 { t.Fatal("range", min, max) }
}
'''
