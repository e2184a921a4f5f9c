exec(open("/verif/tools/seeds/S1901.py").read())
id, prop, pkg = "S1902", "C19", "document/dml"
needs = "a collection of more than a thousand documents"
breaks = "DeleteAll stops after a thousand documents and reports success, so documents are left"
edits = [("document/dml/collection.go", "			return false\n		}\n		n++\n		return true\n", "			return false\n		}\n		n++\n		return n < deleteBatch\n"), ("document/dml/collection.go", "func (c *Collection) deleteAllWithTxn(", "// deleteBatch bounds the size of a transaction\nconst deleteBatch = 1000\n\nfunc (c *Collection) deleteAllWithTxn(")]
test = head + '''
func TestZZDemo(t *testing.T) {
	db := &fdb{m: map[string]string{}}
	c := demoColl(t, db)
	for i := int64(0); i < 1500; i++ {
		db.m[string(EncodeCollectionDocumentKey(nil, 7, i))] = "x"
	}
	n, err := c.DeleteAll(nil)
	if err != nil { t.Fatal(err) }
	if n != 1500 || len(db.m) != 0 { t.Fatal("left", n, len(db.m)) }
}
'''
