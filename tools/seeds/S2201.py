id='S2201'; prop='C22'; pkg='server'
needs='a scan that answers several entries from a provider that reuses its memory'
breaks='the keys answered are those of later entries'
edits=[('server/common.go', 'keyCopy := copyBytes(key)', 'keyCopy := key')]
test='package server\nimport ("fmt";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/pb")\nfunc TestZZDemo(t *testing.T) {\n\tvar resp pb.ScanResponse\n\thandleScan(&fkv{n: 3}, &pb.ScanRequest{ProviderScanOption: &pb.ProviderScanOption{}, Limit: 10}, &resp)\n\tfor i, e := range resp.Entries { if string(e.Key) != fmt.Sprintf("%04d", i) { t.Fatal(i, string(e.Key)) } }\n}\n\ntype fkv struct { mondis.ProviderKVOP; n int }\nfunc (f *fkv) Scan(o mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {\n\tk, v := make([]byte, 4), make([]byte, 4)\n\tfor i := 0; i < f.n; i++ {\n\t\tcopy(k, fmt.Sprintf("%04d", i)); copy(v, k)\n\t\tif !fn(k, v, mondis.VMetaResp{}) { break }\n\t}\n\treturn nil\n}\n'
