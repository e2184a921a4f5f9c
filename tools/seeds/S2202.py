id='S2202'; prop='C22'; pkg='server'
needs='a scan with a limit beyond the maximum over more keys than that'
breaks='the server answers more entries than the documented maximum'
edits=[('server/common.go', '\tif limit > mondis.MaxEntry {\n\t\tlimit = mondis.MaxEntry\n\t}\n', '\tif limit > mondis.MaxEntry && len(option.Prefix) == 0 {\n\t\tlimit = mondis.MaxEntry\n\t}\n')]
test='package server\nimport ("fmt";"testing";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/pb")\nfunc TestZZDemo(t *testing.T) {\n\tvar resp pb.ScanResponse\n\thandleScan(&fkv{n: 3000}, &pb.ScanRequest{ProviderScanOption: &pb.ProviderScanOption{Prefix: []byte("p")}, Limit: 2000}, &resp)\n\tif len(resp.Entries) > mondis.MaxEntry { t.Fatal(len(resp.Entries)) }\n}\n\ntype fkv struct { mondis.ProviderKVOP; n int }\nfunc (f *fkv) Scan(o mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {\n\tk, v := make([]byte, 4), make([]byte, 4)\n\tfor i := 0; i < f.n; i++ {\n\t\tcopy(k, fmt.Sprintf("%04d", i)); copy(v, k)\n\t\tif !fn(k, v, mondis.VMetaResp{}) { break }\n\t}\n\treturn nil\n}\n'
