id='S2302'; prop='C23'; pkg='client'
needs='a time to live that is not a whole number of seconds'
breaks='the server is asked for a shorter time to live, or for one that is over at once'
edits=[('client/client.go', 'TTL: int64(meta.TTL)', 'TTL: int64(meta.TTL / 1e9 * 1e9)')]
test='package client\nimport ("testing";"time";"github.com/zhiqiangxu/mondis")\nfunc TestZZDemo(t *testing.T) {\n\tr := setReq2PB(nil, nil, &mondis.VMetaReq{TTL: 1500 * time.Millisecond})\n\tif r.Meta.TTL != int64(1500*time.Millisecond) { t.Fatal(r.Meta.TTL) }\n}\n'
