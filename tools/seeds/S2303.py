id='S2303'; prop='C23'; pkg='client'
needs='a transaction whose commit the server refuses'
breaks='the client reports success for a transaction that was not committed'
edits=[('client/client_txn.go', '\tif commitResp.Code != 0 {\n\t\terr = newPBError(commitResp.Code, commitResp.Msg)\n\t\treturn\n\t}\n', '\tif commitResp.Code == server.CodeTxnTooBig {\n\t\terr = newPBError(commitResp.Code, commitResp.Msg)\n\t\treturn\n\t}\n')]
test='package client\nimport ("net";"os";"testing";"time";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/provider";"github.com/zhiqiangxu/mondis/server")\nfunc TestZZDemo(t *testing.T) {\n\taddr, _, stop := serve(t)\n\tdefer stop()\n\tc := New(addr, Option{})\n\tk := []byte("k")\n\terr := c.Update(func(x mondis.Txn) error {\n\t\tif _, err := x.Exists(k); err != nil { return err }\n\t\tif err := c.Set(k, []byte("other"), nil); err != nil { t.Fatal(err) }\n\t\treturn x.Set(k, []byte("mine"), nil)\n\t})\n\tv, _, gerr := c.Get(k)\n\tif gerr != nil || err == nil && string(v) != "mine" { t.Fatal(err, gerr, string(v)) }\n}\n\nfunc serve(t *testing.T) (string, mondis.KVDB, func()) {\n\td, err := os.MkdirTemp("", "zzdemo")\n\tif err != nil { t.Fatal(err) }\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil { t.Fatal(err) }\n\taddr := l.Addr().String()\n\tl.Close()\n\tdb := provider.NewBadger()\n\ts := server.New(addr, db, server.Option{}, mondis.KVOption{Dir: d})\n\tgo s.Start()\n\tfor i := 0; i < 100; i++ {\n\t\ttime.Sleep(50 * time.Millisecond)\n\t\tif c, err := net.Dial("tcp", addr); err == nil { c.Close(); break }\n\t}\n\treturn addr, db, func() { s.Stop(); os.RemoveAll(d) }\n}\n'
