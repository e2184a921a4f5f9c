id='S2203'; prop='C22'; pkg='client'
needs='a transaction that begins with a scan'
breaks='the transaction of a client that begins with a scan is read-only: its changes are refused'
edits=[('server/cmd_scan.go', 'cmd.s.kvdb.NewTransaction(frame.Cmd.Opaque() == 1)', 'cmd.s.kvdb.NewTransaction(frame.Cmd.Opaque() == 1 && scanReq.Limit <= 0)')]
test='package client\nimport ("net";"os";"testing";"time";"github.com/zhiqiangxu/mondis";"github.com/zhiqiangxu/mondis/provider";"github.com/zhiqiangxu/mondis/server")\nfunc TestZZDemo(t *testing.T) {\n\taddr, _, stop := serve(t)\n\tdefer stop()\n\tc := New(addr, Option{})\n\terr := c.Update(func(x mondis.Txn) error {\n\t\tif _, err := x.Scan(mondis.ScanOption{Limit: 10}); err != nil { return err }\n\t\treturn x.Set([]byte("k"), []byte("v"), nil)\n\t})\n\tif err != nil { t.Fatal(err) }\n\tif ok, err := c.Exists([]byte("k")); err != nil || !ok { t.Fatal(ok, err) }\n}\n\nfunc serve(t *testing.T) (string, mondis.KVDB, func()) {\n\td, err := os.MkdirTemp("", "zzdemo")\n\tif err != nil { t.Fatal(err) }\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil { t.Fatal(err) }\n\taddr := l.Addr().String()\n\tl.Close()\n\tdb := provider.NewBadger()\n\ts := server.New(addr, db, server.Option{}, mondis.KVOption{Dir: d})\n\tgo s.Start()\n\tfor i := 0; i < 100; i++ {\n\t\ttime.Sleep(50 * time.Millisecond)\n\t\tif c, err := net.Dial("tcp", addr); err == nil { c.Close(); break }\n\t}\n\treturn addr, db, func() { s.Stop(); os.RemoveAll(d) }\n}\n'
