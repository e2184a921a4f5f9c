package client

import (
	"context"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/pb"
	"github.com/zhiqiangxu/mondis/server"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/qrpc"
)

// The client against an arbitrary peer behind a recording transport: what one operation sends and returns, from
// any state a transaction can be in. Every operation leaves a transaction in such a state again.

type zzPeer struct {
	stream bool // the operation runs in a transaction
	update bool
	fresh  bool // nothing of the transaction has been sent
	ended  bool // the end of the transaction has been sent
	// what was sent
	n       int
	cmd     qrpc.Cmd
	flags   qrpc.FrameFlag
	end     bool
	req     string
	wcmd    qrpc.Cmd
	wreq    string
	writing bool
	commits int
	aborts  int
	// what came back
	sendErr error
	recvErr error
	gone    bool
	got     bool
	resp    string
}

func (p *zzPeer) send(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload string, end bool) error {
	if p.ended {
		return qrpc.ErrConnAlreadyClosed
	}
	p.sendErr = gvc.AnyError("transport error")
	if p.sendErr != nil {
		return p.sendErr
	}
	p.n++
	p.cmd, p.flags, p.req, p.end = cmd, flags, payload, end
	if cmd == server.CommitCmd {
		p.commits++
	}
	if cmd == server.DiscardCmd {
		p.aborts++
	}
	if end {
		p.ended = true
	}
	return nil
}

type zzResp struct{ p *zzPeer }

func (r *zzResp) GetFrame() (*qrpc.Frame, error) {
	p := r.p
	p.recvErr = gvc.AnyError("receive error")
	if p.recvErr != nil {
		return nil, p.recvErr
	}
	return p.frame(), nil
}
func (r *zzResp) GetFrameWithContext(ctx context.Context) (*qrpc.Frame, error) { return r.GetFrame() }

func (p *zzPeer) frame() *qrpc.Frame {
	f := &qrpc.Frame{Payload: specResponse()}
	p.resp, p.got = string(f.Payload), true
	if p.stream {
		f.Stream = p.more()
	}
	return f
}

// more: what follows the frames received so far is another one, or the end of the stream.
func (p *zzPeer) more() *qrpc.Stream {
	src := &qrpc.ZZSrc{N: 1}
	if gvc.AnyBool("stream closed") {
		src.N, p.gone = 0, true
	}
	src.Gen = func(i int) *qrpc.Frame {
		f := &qrpc.Frame{Payload: specResponse()}
		p.resp, p.got = string(f.Payload), true
		return f
	}
	return &qrpc.Stream{ZZSrc: src}
}

// specResponse: any bytes; concretely, mostly well-formed ones.
func specResponse() []byte {
	if gvc.Symbolic() || gvc.AnyInt("garbage")%8 == 0 {
		return gvc.AnyBytes("response")
	}
	code, msg := int32(gvc.AnyInt64("code")), gvc.AnyString("msg")
	if gvc.AnyBool("documented code") {
		code = code % 5
	}
	if gvc.AnyBool("fine") {
		code = 0
	}
	var meta *pb.VMetaResp
	if gvc.AnyBool("meta") {
		meta = &pb.VMetaResp{ExpiresAt: gvc.AnyUint64("expires"), Tag: uint32(gvc.AnyInt64("tag"))}
	}
	var b []byte
	if gvc.AnyBool("get") {
		m := pb.GetResponse{Code: code, Msg: msg, Value: gvc.AnyBytes("value"), Meta: meta}
		b, _ = m.Marshal()
	} else if gvc.AnyBool("scan") {
		m := pb.ScanResponse{Code: code, Msg: msg}
		for i := gvc.AnyInt("entries") % 4; i > 0; i-- {
			m.Entries = append(m.Entries, &pb.Entry{Key: gvc.AnyBytes("k"), Value: gvc.AnyBytes("v"), Meta: meta})
		}
		b, _ = m.Marshal()
	} else {
		m := pb.ExistsResponse{Code: code, Msg: msg, Exists: gvc.AnyBool("exists")}
		b, _ = m.Marshal()
	}
	return b
}

type zzSW struct{ p *zzPeer }

func (w *zzSW) RequestID() uint64 { return 1 }
func (w *zzSW) StartWrite(cmd qrpc.Cmd) {
	w.p.wcmd, w.p.wreq, w.p.writing = cmd, "", true
}
func (w *zzSW) WriteBytes(v []byte) { w.p.wreq = w.p.wreq + string(v) }
func (w *zzSW) EndWrite(end bool) error {
	gvc.Ensures("a frame is started before it is sent", w.p.writing)
	w.p.writing = false
	return w.p.send(w.p.wcmd, 0, w.p.wreq, end)
}
func (w *zzSW) EndWriteCompressed() error        { return w.EndWrite(false) }
func (w *zzSW) ResetFrame(reason qrpc.Cmd) error { return nil }

func specClient(p *zzPeer) *Client {
	con := &qrpc.Connection{}
	con.ZZReq = func(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (uint64, qrpc.Response, error) {
		gvc.Ensures("the requests of a transaction are one stream", !p.stream)
		if err := p.send(cmd, flags, string(payload), false); err != nil {
			return 0, nil, err
		}
		return 1, &zzResp{p}, nil
	}
	con.ZZStream = func(cmd qrpc.Cmd, flags qrpc.FrameFlag, payload []byte) (qrpc.StreamWriter, qrpc.Response, error) {
		gvc.Ensures("a stream is started for the first request of a transaction", p.stream && p.fresh)
		if err := p.send(cmd, flags, string(payload), flags.IsDone()); err != nil {
			return nil, nil, err
		}
		return &zzSW{p}, &zzResp{p}, nil
	}
	return &Client{con: con}
}

// specRun puts a transaction into any state in which requests have been sent.
func specRun(t *Txn, p *zzPeer) {
	p.fresh = false
	t.sw, t.resp = &zzSW{p}, &zzResp{p}
	if gvc.AnyBool("answered before") {
		t.firstFrame = &qrpc.Frame{Stream: p.more()}
	}
}

func (p *zzPeer) invariant(t *Txn) {
	ok := t.update == p.update
	if t.sw == nil {
		ok = ok && p.fresh && t.firstFrame == nil
	} else {
		w, isW := t.sw.(*zzSW)
		r, isR := t.resp.(*zzResp)
		ok = ok && isW && isR && w.p == p && r.p == p && (t.firstFrame == nil || t.firstFrame.Stream != nil)
	}
	gvc.Ensures("an operation leaves the transaction fit for the next one", ok)
}

// specTarget is the client or a transaction of it, in any state.
func specTarget(p *zzPeer) (mondis.KVOP, *Txn) {
	c := specClient(p)
	if !gvc.AnyBool("transaction") {
		return c, nil
	}
	p.stream, p.update, p.fresh = true, gvc.AnyBool("update"), true
	t := newTxn(c, p.update)
	if gvc.AnyBool("running") {
		specRun(t, p)
		p.ended = gvc.AnyBool("ended")
	}
	return t, t
}

func (p *zzPeer) after(t *Txn) {
	if t != nil {
		if p.n > 0 {
			p.fresh = false
		}
		p.invariant(t)
	}
}

// asked: one request was sent, in the right way. It returns false if none could be.
func (p *zzPeer) asked(cmd qrpc.Cmd, err error, wasEnded bool) bool {
	if wasEnded {
		gvc.Ensures("a finished transaction takes no further request", p.n == 0 && err != nil)
		return false
	}
	if p.sendErr != nil {
		gvc.Ensures("a request that was not sent fails", err == p.sendErr && p.n == 0)
		return false
	}
	gvc.Ensures("an operation is one request", p.n == 1)
	if p.stream && p.flags != 0 {
		if p.update {
			cmd = qrpc.CmdWithOpaque(cmd, 1)
		}
		gvc.Ensures("the first request of a transaction tells its mode and starts a stream", p.cmd == cmd && p.flags == qrpc.StreamFlag)
	} else {
		gvc.Ensures("a request has the command of the operation", p.cmd == cmd && (p.stream || p.flags == qrpc.NBFlag))
	}
	gvc.Ensures("only commit and discard end a transaction", p.end == (cmd == server.CommitCmd || cmd == server.DiscardCmd))
	return true
}

// answered: the outcome is what the response says. It returns true if that is success.
func (p *zzPeer) answered(err error, ok bool, code int32, msg string, tooBig, notFound bool) bool {
	if p.recvErr != nil {
		gvc.Ensures("an operation without response fails", err == p.recvErr)
		return false
	}
	if !p.got {
		gvc.Ensures("a response is awaited", p.gone)
		gvc.Ensures("an operation without response fails", err != nil)
		return false
	}
	if !ok {
		gvc.Ensures("an undecodable response fails", err != nil)
		return false
	}
	if code == server.CodeOK {
		gvc.Ensures("success is reported as such", err == nil)
		return true
	}
	if tooBig && code == server.CodeTxnTooBig {
		gvc.Ensures("a transaction that is too big is reported as such", err == kv.ErrTxnTooBig)
	} else if notFound && code == server.CodeKeyNotFound {
		gvc.Ensures("a missing key is reported as such", err == kv.ErrKeyNotFound)
	} else {
		e, is := err.(*pbError)
		gvc.Ensures("a failure is reported with code and message", is && e.Code == code && e.Msg == msg)
	}
	return false
}

//gvc:prove C23
func zzClientSet(k, v []byte, hasMeta bool, ttl int64, tag byte) {
	p := &zzPeer{}
	c, t := specTarget(p)
	ended := p.ended
	var meta *mondis.VMetaReq
	if hasMeta {
		meta = &mondis.VMetaReq{TTL: time.Duration(ttl), Tag: tag}
	}
	err := c.Set(k, v, meta)
	p.after(t)
	if p.stream && !p.update {
		gvc.Ensures("a read-only transaction sends no change", err == ErrMutateForROTxn && p.n == 0)
		return
	}
	if !p.asked(server.SetCmd, err, ended) {
		return
	}
	gvc.Ensures("set sends key, value and meta data", pb.ZZSetRequestOK(p.req) && pb.ZZSetRequestKey(p.req) == string(k) && pb.ZZSetRequestValue(p.req) == string(v) && pb.ZZSetRequestHasMeta(p.req) == hasMeta)
	if hasMeta {
		gvc.Ensures("set sends key, value and meta data", pb.ZZSetRequestMetaTTL(p.req) == ttl && pb.ZZSetRequestMetaTag(p.req) == uint32(tag))
	}
	p.answered(err, pb.ZZSetResponseOK(p.resp), pb.ZZSetResponseCode(p.resp), pb.ZZSetResponseMsg(p.resp), true, false)
}

//gvc:prove C23
func zzClientDelete(k []byte) {
	p := &zzPeer{}
	c, t := specTarget(p)
	ended := p.ended
	err := c.Delete(k)
	p.after(t)
	if p.stream && !p.update {
		gvc.Ensures("a read-only transaction sends no change", err == ErrMutateForROTxn && p.n == 0)
		return
	}
	if !p.asked(server.DeleteCmd, err, ended) {
		return
	}
	gvc.Ensures("delete sends the key", pb.ZZDeleteRequestOK(p.req) && pb.ZZDeleteRequestKey(p.req) == string(k))
	p.answered(err, pb.ZZDeleteResponseOK(p.resp), pb.ZZDeleteResponseCode(p.resp), pb.ZZDeleteResponseMsg(p.resp), true, false)
}

//gvc:prove C23
func zzClientExists(k []byte) {
	p := &zzPeer{}
	c, t := specTarget(p)
	ended := p.ended
	exists, err := c.Exists(k)
	p.after(t)
	gvc.Ensures("no answer with a failure", err == nil || !exists)
	if !p.asked(server.ExistsCmd, err, ended) {
		return
	}
	gvc.Ensures("exists sends the key", pb.ZZExistsRequestOK(p.req) && pb.ZZExistsRequestKey(p.req) == string(k))
	if p.answered(err, pb.ZZExistsResponseOK(p.resp), pb.ZZExistsResponseCode(p.resp), pb.ZZExistsResponseMsg(p.resp), false, false) {
		gvc.Ensures("exists returns what the response says", exists == pb.ZZExistsResponseExists(p.resp))
	}
}

//gvc:prove C23
func zzClientGet(k []byte) {
	p := &zzPeer{}
	c, t := specTarget(p)
	ended := p.ended
	v, meta, err := c.Get(k)
	p.after(t)
	if !p.asked(server.GetCmd, err, ended) {
		return
	}
	gvc.Ensures("get sends the key", pb.ZZGetRequestOK(p.req) && pb.ZZGetRequestKey(p.req) == string(k))
	if p.answered(err, pb.ZZGetResponseOK(p.resp), pb.ZZGetResponseCode(p.resp), pb.ZZGetResponseMsg(p.resp), false, true) {
		gvc.Ensures("get returns the value of the response", string(v) == pb.ZZGetResponseValue(p.resp))
		if pb.ZZGetResponseHasMeta(p.resp) {
			gvc.Ensures("get returns the meta data of the response", meta.ExpiresAt == pb.ZZGetResponseMetaExpiresAt(p.resp) && meta.Tag == byte(pb.ZZGetResponseMetaTag(p.resp)))
		} else {
			gvc.Ensures("get returns the meta data of the response", meta.ExpiresAt == 0 && meta.Tag == 0)
		}
	}
}

//gvc:prove C23
func zzClientScan(reverse bool, prefix, offset []byte, limit int) {
	p := &zzPeer{}
	c, t := specTarget(p)
	ended := p.ended
	es, err := c.Scan(mondis.ScanOption{ProviderScanOption: mondis.ProviderScanOption{Reverse: reverse, Prefix: prefix, Offset: offset}, Limit: limit})
	p.after(t)
	if limit <= 0 {
		gvc.Ensures("a scan for nothing sends nothing", len(es) == 0 && err == nil && p.n == 0)
		return
	}
	if !p.asked(server.ScanCmd, err, ended) {
		return
	}
	if limit > mondis.MaxEntry {
		limit = mondis.MaxEntry
	}
	q := p.req
	gvc.Ensures("scan sends its options", pb.ZZScanRequestOK(q) && int(pb.ZZScanRequestLimit(q)) == limit && pb.ZZScanRequestHasProviderScanOption(q) && pb.ZZScanRequestProviderScanOptionReverse(q) == reverse &&
		pb.ZZScanRequestProviderScanOptionPrefix(q) == string(prefix) && pb.ZZScanRequestProviderScanOptionOffset(q) == string(offset))
	b := p.resp
	if p.answered(err, pb.ZZScanResponseOK(b), pb.ZZScanResponseCode(b), pb.ZZScanResponseMsg(b), false, false) {
		gvc.Ensures("scan returns the entries of the response", len(es) == pb.ZZScanResponseN(b) && gvc.Forall(0, len(es), func(i int) bool {
			return string(es[i].Key) == pb.ZZScanResponseKey(b, i) && string(es[i].Value) == pb.ZZScanResponseValue(b, i)
		}))
		gvc.Ensures("scan returns the meta data of the response", gvc.Forall(0, len(es), func(i int) bool {
			if !pb.ZZScanResponseHasMeta(b, i) {
				return es[i].Meta.ExpiresAt == 0 && es[i].Meta.Tag == 0
			}
			return es[i].Meta.ExpiresAt == pb.ZZScanResponseExpiresAt(b, i) && es[i].Meta.Tag == byte(pb.ZZScanResponseTag(b, i))
		}))
	}
}

//gvc:prove C23
func zzClientCommit() {
	p := &zzPeer{}
	_, t := specTarget(p)
	gvc.Requires(t != nil)
	ended := p.ended
	if p.fresh {
		gvc.Ensures("committing an empty transaction does nothing", t.Commit() == nil && p.n == 0)
		p.after(t)
		return
	}
	err := t.Commit()
	p.after(t)
	if !p.asked(server.CommitCmd, err, ended) {
		return
	}
	p.answered(err, pb.ZZCommitResponseOK(p.resp), pb.ZZCommitResponseCode(p.resp), pb.ZZCommitResponseMsg(p.resp), false, false)
}

//gvc:prove C23
func zzClientDiscard() {
	p := &zzPeer{}
	_, t := specTarget(p)
	gvc.Requires(t != nil)
	ended := p.ended
	t.Discard()
	if p.fresh {
		gvc.Ensures("discarding an empty transaction does nothing", p.n == 0)
	} else if !ended && p.sendErr == nil {
		gvc.Ensures("discard discards", p.n == 1 && p.cmd == server.DiscardCmd && p.end)
	} else {
		gvc.Ensures("discard discards once", p.n == 0)
	}
	p.after(t)
}

// specBody is the body of a transaction: it leaves the transaction in any state.
func (p *zzPeer) body(t mondis.Txn, c *Client, update bool, ferr error) error {
	x, ok := t.(*Txn)
	gvc.Ensures("a body runs in a fresh transaction of the right mode", ok && x.c == c && x.update == update && x.sw == nil && p.n == 0)
	if gvc.AnyBool("the body sends requests") {
		specRun(x, p)
		p.ended = gvc.AnyBool("the body ends the transaction")
	}
	return ferr
}

//gvc:prove C23
func zzClientUpdate() {
	p := &zzPeer{stream: true, update: true, fresh: true}
	c := specClient(p)
	runs, ferr, ended := 0, gvc.AnyError("body"), false
	err := c.Update(func(t mondis.Txn) error {
		runs++
		e := p.body(t, c, true, ferr)
		ended = p.ended
		return e
	})
	gvc.Ensures("the body runs once", runs == 1)
	if ferr != nil {
		gvc.Ensures("a failing body is reported and never committed", err == ferr && p.commits == 0)
		gvc.Ensures("a failing body is discarded", p.fresh || ended || p.sendErr != nil || p.aborts == 1)
		return
	}
	gvc.Ensures("at most one of commit and discard ends the transaction", p.commits+p.aborts <= 1)
	if p.fresh {
		gvc.Ensures("an empty transaction succeeds without a request", err == nil && p.n == 0)
	} else if ended {
		gvc.Ensures("a transaction the body ended is not committed again", err != nil && p.n == 0)
	} else if p.commits == 1 {
		p.answered(err, pb.ZZCommitResponseOK(p.resp), pb.ZZCommitResponseCode(p.resp), pb.ZZCommitResponseMsg(p.resp), false, false)
	} else {
		gvc.Ensures("a commit that was not sent fails", err != nil)
	}
}

//gvc:prove C23
func zzClientView() {
	p := &zzPeer{stream: true, fresh: true}
	c := specClient(p)
	runs, ferr, ended := 0, gvc.AnyError("body"), false
	err := c.View(func(t mondis.Txn) error {
		runs++
		e := p.body(t, c, false, ferr)
		ended = p.ended
		return e
	})
	gvc.Ensures("the body runs once and its outcome is reported", runs == 1 && err == ferr)
	gvc.Ensures("a view is never committed", p.commits == 0)
	gvc.Ensures("a view is discarded", p.fresh || ended || p.sendErr != nil || p.aborts == 1)
}
