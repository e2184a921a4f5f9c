package server

import (
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/pb"
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
	"github.com/zhiqiangxu/qrpc"
)

// The server between a recording transport and a recording store. Every response is checked, when it is sent,
// against the request it answers and against what the store was asked and what the store said.

const (
	zzNone = iota
	zzSet
	zzExists
	zzGet
	zzDelete
	zzScan
	zzCommit
)

type zzRec struct {
	reqID   uint64
	stream  bool
	update  bool
	src     *qrpc.ZZSrc
	frames  []*qrpc.Frame // concrete runs
	seen    int           // concrete runs
	first   *qrpc.RequestFrame
	cmd     qrpc.Cmd // the request in hand
	req     string
	pending bool
	calm    bool // nothing fails before the first response
	dead    bool // a response could not be sent
	over    bool // the last response was sent
	bad     bool // an undecodable request was answered
	// what the store was asked since the last response
	nops    int
	op      int
	onTxn   bool
	key     string
	val     string
	hasMeta bool
	ttl     int64
	tag     byte
	reverse bool
	prefix  string
	offset  string
	hasOff  bool
	// what it said
	err     error
	exists  bool
	value   string
	expires uint64
	rtag    byte
	seed    string
	scanN   int
	yielded int
	// the transaction
	txns      int
	committed bool
	discarded bool
	// the response being written
	writing bool
	wid     uint64
	wcmd    qrpc.Cmd
	wflags  qrpc.FrameFlag
	wbytes  string
}

// sync notices, in concrete runs, that further frames have been received.
func (r *zzRec) sync() {
	if gvc.Symbolic() {
		return
	}
	for r.src != nil && r.seen < r.src.ZZReceived() {
		f := r.frames[r.seen]
		r.seen++
		r.deliver(f.Cmd, string(f.Payload))
	}
}

func (r *zzRec) deliver(cmd qrpc.Cmd, req string) {
	gvc.Ensures("a request of a transaction is answered before the next one is taken", !r.pending && !r.dead && !r.over && !r.bad)
	gvc.Ensures("nothing is done that no request asked for", r.nops == 0)
	r.cmd, r.req, r.pending = cmd, req, true
}

func (r *zzRec) begin(op int, onTxn bool) {
	r.sync()
	gvc.Ensures("the store is used only for a request in hand", r.pending && !r.dead && !r.over && !r.bad)
	gvc.Ensures("a finished transaction is not used again", !onTxn || !r.committed && !r.discarded)
	r.nops++
	r.op, r.onTxn = op, onTxn
	r.err = nil
	if !r.calm {
		r.err = specErr()
	}
}

func specErr() error {
	if !gvc.Symbolic() {
		switch gvc.AnyInt("kind of error") % 4 {
		case 0, 2:
			return nil
		case 1:
			return kv.ErrTxnTooBig
		case 3:
			return kv.ErrKeyNotFound
		}
	}
	return gvc.AnyError("store error")
}

func (r *zzRec) set(onTxn bool, k, v []byte, meta *mondis.VMetaReq) error {
	r.begin(zzSet, onTxn)
	r.key, r.val, r.hasMeta = string(k), string(v), meta != nil
	if meta != nil {
		r.ttl, r.tag = int64(meta.TTL), meta.Tag
	}
	gvc.Retain(k, v)
	return r.err
}

func (r *zzRec) existsOp(onTxn bool, k []byte) (bool, error) {
	r.begin(zzExists, onTxn)
	r.key, r.exists = string(k), gvc.AnyBool("exists")
	return r.exists, r.err
}

func (r *zzRec) get(onTxn bool, k []byte) ([]byte, mondis.VMetaResp, error) {
	r.begin(zzGet, onTxn)
	r.key, r.value, r.expires, r.rtag = string(k), gvc.AnyString("value"), gvc.AnyUint64("expires"), byte(gvc.AnyInt64("tag"))
	return gvc.CopyOf(r.value), mondis.VMetaResp{ExpiresAt: r.expires, Tag: r.rtag}, r.err
}

func (r *zzRec) del(onTxn bool, k []byte) error {
	r.begin(zzDelete, onTxn)
	r.key = string(k)
	gvc.Retain(k)
	return r.err
}

//gvc:opaque
func zzSKey(seed string, i int) string { return seed + string([]byte{byte(i), byte(i >> 8)}) }

//gvc:opaque
func zzSVal(seed string, i int) string { return string([]byte{byte(i >> 8), byte(i)}) + seed }

//gvc:opaque
func zzSExp(seed string, i int) uint64 { return uint64(len(seed) + i) }

//gvc:opaque
func zzSTag(seed string, i int) byte { return byte(len(seed)*3 + i) }

func (r *zzRec) scan(onTxn bool, option mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	r.begin(zzScan, onTxn)
	r.reverse, r.prefix, r.offset, r.hasOff = option.Reverse, string(option.Prefix), string(option.Offset), option.Offset != nil
	r.seed, r.scanN = gvc.AnyString("scan"), gvc.AnyInt("entries")
	if !gvc.Symbolic() {
		r.scanN = r.scanN % 1100
	}
	if r.scanN < 0 {
		r.scanN = 0
	}
	n, y := r.scanN, 0
	for y < n {
		k, v := gvc.Scratch(zzSKey(r.seed, y)), gvc.Scratch(zzSVal(r.seed, y))
		more := fn(k, v, mondis.VMetaResp{ExpiresAt: zzSExp(r.seed, y), Tag: zzSTag(r.seed, y)})
		gvc.Scramble(k, v)
		y++
		if !more {
			break
		}
	}
	r.yielded = y
	return r.err
}

type zzDB struct{ r *zzRec }

func (d *zzDB) Set(k, v []byte, meta *mondis.VMetaReq) error   { return d.r.set(false, k, v, meta) }
func (d *zzDB) Exists(k []byte) (bool, error)                  { return d.r.existsOp(false, k) }
func (d *zzDB) Get(k []byte) ([]byte, mondis.VMetaResp, error) { return d.r.get(false, k) }
func (d *zzDB) Delete(k []byte) error                          { return d.r.del(false, k) }
func (d *zzDB) Open(option mondis.KVOption) error              { return nil }
func (d *zzDB) Close() error                                   { return nil }
func (d *zzDB) WriteBatch() mondis.ProviderWriteBatch          { return nil }
func (d *zzDB) Scan(option mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	return d.r.scan(false, option, fn)
}
func (d *zzDB) NewTransaction(update bool) mondis.ProviderTxn {
	d.r.txns++
	gvc.Ensures("a transaction is opened for the request that begins one, in the mode it asked for", d.r.pending && d.r.stream && update == d.r.update)
	return &zzTxn{d.r}
}

type zzTxn struct{ r *zzRec }

func (d *zzTxn) Set(k, v []byte, meta *mondis.VMetaReq) error   { return d.r.set(true, k, v, meta) }
func (d *zzTxn) Exists(k []byte) (bool, error)                  { return d.r.existsOp(true, k) }
func (d *zzTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) { return d.r.get(true, k) }
func (d *zzTxn) Delete(k []byte) error                          { return d.r.del(true, k) }
func (d *zzTxn) Scan(option mondis.ProviderScanOption, fn func(key, value []byte, meta mondis.VMetaResp) bool) error {
	return d.r.scan(true, option, fn)
}
func (d *zzTxn) StartTS() uint64 { return 0 }
func (d *zzTxn) Commit() error {
	d.r.begin(zzCommit, true)
	d.r.committed = true
	return d.r.err
}
func (d *zzTxn) Discard() { d.r.discarded = true }

type zzWriter struct{ r *zzRec }

func (w *zzWriter) StartWrite(requestID uint64, cmd qrpc.Cmd, flags qrpc.FrameFlag) {
	r := w.r
	r.writing, r.wid, r.wcmd, r.wflags, r.wbytes = true, requestID, cmd, flags, ""
}
func (w *zzWriter) WriteBytes(v []byte)                                { w.r.wbytes = w.r.wbytes + string(v) }
func (w *zzWriter) EndWriteCompressed() error                          { return w.EndWrite() }
func (w *zzWriter) ResetFrame(requestID uint64, reason qrpc.Cmd) error { return nil }

// zzCode is the code of the response that reports err.
func zzCode(err error, tooBig, notFound bool) int32 {
	if err == nil {
		return CodeOK
	}
	if tooBig && err == kv.ErrTxnTooBig {
		return CodeTxnTooBig
	}
	if notFound && err == kv.ErrKeyNotFound {
		return CodeKeyNotFound
	}
	return CodeInternalError
}

// badRequest: the answer to bytes that are not a request.
func (r *zzRec) badRequest(want qrpc.Cmd, code int32) {
	gvc.Ensures("an undecodable request is refused", r.wcmd == want && code == CodeInvalidRequest)
	gvc.Ensures("an undecodable request does not reach the store", r.nops == 0)
	r.bad = true
}

func (r *zzRec) oneOp(want qrpc.Cmd, op int) {
	gvc.Ensures("a response has the command of its request", r.wcmd == want)
	gvc.Ensures("a request is one operation on the store", r.nops == 1 && r.op == op)
	gvc.Ensures("the requests of a transaction run in it", r.onTxn == r.stream)
}

func (r *zzRec) said(ok bool, code int32, msg string, tooBig, notFound bool) {
	gvc.Ensures("a response is decodable", ok)
	gvc.Ensures("a response reports the outcome", code == zzCode(r.err, tooBig, notFound))
	gvc.Ensures("a response carries the message of the failure", r.err == nil && msg == "" || r.err != nil && msg == r.err.Error())
}

func (w *zzWriter) EndWrite() error {
	r := w.r
	r.sync()
	gvc.Ensures("a response is written after it was started", r.writing)
	gvc.Ensures("no response after the last one", !r.dead && !r.over && !r.bad)
	r.writing = false
	gvc.Ensures("a response carries the id of its request", r.wid == r.reqID)
	end := false
	b := r.wbytes
	if !r.pending {
		gvc.Ensures("an unasked response only tells that the connection is gone", r.stream && r.wcmd == DiscardRespCmd && r.nops == 0 && r.discarded && !r.committed)
		end = true
	} else {
		switch r.cmd {
		case SetCmd:
			if !pb.ZZSetRequestOK(r.req) {
				r.badRequest(SetRespCmd, pb.ZZSetResponseCode(b))
				break
			}
			r.oneOp(SetRespCmd, zzSet)
			gvc.Ensures("set stores the key and value asked for", r.key == pb.ZZSetRequestKey(r.req) && r.val == pb.ZZSetRequestValue(r.req))
			gvc.Ensures("set passes time to live and tag", r.hasMeta == pb.ZZSetRequestHasMeta(r.req))
			if r.hasMeta {
				gvc.Ensures("set passes time to live and tag", r.ttl == pb.ZZSetRequestMetaTTL(r.req) && r.tag == byte(pb.ZZSetRequestMetaTag(r.req)))
			}
			r.said(pb.ZZSetResponseOK(b), pb.ZZSetResponseCode(b), pb.ZZSetResponseMsg(b), true, false)
		case DeleteCmd:
			if !pb.ZZDeleteRequestOK(r.req) {
				r.badRequest(DeleteRespCmd, pb.ZZDeleteResponseCode(b))
				break
			}
			r.oneOp(DeleteRespCmd, zzDelete)
			gvc.Ensures("delete removes the key asked for", r.key == pb.ZZDeleteRequestKey(r.req))
			r.said(pb.ZZDeleteResponseOK(b), pb.ZZDeleteResponseCode(b), pb.ZZDeleteResponseMsg(b), true, false)
		case ExistsCmd:
			if !pb.ZZExistsRequestOK(r.req) {
				r.badRequest(ExistsRespCmd, pb.ZZExistsResponseCode(b))
				break
			}
			r.oneOp(ExistsRespCmd, zzExists)
			gvc.Ensures("exists asks for the key", r.key == pb.ZZExistsRequestKey(r.req))
			r.said(pb.ZZExistsResponseOK(b), pb.ZZExistsResponseCode(b), pb.ZZExistsResponseMsg(b), false, false)
			if r.err == nil {
				gvc.Ensures("exists answers what the store says", pb.ZZExistsResponseExists(b) == r.exists)
			}
		case GetCmd:
			if !pb.ZZGetRequestOK(r.req) {
				r.badRequest(GetRespCmd, pb.ZZGetResponseCode(b))
				break
			}
			r.oneOp(GetRespCmd, zzGet)
			gvc.Ensures("get asks for the key", r.key == pb.ZZGetRequestKey(r.req))
			r.said(pb.ZZGetResponseOK(b), pb.ZZGetResponseCode(b), pb.ZZGetResponseMsg(b), false, true)
			if r.err == nil {
				gvc.Ensures("get answers what the store holds", pb.ZZGetResponseValue(b) == r.value && pb.ZZGetResponseHasMeta(b) && pb.ZZGetResponseMetaExpiresAt(b) == r.expires && pb.ZZGetResponseMetaTag(b) == uint32(r.rtag))
			}
		case ScanCmd:
			if !pb.ZZScanRequestOK(r.req) {
				r.badRequest(ScanRespCmd, pb.ZZScanResponseCode(b))
				break
			}
			r.scanned(b)
		case CommitCmd:
			r.oneOp(CommitRespCmd, zzCommit)
			gvc.Ensures("a commit commits", r.committed)
			r.said(pb.ZZCommitResponseOK(b), pb.ZZCommitResponseCode(b), pb.ZZCommitResponseMsg(b), false, false)
			end = true
		case DiscardCmd:
			gvc.Ensures("a discard discards", r.wcmd == DiscardRespCmd && r.nops == 0 && r.discarded && !r.committed)
			end = true
		}
	}
	if r.stream && !r.bad {
		gvc.Ensures("the responses of a transaction are one stream that ends with it", r.wflags.IsStream() && r.wflags.IsDone() == end && !r.wflags.IsRst())
	}
	if !r.stream {
		gvc.Ensures("a single request gets a single response", !r.wflags.IsStream())
	}
	r.pending, r.nops, r.op, r.over = false, 0, zzNone, end || !r.stream
	if r.calm {
		r.calm = false
		return nil
	}
	if gvc.AnyBool("the connection broke") {
		r.dead = true
		e := gvc.AnyError("write error")
		gvc.Requires(e != nil)
		return e
	}
	return nil
}

func (r *zzRec) scanned(b string) {
	limit := int(pb.ZZScanRequestLimit(r.req))
	if limit > mondis.MaxEntry {
		limit = mondis.MaxEntry
	}
	gvc.Ensures("a response is decodable", pb.ZZScanResponseOK(b) && r.wcmd == ScanRespCmd)
	if limit <= 0 {
		gvc.Ensures("a scan for no entries answers none", pb.ZZScanResponseN(b) == 0 && pb.ZZScanResponseCode(b) == CodeOK)
		gvc.Ensures("a scan for no entries changes nothing", r.nops == 0 || r.nops == 1 && r.op == zzScan)
		return
	}
	r.oneOp(ScanRespCmd, zzScan)
	if !pb.ZZScanRequestHasProviderScanOption(r.req) {
		gvc.Ensures("scan without options is a forward scan of everything", !r.reverse && r.prefix == "" && r.offset == "")
	} else {
		gvc.Ensures("scan passes direction, prefix and offset", r.reverse == pb.ZZScanRequestProviderScanOptionReverse(r.req) && r.prefix == pb.ZZScanRequestProviderScanOptionPrefix(r.req) && r.offset == pb.ZZScanRequestProviderScanOptionOffset(r.req))
	}
	r.said(true, pb.ZZScanResponseCode(b), pb.ZZScanResponseMsg(b), false, false)
	if r.err == nil {
		n := r.scanN
		if n > limit {
			n = limit
		}
		gvc.Ensures("scan answers as many entries as there are, up to the limit", pb.ZZScanResponseN(b) == n)
		gvc.Ensures("scan answers the entries in order", gvc.Forall(0, n, func(i int) bool {
			return pb.ZZScanResponseKey(b, i) == zzSKey(r.seed, i) && pb.ZZScanResponseValue(b, i) == zzSVal(r.seed, i) && pb.ZZScanResponseHasMeta(b, i) && pb.ZZScanResponseExpiresAt(b, i) == zzSExp(r.seed, i) && pb.ZZScanResponseTag(b, i) == uint32(zzSTag(r.seed, i))
		}))
	}
}

// zzCmds are the commands a client may send within a transaction.
func specCmd() qrpc.Cmd {
	cmd := qrpc.Cmd(gvc.AnyInt64("command"))
	if !gvc.Symbolic() {
		cmd = cmd % 7 * 2
	}
	gvc.Requires(cmd == SetCmd || cmd == ExistsCmd || cmd == GetCmd || cmd == DeleteCmd || cmd == ScanCmd || cmd == CommitCmd || cmd == DiscardCmd)
	return cmd
}

// specPayload is the payload of a request: any bytes; concretely, mostly well-formed ones.
func specPayload(cmd qrpc.Cmd) []byte {
	if gvc.Symbolic() || gvc.AnyInt("garbage")%8 == 0 {
		return gvc.AnyBytes("payload")
	}
	k, v := gvc.AnyBytes("k"), gvc.AnyBytes("v")
	var b []byte
	switch cmd {
	case SetCmd:
		m := pb.SetRequest{Key: k, Value: v}
		if gvc.AnyBool("meta") {
			m.Meta = &pb.VMetaReq{TTL: gvc.AnyInt64("ttl"), Tag: uint32(gvc.AnyInt64("tag"))}
		}
		b, _ = m.Marshal()
	case ExistsCmd:
		m := pb.ExistsRequest{Key: k}
		b, _ = m.Marshal()
	case GetCmd:
		m := pb.GetRequest{Key: k}
		b, _ = m.Marshal()
	case DeleteCmd:
		m := pb.DeleteRequest{Key: k}
		b, _ = m.Marshal()
	case ScanCmd:
		m := pb.ScanRequest{Limit: int32(gvc.AnyInt64("limit"))}
		if gvc.AnyBool("options") {
			m.ProviderScanOption = &pb.ProviderScanOption{Reverse: gvc.AnyBool("reverse"), Prefix: k, Offset: v}
		}
		b, _ = m.Marshal()
	}
	return b
}

// specServe sends one first frame, and what follows, to the server that New builds.
func specServe(cmd qrpc.Cmd, calm bool) {
	r := &zzRec{reqID: gvc.AnyUint64("request id"), calm: calm}
	r.stream = calm || gvc.AnyBool("transaction")
	s, ok := New("addr", &zzDB{r}, Option{}, mondis.KVOption{}).(*Server)
	gvc.Ensures("New makes a server", ok && len(s.qserver.ZZBindings) == 1 && s.qserver.ZZBindings[0].Addr == "addr")
	src := &qrpc.ZZSrc{}
	src.N = gvc.AnyInt("further frames")
	if !gvc.Symbolic() {
		src.N = src.N % 6
	}
	gvc.Requires(src.N >= 0)
	src.Gen = func(i int) *qrpc.Frame {
		c := specCmd()
		f := &qrpc.Frame{RequestID: r.reqID, Cmd: c, Flags: qrpc.StreamFlag, Payload: specPayload(c)}
		if gvc.Symbolic() {
			r.deliver(c, string(f.Payload))
		} else {
			r.frames = append(r.frames, f)
		}
		return f
	}
	r.src = src
	frame := &qrpc.RequestFrame{RequestID: r.reqID, Cmd: cmd, Payload: specPayload(cmd), Stream: &qrpc.Stream{ZZSrc: src}}
	r.cmd, r.req, r.pending, r.first = cmd, string(frame.Payload), true, frame
	r.update = cmd == SetCmd || cmd == DeleteCmd
	if gvc.AnyBool("update") {
		frame.Cmd = qrpc.CmdWithOpaque(cmd, 1)
		r.update = true
	}
	frame.Flags = qrpc.NBFlag
	if r.stream {
		frame.Flags = qrpc.StreamFlag
	}
	s.qserver.ZZBindings[0].Handler.ServeQRPC(&zzWriter{r}, frame)
	r.sync()
	gvc.Ensures("every request is answered", !r.pending && (r.over || r.dead || r.bad))
	gvc.Ensures("the connection is closed after an undecodable request, and only then", r.dead || r.bad == (frame.Stream.ZZClosed > 0))
	gvc.Ensures("a transaction is one transaction of the store", r.txns <= 1 && (r.txns == 1 || !r.stream || r.bad))
	gvc.Ensures("a transaction that was opened is committed or discarded", r.txns == 0 || r.committed || r.discarded)
}

// The rest of a transaction, as the beginning of one sees it.
//
//gvc:spec handleTxnContinuedFrame
func zzContractContinued(writer qrpc.FrameWriter, frame *qrpc.RequestFrame, txn mondis.ProviderTxn) {
	r := writer.(*zzWriter).r
	gvc.Requires(txn.(*zzTxn).r == r && frame == r.first)
	gvc.Requires(r.stream && r.txns == 1 && !r.pending && r.nops == 0 && !r.dead && !r.over && !r.bad && !r.committed && !r.discarded)
	r.dead, r.over, r.bad = gvc.AnyBool("dead"), gvc.AnyBool("over"), gvc.AnyBool("bad")
	gvc.Assume("proved by zzServeRest", r.dead || r.over || r.bad)
	r.committed, r.discarded = gvc.AnyBool("committed"), gvc.AnyBool("discarded")
	if r.bad && !r.dead {
		frame.Stream.ZZClosed = 1
	}
}

//gvc:prove C22
//gvc:proves handleTxnContinuedFrame
func zzServeRest() { specServe(GetCmd, true) }

//gvc:prove C22
func zzServeSet() { specServe(SetCmd, false) }

//gvc:prove C22
func zzServeExists() { specServe(ExistsCmd, false) }

//gvc:prove C22
func zzServeGet() { specServe(GetCmd, false) }

//gvc:prove C22
func zzServeDelete() { specServe(DeleteCmd, false) }

//gvc:prove C22
func zzServeScan() { specServe(ScanCmd, false) }
