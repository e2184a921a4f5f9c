From f4859df38824e0f3682e1f1a2fd6e1a6a63bf187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 01/39] fix: reject a negative length in compact.DecodeBytes
 instead of panicking

---
 kv/compact/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kv/compact/bytes.go b/kv/compact/bytes.go
index 977e048..b11d57c 100644
--- a/kv/compact/bytes.go
+++ b/kv/compact/bytes.go
@@ -20,7 +20,7 @@ func DecodeBytes(b []byte) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, err
 	}
-	if int64(len(b)) < n {
+	if n < 0 || int64(len(b)) < n {
 		return nil, nil, fmt.Errorf("insufficient bytes to decode value, expected length: %v", n)
 	}
 	return b[n:], b[:n], nil
-- 
2.43.0


From 37fd324680f04a6668c10d76f647940c14c59365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 02/39] fix: setting a new hash field to an empty value creates
 the field

---
 structure/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structure/hash.go b/structure/hash.go
index c59ea0d..16aea95 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -289,7 +289,7 @@ func (t *TxStructure) updateHash(key, field []byte, fn func(oldValue []byte) ([]
 	}
 
 	// Check if new value is equal to old value.
-	if bytes.Equal(oldValue, newValue) {
+	if !isNew && bytes.Equal(oldValue, newValue) {
 		return nil
 	}
 
-- 
2.43.0


From 0c0f1bfe033c2e34c92282947b0be14522f17a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 03/39] fix: LLen reports storage errors instead of length 0

---
 structure/list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structure/list.go b/structure/list.go
index 52bf17a..2643663 100644
--- a/structure/list.go
+++ b/structure/list.go
@@ -121,6 +121,9 @@ func (t *TxStructure) LLen(key []byte) (l int64, err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 	l = meta.RIndex - meta.LIndex
 	return
 }
-- 
2.43.0


From 323542ff64918716aa8230b019e79b2ebbb6c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 04/39] fix: HClear stops when the hash meta data cannot be
 read

---
 structure/hash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structure/hash.go b/structure/hash.go
index 16aea95..06a63f0 100644
--- a/structure/hash.go
+++ b/structure/hash.go
@@ -200,6 +200,9 @@ func (t *TxStructure) HClear(key []byte) (err error) {
 		err = nil
 		return
 	}
+	if err != nil {
+		return
+	}
 
 	itErr := t.iterateHash(key, func(field []byte, value []byte) bool {
 		k := t.encodeHashDataKey(key, field)
-- 
2.43.0


From 2307d063ad214748a423d0c679634107fe2adfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 05/39] fix: NextN does not hand out the same ids again after
 renewing the lease

---
 document/meta/sequence/sequence.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index 1598f7b..bf2dd97 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -193,6 +193,7 @@ func (seq *Sequence) NextN(n int64) (ranges []IDRange, err error) {
 
 	r := IDRange{Start: seq.next, End: seq.next + n - remain}
 	ranges = append(ranges, r)
+	seq.next = r.End
 
 	return
 }
-- 
2.43.0


From a2bbad7624c5be4548b63cbc6d4f5149863f23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 06/39] fix: clearing a hash sequence keeps the other fields of
 the hash

---
 document/meta/sequence/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index 593113b..a2bb255 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -54,7 +54,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
-		err = txStruct.HClear(key)
+		err = txStruct.HDel(key, field)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From b17301db5c7453650c9782d73792445b85882d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 07/39] fix: clearing a sequence drops the ids that were put
 back

---
 document/meta/sequence/sequence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/document/meta/sequence/sequence.go b/document/meta/sequence/sequence.go
index bf2dd97..afb521e 100644
--- a/document/meta/sequence/sequence.go
+++ b/document/meta/sequence/sequence.go
@@ -107,6 +107,11 @@ func (seq *Sequence) Clear() (err error) {
 	}
 
 	err = seq.clearFunc()
+	if err != nil {
+		return
+	}
+
+	seq.putbacks = nil
 	return
 }
 
-- 
2.43.0


From ab7431c3751d3c7fa4dcace12e76ccc0da9d15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 08/39] fix: sequences reject a negative bandwidth

---
 document/meta/sequence/hash.go   | 2 +-
 document/meta/sequence/string.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index a2bb255..e7b9521 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -22,7 +22,7 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		return
 	}
 
-	if bandwidth == 0 {
+	if bandwidth <= 0 {
 		err = ErrZeroBandwidth
 		return
 	}
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 3b9aaa5..51ea5cb 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -18,7 +18,7 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		return
 	}
 
-	if bandwidth == 0 {
+	if bandwidth <= 0 {
 		err = ErrZeroBandwidth
 		return
 	}
-- 
2.43.0


From d5d2f0ed33c206645b9705691b146b5008a2016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 09/39] fix: releasing the remaining ids of a sequence keeps
 ids leased later by others

---
 document/meta/sequence/hash.go   | 14 ++++++++++++++
 document/meta/sequence/string.go | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/document/meta/sequence/hash.go b/document/meta/sequence/hash.go
index e7b9521..813719b 100644
--- a/document/meta/sequence/hash.go
+++ b/document/meta/sequence/hash.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -73,6 +74,19 @@ func NewHash(kvdb mondis.KVDB, key, field []byte, bandwidth int64) (s *Hash, err
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		current, err := txStruct.HGetInt64(key, field)
+		if err == kv.ErrKeyNotFound {
+			err = nil
+			return
+		}
+		if err != nil {
+			return
+		}
+		if current != s.leased {
+			// another sequence leased later ids meanwhile, the remaining ones can not be returned
+			return
+		}
+
 		err = txStruct.HSetInt64(key, field, s.next)
 		if err != nil {
 			return
diff --git a/document/meta/sequence/string.go b/document/meta/sequence/string.go
index 51ea5cb..25eaad5 100644
--- a/document/meta/sequence/string.go
+++ b/document/meta/sequence/string.go
@@ -3,6 +3,7 @@ package sequence
 import (
 	"github.com/zhiqiangxu/mondis"
 	"github.com/zhiqiangxu/mondis/document/keyspace"
+	"github.com/zhiqiangxu/mondis/kv"
 	"github.com/zhiqiangxu/mondis/structure"
 )
 
@@ -69,6 +70,19 @@ func NewString(kvdb mondis.KVDB, keyword []byte, bandwidth int64) (s *String, er
 		defer txn.Discard()
 
 		txStruct := structure.New(txn, keyspace.MetaPrefixBytes)
+		current, err := txStruct.GetInt64(keyword)
+		if err == kv.ErrKeyNotFound {
+			err = nil
+			return
+		}
+		if err != nil {
+			return
+		}
+		if current != s.leased {
+			// another sequence leased later ids meanwhile, the remaining ones can not be returned
+			return
+		}
+
 		err = txStruct.SetInt64(keyword, s.next)
 		if err != nil {
 			return
-- 
2.43.0


From 06b90570b5921f27d901c2451ba559e0c7da4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 10/39] fix: making the columns key of an index leaves the
 caller's fields alone

---
 document/keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/document/keys.go b/document/keys.go
index 8b50a30..fee0e24 100644
--- a/document/keys.go
+++ b/document/keys.go
@@ -85,6 +85,8 @@ func EncodeCollectionColumnsIndexedKey(buf []byte, cid int64, fields []IndexFiel
 		buf = make([]byte, 0, bufLen)
 	}
 
+	// the fields of the caller stay as they are
+	fields = append([]IndexField(nil), fields...)
 	if len(fields) == 1 {
 		fields[0].Desc = false
 	} else {
-- 
2.43.0


From 16454486a5667275e8bcbfaa342cacf58e73525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 11/39] fix: releasing the rest of a document sequence takes
 effect, and keeps ids leased later by others

---
 document/sequence.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/document/sequence.go b/document/sequence.go
index 018acf1..14f52b0 100644
--- a/document/sequence.go
+++ b/document/sequence.go
@@ -76,18 +76,34 @@ func (s *Sequence) ReleaseRemaining() (err error) {
 	s.Lock()
 	defer s.Unlock()
 
-	if s.leased == s.next {
+	if s.next >= s.leased {
 		return
 	}
 
 	txn := s.kvdb.NewTransaction(true)
 	defer txn.Discard()
 
-	buf := numeric.Encode2Binary(s.next, nil)
-	err = txn.Set(s.key, buf, nil)
+	val, _, err := txn.Get(s.key)
 	if err != nil {
 		return
 	}
+	stored, err := numeric.DecodeFromBinary(val)
+	if err != nil {
+		return
+	}
+
+	// keep what was leased by other sequences later
+	if stored == s.leased {
+		buf := numeric.Encode2Binary(s.next, nil)
+		err = txn.Set(s.key, buf, nil)
+		if err != nil {
+			return
+		}
+		err = txn.Commit()
+		if err != nil {
+			return
+		}
+	}
 
 	s.leased = s.next
 	return
-- 
2.43.0


From e79eda5e96962bc89460049718a51e97125dcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 12/39] fix: server: decode the Set requests of a running
 transaction into the request

The payload was decoded into the response message, so the transaction
wrote the key and value of an empty (or earlier) request.
---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 6ab956a..4a2712e 100644
--- a/server/common.go
+++ b/server/common.go
@@ -43,7 +43,7 @@ func handleTxnContinuedFrame(
 		switch nextFrame.Cmd {
 		case SetCmd:
 			close = false
-			err = setResp.Unmarshal(nextFrame.Payload)
+			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
 				close = true
 				setResp.Code = CodeInvalidRequest
-- 
2.43.0


From 8d69d73e9871b247907053e529534763b0a70d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 13/39] fix: server: use fresh messages for every frame of a
 transaction

Decoding merges into the message and reuses the memory of its byte
fields: a later Set overwrote the key and value that the transaction
still held for an earlier one, absent fields kept earlier values, and the
entries of successive scans accumulated.
---
 server/common.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/server/common.go b/server/common.go
index 4a2712e..4ec324b 100644
--- a/server/common.go
+++ b/server/common.go
@@ -16,19 +16,8 @@ func handleTxnContinuedFrame(
 	frame *qrpc.RequestFrame,
 	txn mondis.ProviderTxn) {
 	var (
-		getReq     pb.GetRequest
-		getResp    pb.GetResponse
-		deleteReq  pb.DeleteRequest
-		deleteResp pb.DeleteResponse
-		setReq     pb.SetRequest
-		setResp    pb.SetResponse
-		existsReq  pb.ExistsRequest
-		existsResp pb.ExistsResponse
-		scanReq    pb.ScanRequest
-		scanResp   pb.ScanResponse
-		commitResp pb.CommitResponse
-		err        error
-		close      bool
+		err   error
+		close bool
 	)
 	for {
 		nextFrame := <-frame.FrameCh()
@@ -42,6 +31,10 @@ func handleTxnContinuedFrame(
 		}
 		switch nextFrame.Cmd {
 		case SetCmd:
+			var (
+				setReq  pb.SetRequest
+				setResp pb.SetResponse
+			)
 			close = false
 			err = setReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
@@ -65,6 +58,10 @@ func handleTxnContinuedFrame(
 				return
 			}
 		case ExistsCmd:
+			var (
+				existsReq  pb.ExistsRequest
+				existsResp pb.ExistsResponse
+			)
 			close = false
 			err = existsReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
@@ -88,6 +85,10 @@ func handleTxnContinuedFrame(
 				return
 			}
 		case GetCmd:
+			var (
+				getReq  pb.GetRequest
+				getResp pb.GetResponse
+			)
 			close = false
 			err = getReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
@@ -111,6 +112,10 @@ func handleTxnContinuedFrame(
 				return
 			}
 		case DeleteCmd:
+			var (
+				deleteReq  pb.DeleteRequest
+				deleteResp pb.DeleteResponse
+			)
 			close = false
 			err = deleteReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
@@ -134,6 +139,10 @@ func handleTxnContinuedFrame(
 				return
 			}
 		case ScanCmd:
+			var (
+				scanReq  pb.ScanRequest
+				scanResp pb.ScanResponse
+			)
 			close = false
 			err = scanReq.Unmarshal(nextFrame.Payload)
 			if err != nil {
@@ -157,6 +166,7 @@ func handleTxnContinuedFrame(
 				return
 			}
 		case CommitCmd:
+			var commitResp pb.CommitResponse
 			handleTxnCommit(txn, &commitResp)
 			{
 				bytes, _ := commitResp.Marshal()
-- 
2.43.0


From df1eda4a7113914761f35dc68eba14293f290fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 14/39] fix: server: a scan request without options must not
 crash the server

proto3 leaves an absent submessage nil.
---
 server/common.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/common.go b/server/common.go
index 4ec324b..027d2d0 100644
--- a/server/common.go
+++ b/server/common.go
@@ -293,8 +293,10 @@ func copyBytes(in []byte) (out []byte) {
 }
 
 func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResponse) {
-	pso := req.ProviderScanOption
-	option := mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
+	var option mondis.ProviderScanOption
+	if pso := req.ProviderScanOption; pso != nil {
+		option = mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
+	}
 	limit := int(req.Limit)
 	if limit == 0 {
 		goto DONE
-- 
2.43.0


From b681af319f9b4aea991c987e869c2298cebde1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 15/39] fix: server: a scan with a negative limit returns no
 entry

---
 server/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/common.go b/server/common.go
index 027d2d0..86fc630 100644
--- a/server/common.go
+++ b/server/common.go
@@ -298,7 +298,7 @@ func handleScan(kvop mondis.ProviderKVOP, req *pb.ScanRequest, resp *pb.ScanResp
 		option = mondis.ProviderScanOption{Reverse: pso.Reverse, Prefix: pso.Prefix, Offset: pso.Offset}
 	}
 	limit := int(req.Limit)
-	if limit == 0 {
+	if limit <= 0 {
 		goto DONE
 	}
 	if limit > mondis.MaxEntry {
-- 
2.43.0


From 634d010d6f2e655dc9b07181eef580b0af6e2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:58 +0000
Subject: [PATCH 16/39] fix: server: report ErrTxnTooBig of single writes as
 such

The client maps CodeTxnTooBig back to kv.ErrTxnTooBig, which was never
sent outside of transactions.
---
 server/common.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/server/common.go b/server/common.go
index 86fc630..e9be5bf 100644
--- a/server/common.go
+++ b/server/common.go
@@ -211,10 +211,12 @@ func handleSet(kvdb mondis.KVDB, req *pb.SetRequest, resp *pb.SetResponse) {
 	meta := metaFromSetRequest(req)
 	err := kvdb.Set(req.Key, req.Value, meta)
 	if err != nil {
-
-		resp.Code = CodeInternalError
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+		} else {
+			resp.Code = CodeInternalError
+		}
 		resp.Msg = err.Error()
-
 		return
 	}
 
@@ -260,7 +262,11 @@ func handleGet(kvop mondis.ProviderKVOP, req *pb.GetRequest, resp *pb.GetRespons
 func handleDelete(kvdb mondis.KVDB, req *pb.DeleteRequest, resp *pb.DeleteResponse) {
 	err := kvdb.Delete(req.Key)
 	if err != nil {
-		resp.Code = CodeInternalError
+		if err == kv.ErrTxnTooBig {
+			resp.Code = CodeTxnTooBig
+		} else {
+			resp.Code = CodeInternalError
+		}
 		resp.Msg = err.Error()
 		return
 	}
-- 
2.43.0


From 58362da207d4091434aa3cd9a7e8c576b59b7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 17/39] fix: client: report ErrTxnTooBig of Delete as such, as
 Set does

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 2b9545b..c004df6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -193,7 +193,13 @@ func parseDeleteRespFromFrame(respFrame *qrpc.Frame) (err error) {
 	}
 
 	if deleteResp.Code != 0 {
-		err = newPBError(deleteResp.Code, deleteResp.Msg)
+
+		if deleteResp.Code == server.CodeTxnTooBig {
+			err = kv.ErrTxnTooBig
+		} else {
+			err = newPBError(deleteResp.Code, deleteResp.Msg)
+		}
+
 		return
 	}
 
-- 
2.43.0


From 2229afced8aa7d0745294ddff0db7002d5bdb741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 18/39] fix: client: a transaction whose stream is closed fails
 instead of crashing

---
 client/client_txn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client_txn.go b/client/client_txn.go
index 8dce8a9..7bb105e 100644
--- a/client/client_txn.go
+++ b/client/client_txn.go
@@ -52,6 +52,9 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 func (txn *Txn) getRespFrame() (respFrame *qrpc.Frame, err error) {
 	if txn.firstFrame != nil {
 		respFrame = <-txn.firstFrame.FrameCh()
+		if respFrame == nil {
+			err = qrpc.ErrConnAlreadyClosed
+		}
 		return
 	}
 
-- 
2.43.0


From 315ce0dfda43edb8edb7e2b69bb9d31f26a5ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 19/39] fix: client: a response without meta data does not
 crash the client

---
 client/client.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index c004df6..003cde6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -154,8 +154,10 @@ func parseGetRespFromFrame(respFrame *qrpc.Frame) (v []byte, meta mondis.VMetaRe
 	}
 
 	v = getResp.Value
-	meta.ExpiresAt = getResp.Meta.ExpiresAt
-	meta.Tag = byte(getResp.Meta.Tag)
+	if getResp.Meta != nil {
+		meta.ExpiresAt = getResp.Meta.ExpiresAt
+		meta.Tag = byte(getResp.Meta.Tag)
+	}
 
 	return
 }
@@ -259,7 +261,10 @@ func parseScanRespFromFrame(respFrame *qrpc.Frame) (entries []mondis.Entry, err
 
 	entries = make([]mondis.Entry, len(scanResp.Entries))
 	for i, entry := range scanResp.Entries {
-		meta := mondis.VMetaResp{ExpiresAt: entry.Meta.ExpiresAt, Tag: byte(entry.Meta.Tag)}
+		var meta mondis.VMetaResp
+		if entry.Meta != nil {
+			meta = mondis.VMetaResp{ExpiresAt: entry.Meta.ExpiresAt, Tag: byte(entry.Meta.Tag)}
+		}
 		entries[i] = mondis.Entry{Key: entry.Key, Value: entry.Value, Meta: meta}
 		entry.Key = nil
 		entry.Value = nil
-- 
2.43.0


From 56f9ed8838589cab88986e033c3fcf13e282b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:20 +0000
Subject: [PATCH 20/39] fix: Badger.Delete reports ErrTxnTooBig as such, as Set
 does

---
 provider/badger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/badger.go b/provider/badger.go
index 58863e2..ba39d47 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -74,7 +74,7 @@ func (b *Badger) Get(k []byte) (v []byte, meta mondis.VMetaResp, err error) {
 
 // Delete k
 func (b *Badger) Delete(key []byte) (err error) {
-	txn := b.db.NewTransaction(true)
+	txn := (*Txn)(b.db.NewTransaction(true))
 	defer txn.Discard()
 
 	err = txn.Delete(key)
-- 
2.43.0


From f699d58c1f38741aeea347d7272808203a006bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 21/39] fix: a key that is set with a tag but no TTL does not
 expire at once

---
 provider/badger_txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/badger_txn.go b/provider/badger_txn.go
index e307d58..0dbfb9c 100644
--- a/provider/badger_txn.go
+++ b/provider/badger_txn.go
@@ -21,7 +21,10 @@ func (txn *Txn) Set(k, v []byte, meta *mondis.VMetaReq) (err error) {
 		return (*badger.Txn)(txn).Set(k, v)
 	}
 
-	entry := badger.NewEntry(k, v).WithTTL(meta.TTL).WithMeta(meta.Tag)
+	entry := badger.NewEntry(k, v).WithMeta(meta.Tag)
+	if meta.TTL != 0 {
+		entry = entry.WithTTL(meta.TTL)
+	}
 	return (*badger.Txn)(txn).SetEntry(entry)
 }
 
-- 
2.43.0


From 0e55ad6dbdde83fc4b01c0a6554195f315700563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:31 +0000
Subject: [PATCH 22/39] fix: badger: a reverse scan with a prefix starts at the
 end of the prefix, and offsets outside of it are honoured

---
 provider/badger.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/provider/badger.go b/provider/badger.go
index ba39d47..52ac1ca 100644
--- a/provider/badger.go
+++ b/provider/badger.go
@@ -1,7 +1,10 @@
 package provider
 
 import (
+	"bytes"
+
 	"github.com/dgraph-io/badger"
+	"github.com/syndtr/goleveldb/leveldb/util"
 	"github.com/zhiqiangxu/mondis"
 )
 
@@ -104,15 +107,27 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	iterOpts := badger.DefaultIteratorOptions
 	iterOpts.Reverse = option.Reverse
 
+	start := option.Offset
 	if len(option.Prefix) > 0 {
-		iterOpts.Prefix = option.Prefix
+		if option.Reverse {
+			// start at the end of the prefix; badger ends an iteration with Prefix at the first key without it
+			limit := util.BytesPrefix(option.Prefix).Limit
+			if limit != nil && (len(start) == 0 || bytes.Compare(start, limit) > 0) {
+				start = limit
+			}
+		} else {
+			iterOpts.Prefix = option.Prefix
+			if bytes.Compare(start, option.Prefix) < 0 {
+				start = option.Prefix
+			}
+		}
 	}
 
 	iter := txn.NewIterator(iterOpts)
 	defer iter.Close()
 
-	if option.Offset != nil {
-		iter.Seek(option.Offset)
+	if len(start) > 0 {
+		iter.Seek(start)
 	} else {
 		iter.Rewind()
 	}
@@ -120,6 +135,12 @@ func scanByBadgerTxn(txn *badger.Txn, option mondis.ProviderScanOption, fn func(
 	var goon bool
 	for ; iter.Valid(); iter.Next() {
 		item := iter.Item()
+		if option.Reverse && !bytes.HasPrefix(item.Key(), option.Prefix) {
+			if bytes.Compare(item.Key(), option.Prefix) > 0 {
+				continue
+			}
+			break
+		}
 
 		err = item.Value(func(val []byte) error {
 			goon = fn(item.Key(), val, mondis.VMetaResp{ExpiresAt: item.ExpiresAt(), Tag: item.UserMeta()})
-- 
2.43.0


From 1309d31530aeb1ec87c03fb0607fd74611e59cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:39 +0000
Subject: [PATCH 23/39] fix: leveldb: a scan releases its iterator and reports
 the error that ended it

---
 provider/leveldb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/leveldb.go b/provider/leveldb.go
index 4edd664..1de0c42 100644
--- a/provider/leveldb.go
+++ b/provider/leveldb.go
@@ -97,6 +97,10 @@ func (l *LevelDB) Scan(option mondis.ProviderScanOption, fn func(key []byte, val
 		slice = util.BytesPrefix(option.Prefix)
 	}
 	iter := l.db.NewIterator(slice, nil)
+	defer func() {
+		err = iter.Error()
+		iter.Release()
+	}()
 	if option.Offset != nil {
 		if !iter.Seek(option.Offset) {
 			return
-- 
2.43.0


From f2b447c3147f99a91bcbbac108a5c33f67da8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 24/39] fix: release the schema lock when a check finds a
 conflict

---
 document/schema/handle.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/schema/handle.go b/document/schema/handle.go
index ecab688..2413a93 100644
--- a/document/schema/handle.go
+++ b/document/schema/handle.go
@@ -54,6 +54,7 @@ func (h *Handle) Check(ctx context.Context, startMetaCache *MetaCache, referredC
 
 			for _, collectionIDs := range cache.schemaDiffs[diffIdx] {
 				if _, ok := referredCollections[collectionIDs]; ok {
+					h.mu.RUnlock()
 					return
 				}
 			}
-- 
2.43.0


From dc639733d985f3299974a27872345250611eee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 25/39] fix: applying no schema diffs does not panic

---
 document/schema/metacache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/document/schema/metacache.go b/document/schema/metacache.go
index 9611778..bdf9b67 100644
--- a/document/schema/metacache.go
+++ b/document/schema/metacache.go
@@ -142,6 +142,10 @@ func (c *MetaCache) validateDiffs(diffs []*model.SchemaDiff) (err error) {
 		}
 	}
 
+	if len(diffs) == 0 {
+		return
+	}
+
 	if diffs[0].Version != c.diffStartVersion+int64(len(c.schemaDiffs)) {
 		err = fmt.Errorf("diff0 not consecutive")
 		return
-- 
2.43.0


From 605645bc3492d0eead3ca7d648eb9a43dc72f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 26/39] fix: the clone of a missing schema cache can hold
 databases

---
 document/schema/metacache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/schema/metacache.go b/document/schema/metacache.go
index bdf9b67..27ce97b 100644
--- a/document/schema/metacache.go
+++ b/document/schema/metacache.go
@@ -84,7 +84,7 @@ func (c *MetaCache) CheckIndexExists(dbName, collectionName, indexName string) (
 // Clone for deep copy
 func (c *MetaCache) Clone() *MetaCache {
 	if c == nil {
-		return &MetaCache{diffStartVersion: 1}
+		return NewMetaCache(0, nil)
 	}
 	clone := *c
 	clone.dbs = make(map[string]*model.DBInfo)
-- 
2.43.0


From ad1e10be15ae786fafdcc5f41481f16aaf3ff9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:44 +0000
Subject: [PATCH 27/39] fix: report a missing collection and a failed write of
 InsertOne

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 5d56a96..1b50f13 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -55,7 +55,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 	insertFunc := func(t *txn.Txn) (ierr error) {
 		ci := t.StartMetaCache().CollectionInfo(c.dbName, c.collectionName)
 		if ci == nil {
-			err = ErrCollectionNotExists
+			ierr = ErrCollectionNotExists
 			return
 		}
 		if origT != nil {
@@ -76,7 +76,7 @@ func (c *Collection) InsertOne(doc interface{}, t *txn.Txn) (did int64, err erro
 		docKey := EncodeCollectionDocumentKey(nil, ci.ID, did)
 
 		ierr = t.Set(docKey, data, nil)
-		if err != nil {
+		if ierr != nil {
 			return
 		}
 
-- 
2.43.0


From aa7ac1292e91649fd43af19e53d9784e9a793563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:51 +0000
Subject: [PATCH 28/39] fix: the id range of a collection comes from its own
 documents

---
 document/dml/collection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/dml/collection.go b/document/dml/collection.go
index 1b50f13..ca0296f 100644
--- a/document/dml/collection.go
+++ b/document/dml/collection.go
@@ -310,7 +310,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 	}
 
 	collectionDocumentPrefix := AppendCollectionDocumentPrefix(nil, ci.ID)
-	scanErr := t.Scan(mondis.ProviderScanOption{Offset: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr := t.Scan(mondis.ProviderScanOption{Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, min, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
@@ -321,7 +321,7 @@ func (c *Collection) GetDidRange(t *txn.Txn) (min, max int64, err error) {
 		err = scanErr
 		return
 	}
-	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Offset: collectionDocumentPrefix.PrefixNext()}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
+	scanErr = t.Scan(mondis.ProviderScanOption{Reverse: true, Prefix: collectionDocumentPrefix}, func(key []byte, value []byte, _ mondis.VMetaResp) bool {
 		_, max, err = DecodeCollectionDocumentKey(key)
 		return false
 	})
-- 
2.43.0


From 74e727b222cb980ea3c3f00b70136a5e92fec04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:51 +0000
Subject: [PATCH 29/39] fix: DeleteAll deletes in an update transaction, which
 is committed

---
 document/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document/collection.go b/document/collection.go
index 515dacb..7ac21e2 100644
--- a/document/collection.go
+++ b/document/collection.go
@@ -298,7 +298,7 @@ func (c *Collection) DeleteAll(txn mondis.ProviderTxn) (n int, err error) {
 		return
 	}
 
-	err = tutil.RunInNewTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
+	err = tutil.RunInNewUpdateTxn(c.kvdb, func(txn mondis.ProviderTxn) error {
 		newN, err := c.deleteAllWithTxn(txn)
 		n += newN
 		return err
-- 
2.43.0


From d4c97defbcd85685bbb1b461c0b45dbd8ec6c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:32 +0000
Subject: [PATCH 30/39] fix: a job that failed can be read back: its error is
 stored as text

---
 document/model/model.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/document/model/model.go b/document/model/model.go
index 46389ed..e45d8f7 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/zhiqiangxu/util/osc"
 )
@@ -44,7 +45,8 @@ type (
 		ID          int64
 		Type        ActionType
 		State       JobState
-		Error       error
+		Error       error `json:"-"`
+		ErrorMsg    string
 		ErrorCount  int64
 		Arg         interface{} `json:"-"`
 		RawArg      json.RawMessage
@@ -245,6 +247,11 @@ func (job *Job) Encode() (b []byte, err error) {
 		}
 	}
 
+	job.ErrorMsg = ""
+	if job.Error != nil {
+		job.ErrorMsg = job.Error.Error()
+	}
+
 	b, err = json.Marshal(job)
 
 	return
@@ -254,6 +261,9 @@ func (job *Job) Encode() (b []byte, err error) {
 // decode special arg for this job.
 func (job *Job) Decode(b []byte) (err error) {
 	err = json.Unmarshal(b, job)
+	if err == nil && job.ErrorMsg != "" {
+		job.Error = errors.New(job.ErrorMsg)
+	}
 	return
 }
 
-- 
2.43.0


From 21262f4f38447ecbe2ce45d58dec9bf4e443cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:47 +0000
Subject: [PATCH 31/39] fix: a schema can be created with indexes

---
 document/ddl/ddl_api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index 964ae50..d2bfcc7 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -53,8 +53,9 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 			collectInfo := dbInfo.Collections[cn]
 			if collectInfo == nil {
 				collectInfo = &model.CollectionInfo{
-					ID:   nextID + 1,
-					Name: cn,
+					ID:      nextID + 1,
+					Name:    cn,
+					Indices: make(map[string]*model.IndexInfo),
 				}
 				nextID++
 				dbInfo.Collections[cn] = collectInfo
-- 
2.43.0


From d0c0f4117f7e35fa301d508d0a3d27b4d53a7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:47 +0000
Subject: [PATCH 32/39] fix: creating a schema takes an id for every index

---
 document/ddl/ddl_api.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/document/ddl/ddl_api.go b/document/ddl/ddl_api.go
index d2bfcc7..ea82b71 100644
--- a/document/ddl/ddl_api.go
+++ b/document/ddl/ddl_api.go
@@ -16,7 +16,10 @@ func (d *DDL) CreateSchema(ctx context.Context, input CreateSchemaInput) (job *m
 		return
 	}
 
-	n := 2 + len(input.Collections) + len(input.Indices)
+	n := 2 + len(input.Collections)
+	for _, cn := range input.Collections {
+		n += len(input.Indices[cn])
+	}
 	err = util.RunInNewUpdateTxn(d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 		m := meta.NewMeta(txn)
 		queueLength, err := m.DDLJobQueueLen()
-- 
2.43.0


From fcace4d49104c9d1ef60929a84a3d2e05184c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:47 +0000
Subject: [PATCH 33/39] fix: an index can be added to a collection without
 indexes

---
 document/model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document/model/model.go b/document/model/model.go
index e45d8f7..5311aac 100644
--- a/document/model/model.go
+++ b/document/model/model.go
@@ -208,6 +208,9 @@ func (c *CollectionInfo) AddIndexInfo(iif *IndexInfo) (ok bool) {
 		return
 	}
 
+	if c.Indices == nil {
+		c.Indices = make(map[string]*IndexInfo)
+	}
 	c.Indices[iif.Name] = iif.Clone()
 	c.IndexOrder = append(c.IndexOrder, iif.Name)
 	ok = true
-- 
2.43.0


From 3c1f8d436e864980ae26ae7dd306acd3fcde9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:48 +0000
Subject: [PATCH 34/39] fix: a missing index fails the job that adds it

---
 document/ddl/ddl_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index f44c527..4123462 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -241,7 +241,7 @@ func (w *worker) onAddIndex(m *meta.Meta, job *model.Job) (schemaVersion int64,
 
 	case osc.StateDeleteOnly:
 		// delete only -> write only
-		if ci == nil {
+		if iif == nil {
 			err = ErrIndexNotExists
 			failNow = true
 			return
@@ -258,7 +258,7 @@ func (w *worker) onAddIndex(m *meta.Meta, job *model.Job) (schemaVersion int64,
 		job.SchemaState = osc.StateWriteOnly
 	case osc.StateWriteOnly:
 		// write only -> reorganization
-		if ci == nil {
+		if iif == nil {
 			err = ErrIndexNotExists
 			failNow = true
 			return
-- 
2.43.0


From 2bce53be8adaa65f42f2d7ba0241f96658485a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:48 +0000
Subject: [PATCH 35/39] fix: the outcome of a job does not leak into the next
 one

---
 document/ddl/ddl_worker.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index 4123462..c6aa355 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -62,15 +62,15 @@ const (
 // handleJobQueue handles jobs in Job queue.
 func (w *worker) handleJobQueue() (err error) {
 
-	var (
-		nojob               bool
-		schemaVersion       int64
-		failNow             bool
-		runJobErr           error
-		afterCommitFunc4Job func()
-		job                 *model.Job
-	)
 	for {
+		var (
+			nojob               bool
+			schemaVersion       int64
+			failNow             bool
+			runJobErr           error
+			afterCommitFunc4Job func()
+			job                 *model.Job
+		)
 		err = util.RunInNewUpdateTxnWithCallback(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
 			m := meta.NewMeta(txn)
 
@@ -119,7 +119,6 @@ func (w *worker) handleJobQueue() (err error) {
 				afterCommitFunc4Job()
 			}
 		})
-		afterCommitFunc4Job = nil
 
 		if nojob {
 			return
-- 
2.43.0


From e2ce3907f3ed91f2b9e11ccf3d061e92276c4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:48 +0000
Subject: [PATCH 36/39] fix: a job that failed for good is cancelled

---
 document/ddl/ddl_worker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index c6aa355..a5018e1 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -102,6 +102,7 @@ func (w *worker) handleJobQueue() (err error) {
 				job.Error = runJobErr
 				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
 				if failNow || job.ErrorCount >= jobMaxErrorCount {
+					job.State = model.JobStateCancelled
 					err = w.finishJob(m, job)
 					return
 				}
-- 
2.43.0


From 784f4f19763bbcf5092020f40bc44f7ea3548cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:48 +0000
Subject: [PATCH 37/39] fix: waiting for a job that ended without an error does
 not crash

---
 document/ddl/ddl_worker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index a5018e1..d767427 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -412,7 +412,8 @@ func (d *DDL) checkJob(ctx context.Context, job *model.Job) (err error) {
 			return
 		}
 
-		panic("When the state is JobStateRollbackDone or JobStateCancelled, historyJob.Error should never be nil")
+		err = fmt.Errorf("ddl job %d: %s", job.ID, historyJob.State)
+		return
 	}
 
 }
-- 
2.43.0


From 8b329ea092bed5faabbecaa092929db2370beef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:00 +0000
Subject: [PATCH 38/39] fix: nothing of a failed run of a job is committed

---
 document/ddl/ddl_worker.go | 43 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index d767427..3bd6b34 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -93,19 +93,15 @@ func (w *worker) handleJobQueue() (err error) {
 
 			util2.RunWithRecovery(func() {
 				schemaVersion, afterCommitFunc4Job, failNow, runJobErr = w.runJob(m, job)
-			}, func(interface{}) {
+			}, func(r interface{}) {
 				job.State = model.JobStateCancelling
+				runJobErr = fmt.Errorf("runJob panic: %v", r)
 			})
 
 			if runJobErr != nil {
-				job.ErrorCount++
-				job.Error = runJobErr
-				logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
-				if failNow || job.ErrorCount >= jobMaxErrorCount {
-					job.State = model.JobStateCancelled
-					err = w.finishJob(m, job)
-					return
-				}
+				// nothing of a failed run is committed
+				err = runJobErr
+				return
 			}
 
 			if job.IsCancelled() {
@@ -120,6 +116,9 @@ func (w *worker) handleJobQueue() (err error) {
 				afterCommitFunc4Job()
 			}
 		})
+		if runJobErr != nil {
+			err = w.failJob(job, failNow, runJobErr)
+		}
 
 		if nojob {
 			return
@@ -165,6 +164,32 @@ func (w *worker) runJob(m *meta.Meta, job *model.Job) (schemaVersion int64, afte
 	return
 }
 
+// failJob records the failure of a job, which is run again unless failNow or it failed too often.
+func (w *worker) failJob(job *model.Job, failNow bool, runJobErr error) (err error) {
+	job.ErrorCount++
+	job.Error = runJobErr
+	logger.Instance().Error("runJob", zap.Any("job", job), zap.Error(runJobErr))
+
+	err = util.RunInNewUpdateTxn(w.d.kvdb, func(txn mondis.ProviderTxn) (err error) {
+		m := meta.NewMeta(txn)
+
+		first, err := w.getFirstJob(m)
+		if err != nil || first == nil || first.ID != job.ID {
+			return
+		}
+
+		if failNow || job.ErrorCount >= jobMaxErrorCount || job.IsCancelled() {
+			job.State = model.JobStateCancelled
+			err = w.finishJob(m, job)
+			return
+		}
+
+		err = w.updateJob(m, job)
+		return
+	})
+	return
+}
+
 func (w *worker) updateJob(m *meta.Meta, job *model.Job) (err error) {
 	err = m.UpdateDDLJob(0, job)
 	return
-- 
2.43.0


From e1a10718db90e322e63c85f01e77402f29e7053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:00 +0000
Subject: [PATCH 39/39] fix: the schema diff of a job describes the schema it
 made

---
 document/ddl/ddl_worker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document/ddl/ddl_worker.go b/document/ddl/ddl_worker.go
index 3bd6b34..0983da1 100644
--- a/document/ddl/ddl_worker.go
+++ b/document/ddl/ddl_worker.go
@@ -256,12 +256,12 @@ func (w *worker) onAddIndex(m *meta.Meta, job *model.Job) (schemaVersion int64,
 			panic("AddIndexInfo: bug happened")
 		}
 
+		job.RawArg = nil // will encode job.Arg into job.RawArg
 		schemaVersion, err = updateSchemaVersionAndCollectionInfo(m, job, dbi, ci)
 		if err != nil {
 			return
 		}
 
-		job.RawArg = nil // will encode job.Arg into job.RawArg
 		job.SchemaState = osc.StateDeleteOnly
 
 	case osc.StateDeleteOnly:
@@ -344,6 +344,7 @@ func (w *worker) onCreateSchema(m *meta.Meta, job *model.Job) (schemaVersion int
 		}
 	}
 
+	job.RawArg = nil // will encode job.Arg into job.RawArg
 	schemaVersion, err = updateSchemaVersion(m, job)
 	if err != nil {
 		return
-- 
2.43.0

