// Code generated by tools/genpb.py. DO NOT EDIT.

package pb

import (
	gvc "github.com/zhiqiangxu/mondis/zzgvc"
)

// The assumed contract of the generated wire code: the ZZ functions read a field out of an encoded message; an
// encoding carries the fields of the message it was made from; decoding merges what the bytes carry into the
// message: a field the bytes do not carry keeps the value it had, and byte fields reuse the memory they had.

func zzBad() error {
	err := gvc.AnyError("wire error")
	gvc.Assume("decoding fails with an error", err != nil)
	return err
}

//gvc:opaque
func ZZSetRequestOK(s string) bool {
	var m SetRequest
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZSetRequestHasKey(s string) bool {
	var m SetRequest
	m.Unmarshal([]byte(s))
	return m.Key != nil
}

//gvc:opaque
func ZZSetRequestKey(s string) string {
	var m SetRequest
	m.Unmarshal([]byte(s))
	return string(m.Key)
}

//gvc:opaque
func ZZSetRequestHasValue(s string) bool {
	var m SetRequest
	m.Unmarshal([]byte(s))
	return m.Value != nil
}

//gvc:opaque
func ZZSetRequestValue(s string) string {
	var m SetRequest
	m.Unmarshal([]byte(s))
	return string(m.Value)
}

//gvc:opaque
func ZZSetRequestHasMeta(s string) bool {
	var m SetRequest
	m.Unmarshal([]byte(s))
	return m.Meta != nil
}

//gvc:opaque
func ZZSetRequestMetaTTL(s string) int64 {
	var m SetRequest
	m.Unmarshal([]byte(s))
	if m.Meta == nil {
		return 0
	}
	return m.Meta.TTL
}

//gvc:opaque
func ZZSetRequestMetaTag(s string) uint32 {
	var m SetRequest
	m.Unmarshal([]byte(s))
	if m.Meta == nil {
		return 0
	}
	return m.Meta.Tag
}

//gvc:spec (*SetRequest).Unmarshal
func zzSetRequestUnmarshal(m *SetRequest, dAtA []byte) error {
	s := string(dAtA)
	if !ZZSetRequestOK(s) {
		m.Key = gvc.AnyBytes("Key")
		m.Value = gvc.AnyBytes("Value")
		m.Meta = &VMetaReq{TTL: gvc.AnyInt64("TTL"), Tag: uint32(gvc.AnyInt64("Tag"))}
		return zzBad()
	}
	if cap(m.Key) == 0 {
		m.Key = gvc.CopyOf(ZZSetRequestKey(s))
	} else if ZZSetRequestHasKey(s) {
		m.Key = append(m.Key[:0], ZZSetRequestKey(s)...)
	}
	if cap(m.Value) == 0 {
		m.Value = gvc.CopyOf(ZZSetRequestValue(s))
	} else if ZZSetRequestHasValue(s) {
		m.Value = append(m.Value[:0], ZZSetRequestValue(s)...)
	}
	if ZZSetRequestHasMeta(s) {
		if m.Meta == nil {
			m.Meta = &VMetaReq{}
		}
		if m.Meta.TTL == 0 {
			m.Meta.TTL = ZZSetRequestMetaTTL(s)
		} else if ZZSetRequestMetaTTL(s) != 0 || gvc.AnyBool("explicit zero") {
			m.Meta.TTL = ZZSetRequestMetaTTL(s)
		}
		if m.Meta.Tag == 0 {
			m.Meta.Tag = ZZSetRequestMetaTag(s)
		} else if ZZSetRequestMetaTag(s) != 0 || gvc.AnyBool("explicit zero") {
			m.Meta.Tag = ZZSetRequestMetaTag(s)
		}
	}
	return nil
}

//gvc:spec (*SetRequest).Marshal
func zzSetRequestMarshal(m *SetRequest) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZSetRequestOK(s) && ZZSetRequestKey(s) == string(m.Key) && ZZSetRequestValue(s) == string(m.Value) && ZZSetRequestHasMeta(s) == (m.Meta != nil))
	if m.Meta != nil {
		gvc.Assume("the wire format round-trips", ZZSetRequestMetaTTL(s) == m.Meta.TTL && ZZSetRequestMetaTag(s) == m.Meta.Tag)
	}
	return []byte(s), nil
}

//gvc:opaque
func ZZSetResponseOK(s string) bool {
	var m SetResponse
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZSetResponseCode(s string) int32 {
	var m SetResponse
	m.Unmarshal([]byte(s))
	return m.Code
}

//gvc:opaque
func ZZSetResponseMsg(s string) string {
	var m SetResponse
	m.Unmarshal([]byte(s))
	return m.Msg
}

//gvc:spec (*SetResponse).Unmarshal
func zzSetResponseUnmarshal(m *SetResponse, dAtA []byte) error {
	s := string(dAtA)
	if !ZZSetResponseOK(s) {
		m.Code = int32(gvc.AnyInt64("Code"))
		m.Msg = gvc.AnyString("Msg")
		return zzBad()
	}
	if m.Code == 0 {
		m.Code = ZZSetResponseCode(s)
	} else if ZZSetResponseCode(s) != 0 || gvc.AnyBool("explicit zero") {
		m.Code = ZZSetResponseCode(s)
	}
	if m.Msg == "" {
		m.Msg = ZZSetResponseMsg(s)
	} else if ZZSetResponseMsg(s) != "" || gvc.AnyBool("explicit zero") {
		m.Msg = ZZSetResponseMsg(s)
	}
	return nil
}

//gvc:spec (*SetResponse).Marshal
func zzSetResponseMarshal(m *SetResponse) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZSetResponseOK(s) && ZZSetResponseCode(s) == m.Code && ZZSetResponseMsg(s) == m.Msg)
	return []byte(s), nil
}

//gvc:opaque
func ZZGetRequestOK(s string) bool {
	var m GetRequest
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZGetRequestHasKey(s string) bool {
	var m GetRequest
	m.Unmarshal([]byte(s))
	return m.Key != nil
}

//gvc:opaque
func ZZGetRequestKey(s string) string {
	var m GetRequest
	m.Unmarshal([]byte(s))
	return string(m.Key)
}

//gvc:spec (*GetRequest).Unmarshal
func zzGetRequestUnmarshal(m *GetRequest, dAtA []byte) error {
	s := string(dAtA)
	if !ZZGetRequestOK(s) {
		m.Key = gvc.AnyBytes("Key")
		return zzBad()
	}
	if cap(m.Key) == 0 {
		m.Key = gvc.CopyOf(ZZGetRequestKey(s))
	} else if ZZGetRequestHasKey(s) {
		m.Key = append(m.Key[:0], ZZGetRequestKey(s)...)
	}
	return nil
}

//gvc:spec (*GetRequest).Marshal
func zzGetRequestMarshal(m *GetRequest) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZGetRequestOK(s) && ZZGetRequestKey(s) == string(m.Key))
	return []byte(s), nil
}

//gvc:opaque
func ZZGetResponseOK(s string) bool {
	var m GetResponse
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZGetResponseCode(s string) int32 {
	var m GetResponse
	m.Unmarshal([]byte(s))
	return m.Code
}

//gvc:opaque
func ZZGetResponseMsg(s string) string {
	var m GetResponse
	m.Unmarshal([]byte(s))
	return m.Msg
}

//gvc:opaque
func ZZGetResponseHasValue(s string) bool {
	var m GetResponse
	m.Unmarshal([]byte(s))
	return m.Value != nil
}

//gvc:opaque
func ZZGetResponseValue(s string) string {
	var m GetResponse
	m.Unmarshal([]byte(s))
	return string(m.Value)
}

//gvc:opaque
func ZZGetResponseHasMeta(s string) bool {
	var m GetResponse
	m.Unmarshal([]byte(s))
	return m.Meta != nil
}

//gvc:opaque
func ZZGetResponseMetaExpiresAt(s string) uint64 {
	var m GetResponse
	m.Unmarshal([]byte(s))
	if m.Meta == nil {
		return 0
	}
	return m.Meta.ExpiresAt
}

//gvc:opaque
func ZZGetResponseMetaTag(s string) uint32 {
	var m GetResponse
	m.Unmarshal([]byte(s))
	if m.Meta == nil {
		return 0
	}
	return m.Meta.Tag
}

//gvc:spec (*GetResponse).Unmarshal
func zzGetResponseUnmarshal(m *GetResponse, dAtA []byte) error {
	s := string(dAtA)
	if !ZZGetResponseOK(s) {
		m.Code = int32(gvc.AnyInt64("Code"))
		m.Msg = gvc.AnyString("Msg")
		m.Value = gvc.AnyBytes("Value")
		m.Meta = &VMetaResp{ExpiresAt: gvc.AnyUint64("ExpiresAt"), Tag: uint32(gvc.AnyInt64("Tag"))}
		return zzBad()
	}
	if m.Code == 0 {
		m.Code = ZZGetResponseCode(s)
	} else if ZZGetResponseCode(s) != 0 || gvc.AnyBool("explicit zero") {
		m.Code = ZZGetResponseCode(s)
	}
	if m.Msg == "" {
		m.Msg = ZZGetResponseMsg(s)
	} else if ZZGetResponseMsg(s) != "" || gvc.AnyBool("explicit zero") {
		m.Msg = ZZGetResponseMsg(s)
	}
	if cap(m.Value) == 0 {
		m.Value = gvc.CopyOf(ZZGetResponseValue(s))
	} else if ZZGetResponseHasValue(s) {
		m.Value = append(m.Value[:0], ZZGetResponseValue(s)...)
	}
	if ZZGetResponseHasMeta(s) {
		if m.Meta == nil {
			m.Meta = &VMetaResp{}
		}
		if m.Meta.ExpiresAt == 0 {
			m.Meta.ExpiresAt = ZZGetResponseMetaExpiresAt(s)
		} else if ZZGetResponseMetaExpiresAt(s) != 0 || gvc.AnyBool("explicit zero") {
			m.Meta.ExpiresAt = ZZGetResponseMetaExpiresAt(s)
		}
		if m.Meta.Tag == 0 {
			m.Meta.Tag = ZZGetResponseMetaTag(s)
		} else if ZZGetResponseMetaTag(s) != 0 || gvc.AnyBool("explicit zero") {
			m.Meta.Tag = ZZGetResponseMetaTag(s)
		}
	}
	return nil
}

//gvc:spec (*GetResponse).Marshal
func zzGetResponseMarshal(m *GetResponse) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZGetResponseOK(s) && ZZGetResponseCode(s) == m.Code && ZZGetResponseMsg(s) == m.Msg && ZZGetResponseValue(s) == string(m.Value) && ZZGetResponseHasMeta(s) == (m.Meta != nil))
	if m.Meta != nil {
		gvc.Assume("the wire format round-trips", ZZGetResponseMetaExpiresAt(s) == m.Meta.ExpiresAt && ZZGetResponseMetaTag(s) == m.Meta.Tag)
	}
	return []byte(s), nil
}

//gvc:opaque
func ZZExistsRequestOK(s string) bool {
	var m ExistsRequest
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZExistsRequestHasKey(s string) bool {
	var m ExistsRequest
	m.Unmarshal([]byte(s))
	return m.Key != nil
}

//gvc:opaque
func ZZExistsRequestKey(s string) string {
	var m ExistsRequest
	m.Unmarshal([]byte(s))
	return string(m.Key)
}

//gvc:spec (*ExistsRequest).Unmarshal
func zzExistsRequestUnmarshal(m *ExistsRequest, dAtA []byte) error {
	s := string(dAtA)
	if !ZZExistsRequestOK(s) {
		m.Key = gvc.AnyBytes("Key")
		return zzBad()
	}
	if cap(m.Key) == 0 {
		m.Key = gvc.CopyOf(ZZExistsRequestKey(s))
	} else if ZZExistsRequestHasKey(s) {
		m.Key = append(m.Key[:0], ZZExistsRequestKey(s)...)
	}
	return nil
}

//gvc:spec (*ExistsRequest).Marshal
func zzExistsRequestMarshal(m *ExistsRequest) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZExistsRequestOK(s) && ZZExistsRequestKey(s) == string(m.Key))
	return []byte(s), nil
}

//gvc:opaque
func ZZExistsResponseOK(s string) bool {
	var m ExistsResponse
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZExistsResponseCode(s string) int32 {
	var m ExistsResponse
	m.Unmarshal([]byte(s))
	return m.Code
}

//gvc:opaque
func ZZExistsResponseMsg(s string) string {
	var m ExistsResponse
	m.Unmarshal([]byte(s))
	return m.Msg
}

//gvc:opaque
func ZZExistsResponseExists(s string) bool {
	var m ExistsResponse
	m.Unmarshal([]byte(s))
	return m.Exists
}

//gvc:spec (*ExistsResponse).Unmarshal
func zzExistsResponseUnmarshal(m *ExistsResponse, dAtA []byte) error {
	s := string(dAtA)
	if !ZZExistsResponseOK(s) {
		m.Code = int32(gvc.AnyInt64("Code"))
		m.Msg = gvc.AnyString("Msg")
		m.Exists = gvc.AnyBool("Exists")
		return zzBad()
	}
	if m.Code == 0 {
		m.Code = ZZExistsResponseCode(s)
	} else if ZZExistsResponseCode(s) != 0 || gvc.AnyBool("explicit zero") {
		m.Code = ZZExistsResponseCode(s)
	}
	if m.Msg == "" {
		m.Msg = ZZExistsResponseMsg(s)
	} else if ZZExistsResponseMsg(s) != "" || gvc.AnyBool("explicit zero") {
		m.Msg = ZZExistsResponseMsg(s)
	}
	if !m.Exists {
		m.Exists = ZZExistsResponseExists(s)
	} else if ZZExistsResponseExists(s) || gvc.AnyBool("explicit false") {
		m.Exists = ZZExistsResponseExists(s)
	}
	return nil
}

//gvc:spec (*ExistsResponse).Marshal
func zzExistsResponseMarshal(m *ExistsResponse) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZExistsResponseOK(s) && ZZExistsResponseCode(s) == m.Code && ZZExistsResponseMsg(s) == m.Msg && ZZExistsResponseExists(s) == m.Exists)
	return []byte(s), nil
}

//gvc:opaque
func ZZDeleteRequestOK(s string) bool {
	var m DeleteRequest
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZDeleteRequestHasKey(s string) bool {
	var m DeleteRequest
	m.Unmarshal([]byte(s))
	return m.Key != nil
}

//gvc:opaque
func ZZDeleteRequestKey(s string) string {
	var m DeleteRequest
	m.Unmarshal([]byte(s))
	return string(m.Key)
}

//gvc:spec (*DeleteRequest).Unmarshal
func zzDeleteRequestUnmarshal(m *DeleteRequest, dAtA []byte) error {
	s := string(dAtA)
	if !ZZDeleteRequestOK(s) {
		m.Key = gvc.AnyBytes("Key")
		return zzBad()
	}
	if cap(m.Key) == 0 {
		m.Key = gvc.CopyOf(ZZDeleteRequestKey(s))
	} else if ZZDeleteRequestHasKey(s) {
		m.Key = append(m.Key[:0], ZZDeleteRequestKey(s)...)
	}
	return nil
}

//gvc:spec (*DeleteRequest).Marshal
func zzDeleteRequestMarshal(m *DeleteRequest) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZDeleteRequestOK(s) && ZZDeleteRequestKey(s) == string(m.Key))
	return []byte(s), nil
}

//gvc:opaque
func ZZDeleteResponseOK(s string) bool {
	var m DeleteResponse
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZDeleteResponseCode(s string) int32 {
	var m DeleteResponse
	m.Unmarshal([]byte(s))
	return m.Code
}

//gvc:opaque
func ZZDeleteResponseMsg(s string) string {
	var m DeleteResponse
	m.Unmarshal([]byte(s))
	return m.Msg
}

//gvc:spec (*DeleteResponse).Unmarshal
func zzDeleteResponseUnmarshal(m *DeleteResponse, dAtA []byte) error {
	s := string(dAtA)
	if !ZZDeleteResponseOK(s) {
		m.Code = int32(gvc.AnyInt64("Code"))
		m.Msg = gvc.AnyString("Msg")
		return zzBad()
	}
	if m.Code == 0 {
		m.Code = ZZDeleteResponseCode(s)
	} else if ZZDeleteResponseCode(s) != 0 || gvc.AnyBool("explicit zero") {
		m.Code = ZZDeleteResponseCode(s)
	}
	if m.Msg == "" {
		m.Msg = ZZDeleteResponseMsg(s)
	} else if ZZDeleteResponseMsg(s) != "" || gvc.AnyBool("explicit zero") {
		m.Msg = ZZDeleteResponseMsg(s)
	}
	return nil
}

//gvc:spec (*DeleteResponse).Marshal
func zzDeleteResponseMarshal(m *DeleteResponse) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZDeleteResponseOK(s) && ZZDeleteResponseCode(s) == m.Code && ZZDeleteResponseMsg(s) == m.Msg)
	return []byte(s), nil
}

//gvc:opaque
func ZZCommitResponseOK(s string) bool {
	var m CommitResponse
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZCommitResponseCode(s string) int32 {
	var m CommitResponse
	m.Unmarshal([]byte(s))
	return m.Code
}

//gvc:opaque
func ZZCommitResponseMsg(s string) string {
	var m CommitResponse
	m.Unmarshal([]byte(s))
	return m.Msg
}

//gvc:spec (*CommitResponse).Unmarshal
func zzCommitResponseUnmarshal(m *CommitResponse, dAtA []byte) error {
	s := string(dAtA)
	if !ZZCommitResponseOK(s) {
		m.Code = int32(gvc.AnyInt64("Code"))
		m.Msg = gvc.AnyString("Msg")
		return zzBad()
	}
	if m.Code == 0 {
		m.Code = ZZCommitResponseCode(s)
	} else if ZZCommitResponseCode(s) != 0 || gvc.AnyBool("explicit zero") {
		m.Code = ZZCommitResponseCode(s)
	}
	if m.Msg == "" {
		m.Msg = ZZCommitResponseMsg(s)
	} else if ZZCommitResponseMsg(s) != "" || gvc.AnyBool("explicit zero") {
		m.Msg = ZZCommitResponseMsg(s)
	}
	return nil
}

//gvc:spec (*CommitResponse).Marshal
func zzCommitResponseMarshal(m *CommitResponse) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZCommitResponseOK(s) && ZZCommitResponseCode(s) == m.Code && ZZCommitResponseMsg(s) == m.Msg)
	return []byte(s), nil
}

//gvc:opaque
func ZZScanRequestOK(s string) bool {
	var m ScanRequest
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZScanRequestHasProviderScanOption(s string) bool {
	var m ScanRequest
	m.Unmarshal([]byte(s))
	return m.ProviderScanOption != nil
}

//gvc:opaque
func ZZScanRequestProviderScanOptionReverse(s string) bool {
	var m ScanRequest
	m.Unmarshal([]byte(s))
	if m.ProviderScanOption == nil {
		return false
	}
	return m.ProviderScanOption.Reverse
}

//gvc:opaque
func ZZScanRequestProviderScanOptionPrefix(s string) string {
	var m ScanRequest
	m.Unmarshal([]byte(s))
	if m.ProviderScanOption == nil {
		return ""
	}
	return string(m.ProviderScanOption.Prefix)
}

//gvc:opaque
func ZZScanRequestHasProviderScanOptionPrefix(s string) bool {
	var m ScanRequest
	m.Unmarshal([]byte(s))
	if m.ProviderScanOption == nil {
		return false
	}
	return m.ProviderScanOption.Prefix != nil
}

//gvc:opaque
func ZZScanRequestProviderScanOptionOffset(s string) string {
	var m ScanRequest
	m.Unmarshal([]byte(s))
	if m.ProviderScanOption == nil {
		return ""
	}
	return string(m.ProviderScanOption.Offset)
}

//gvc:opaque
func ZZScanRequestHasProviderScanOptionOffset(s string) bool {
	var m ScanRequest
	m.Unmarshal([]byte(s))
	if m.ProviderScanOption == nil {
		return false
	}
	return m.ProviderScanOption.Offset != nil
}

//gvc:opaque
func ZZScanRequestLimit(s string) int32 {
	var m ScanRequest
	m.Unmarshal([]byte(s))
	return m.Limit
}

//gvc:spec (*ScanRequest).Unmarshal
func zzScanRequestUnmarshal(m *ScanRequest, dAtA []byte) error {
	s := string(dAtA)
	if !ZZScanRequestOK(s) {
		m.ProviderScanOption = &ProviderScanOption{Reverse: gvc.AnyBool("Reverse"), Prefix: gvc.AnyBytes("Prefix"), Offset: gvc.AnyBytes("Offset")}
		m.Limit = int32(gvc.AnyInt64("Limit"))
		return zzBad()
	}
	if ZZScanRequestHasProviderScanOption(s) {
		if m.ProviderScanOption == nil {
			m.ProviderScanOption = &ProviderScanOption{}
		}
		if !m.ProviderScanOption.Reverse {
			m.ProviderScanOption.Reverse = ZZScanRequestProviderScanOptionReverse(s)
		} else if ZZScanRequestProviderScanOptionReverse(s) || gvc.AnyBool("explicit false") {
			m.ProviderScanOption.Reverse = ZZScanRequestProviderScanOptionReverse(s)
		}
		if cap(m.ProviderScanOption.Prefix) == 0 {
			m.ProviderScanOption.Prefix = gvc.CopyOf(ZZScanRequestProviderScanOptionPrefix(s))
		} else if ZZScanRequestHasProviderScanOptionPrefix(s) {
			m.ProviderScanOption.Prefix = append(m.ProviderScanOption.Prefix[:0], ZZScanRequestProviderScanOptionPrefix(s)...)
		}
		if cap(m.ProviderScanOption.Offset) == 0 {
			m.ProviderScanOption.Offset = gvc.CopyOf(ZZScanRequestProviderScanOptionOffset(s))
		} else if ZZScanRequestHasProviderScanOptionOffset(s) {
			m.ProviderScanOption.Offset = append(m.ProviderScanOption.Offset[:0], ZZScanRequestProviderScanOptionOffset(s)...)
		}
	}
	if m.Limit == 0 {
		m.Limit = ZZScanRequestLimit(s)
	} else if ZZScanRequestLimit(s) != 0 || gvc.AnyBool("explicit zero") {
		m.Limit = ZZScanRequestLimit(s)
	}
	return nil
}

//gvc:spec (*ScanRequest).Marshal
func zzScanRequestMarshal(m *ScanRequest) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZScanRequestOK(s) && ZZScanRequestHasProviderScanOption(s) == (m.ProviderScanOption != nil) && ZZScanRequestLimit(s) == m.Limit)
	if m.ProviderScanOption != nil {
		gvc.Assume("the wire format round-trips", ZZScanRequestProviderScanOptionReverse(s) == m.ProviderScanOption.Reverse && ZZScanRequestProviderScanOptionPrefix(s) == string(m.ProviderScanOption.Prefix) && ZZScanRequestProviderScanOptionOffset(s) == string(m.ProviderScanOption.Offset))
	}
	return []byte(s), nil
}

//gvc:opaque
func ZZScanResponseOK(s string) bool {
	var m ScanResponse
	return m.Unmarshal([]byte(s)) == nil
}

//gvc:opaque
func ZZScanResponseCode(s string) int32 {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	return m.Code
}

//gvc:opaque
func ZZScanResponseMsg(s string) string {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	return m.Msg
}

//gvc:opaque
func ZZScanResponseN(s string) int {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	return len(m.Entries)
}

//gvc:opaque
func ZZScanResponseKey(s string, i int) string {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	if i < 0 || i >= len(m.Entries) {
		return ""
	}
	return string(m.Entries[i].Key)
}

//gvc:opaque
func ZZScanResponseValue(s string, i int) string {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	if i < 0 || i >= len(m.Entries) {
		return ""
	}
	return string(m.Entries[i].Value)
}

//gvc:opaque
func ZZScanResponseHasMeta(s string, i int) bool {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	if i < 0 || i >= len(m.Entries) {
		return false
	}
	return m.Entries[i].Meta != nil
}

//gvc:opaque
func ZZScanResponseExpiresAt(s string, i int) uint64 {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	if i < 0 || i >= len(m.Entries) {
		return 0
	}
	if m.Entries[i].Meta == nil {
		return 0
	}
	return m.Entries[i].Meta.ExpiresAt
}

//gvc:opaque
func ZZScanResponseTag(s string, i int) uint32 {
	var m ScanResponse
	m.Unmarshal([]byte(s))
	if i < 0 || i >= len(m.Entries) {
		return 0
	}
	if m.Entries[i].Meta == nil {
		return 0
	}
	return m.Entries[i].Meta.Tag
}

//gvc:spec (*ScanResponse).Unmarshal
func zzScanResponseUnmarshal(m *ScanResponse, dAtA []byte) error {
	s := string(dAtA)
	if !ZZScanResponseOK(s) {
		m.Code = int32(gvc.AnyInt64("Code"))
		m.Msg = gvc.AnyString("Msg")
		m.Entries = nil
		return zzBad()
	}
	if m.Code == 0 {
		m.Code = ZZScanResponseCode(s)
	} else if ZZScanResponseCode(s) != 0 || gvc.AnyBool("explicit zero") {
		m.Code = ZZScanResponseCode(s)
	}
	if m.Msg == "" {
		m.Msg = ZZScanResponseMsg(s)
	} else if ZZScanResponseMsg(s) != "" || gvc.AnyBool("explicit zero") {
		m.Msg = ZZScanResponseMsg(s)
	}
	n := ZZScanResponseN(s)
	gvc.Assume("a message has a countable number of entries", n >= 0 && n <= 1<<31)
	for i := 0; i < n; i++ {
		e := &Entry{Key: gvc.CopyOf(ZZScanResponseKey(s, i)), Value: gvc.CopyOf(ZZScanResponseValue(s, i))}
		if ZZScanResponseHasMeta(s, i) {
			e.Meta = &VMetaResp{ExpiresAt: ZZScanResponseExpiresAt(s, i), Tag: ZZScanResponseTag(s, i)}
		}
		m.Entries = append(m.Entries, e)
	}
	return nil
}

//gvc:spec (*ScanResponse).Marshal
func zzScanResponseMarshal(m *ScanResponse) ([]byte, error) {
	s := gvc.AnyString("encoding")
	gvc.Assume("the wire format round-trips", ZZScanResponseOK(s) && ZZScanResponseCode(s) == m.Code && ZZScanResponseMsg(s) == m.Msg && ZZScanResponseN(s) == len(m.Entries))
	gvc.Assume("the wire format round-trips", gvc.Forall(0, len(m.Entries), func(i int) bool {
		e := m.Entries[i]
		return ZZScanResponseKey(s, i) == string(e.Key) && ZZScanResponseValue(s, i) == string(e.Value) && ZZScanResponseHasMeta(s, i) && ZZScanResponseExpiresAt(s, i) == e.Meta.ExpiresAt && ZZScanResponseTag(s, i) == e.Meta.Tag
	}))
	return []byte(s), nil
}
