// Package qrpc: the transport that mondis runs on, reduced to what the contracts need. qrpc.go (commands and
// frame flags) is the real file; everything else of the package is this stand-in, which is the assumed contract
// of the transport: a request frame may start a stream whose further frames are received from FrameCh in order,
// nil once the connection is gone; a writer sends one response frame per StartWrite/WriteBytes/EndWrite; a
// Connection sends one request frame per Request, or opens a stream with StreamRequest.
package qrpc

import (
	"context"
	"errors"
)

// ErrConnAlreadyClosed when the connection is closed
var ErrConnAlreadyClosed = errors.New("connection already closed")

// Frame models a qrpc frame
type Frame struct {
	RequestID uint64
	Flags     FrameFlag
	Cmd       Cmd
	Payload   []byte
	Stream    *Stream
}

// Stream is what follows the first frame.
type Stream struct {
	ZZSrc    *ZZSrc
	ZZClosed int
}

// ZZSrc is a source of frames: N of them, then the connection is gone.
type ZZSrc struct {
	N, I int
	Gen  func(i int) *Frame
	Ch   chan *Frame
}

// ZZRecv is the meaning of a receive from the channel of a source.
func ZZRecv(s *ZZSrc) *Frame {
	if s.I >= s.N {
		return nil
	}
	f := s.Gen(s.I)
	s.I++
	return f
}

// ZZChan is the channel of a source.
func ZZChan(s *ZZSrc) <-chan *Frame {
	if s.Ch == nil {
		s.Ch = make(chan *Frame, s.N)
		for i := 0; i < s.N; i++ {
			s.Ch <- s.Gen(i)
		}
		close(s.Ch)
	}
	return s.Ch
}

// ZZReceived is the number of frames received so far.
func (s *ZZSrc) ZZReceived() int {
	if s.Ch == nil {
		return 0
	}
	return s.N - len(s.Ch)
}

// FrameCh get the next frame ch
func (r *Frame) FrameCh() <-chan *Frame { return ZZChan(r.Stream.ZZSrc) }

// FromClient returns true if frame is from clientconn
func (r *Frame) FromClient() bool { return r.RequestID%2 == 1 }

// FromServer returns true if frame is from serveconn
func (r *Frame) FromServer() bool { return r.RequestID%2 == 0 }

// RequestFrame is client->server
type RequestFrame Frame

// Close the underlying connection
func (r *RequestFrame) Close() error {
	r.Stream.ZZClosed++
	return nil
}

// FromClient returns true if frame is from clientconn
func (r *RequestFrame) FromClient() bool { return (*Frame)(r).FromClient() }

// FrameCh for RequestFrame
func (r *RequestFrame) FrameCh() <-chan *Frame { return (*Frame)(r).FrameCh() }

// FrameWriter looks like writes a qrpc resp
type FrameWriter interface {
	StartWrite(requestID uint64, cmd Cmd, flags FrameFlag)
	WriteBytes(v []byte)
	EndWrite() error
	EndWriteCompressed() error
	ResetFrame(requestID uint64, reason Cmd) error
}

// StreamWriter is returned by StreamRequest
type StreamWriter interface {
	RequestID() uint64
	StartWrite(cmd Cmd)
	WriteBytes(v []byte)
	EndWrite(end bool) error
	EndWriteCompressed() error
	ResetFrame(reason Cmd) error
}

// A Handler responds to an qrpc request.
type Handler interface {
	ServeQRPC(FrameWriter, *RequestFrame)
}

// HandlerFunc is an adapter.
type HandlerFunc func(FrameWriter, *RequestFrame)

// ServeQRPC calls f(w, r).
func (f HandlerFunc) ServeQRPC(w FrameWriter, r *RequestFrame) { f(w, r) }

// MiddlewareFunc will return false to abort
type MiddlewareFunc func(FrameWriter, *RequestFrame) bool

type mwHandler struct {
	mw []MiddlewareFunc
	h  Handler
}

func (h *mwHandler) ServeQRPC(w FrameWriter, r *RequestFrame) {
	for _, m := range h.mw {
		if !m(w, r) {
			return
		}
	}
	h.h.ServeQRPC(w, r)
}

// ServeMux is qrpc request multiplexer.
type ServeMux struct {
	cmds []Cmd
	hs   []Handler
}

// NewServeMux allocates and returns a new ServeMux.
func NewServeMux() *ServeMux { return new(ServeMux) }

// HandleFunc registers the handler function for the given pattern.
func (mux *ServeMux) HandleFunc(cmd Cmd, handler func(FrameWriter, *RequestFrame), middleware ...MiddlewareFunc) {
	mux.Handle(cmd, HandlerFunc(handler), middleware...)
}

// Handle registers the handler for the given pattern.
func (mux *ServeMux) Handle(cmd Cmd, handler Handler, middleware ...MiddlewareFunc) {
	if handler == nil {
		panic("qrpc: nil handler")
	}
	for _, c := range mux.cmds {
		if c == cmd {
			panic("qrpc: multiple registrations")
		}
	}
	if len(middleware) > 0 {
		handler = &mwHandler{middleware, handler}
	}
	mux.cmds = append(mux.cmds, cmd.Routing())
	mux.hs = append(mux.hs, handler)
}

// ServeQRPC dispatches the request to the handler whose cmd matches the request.
func (mux *ServeMux) ServeQRPC(w FrameWriter, r *RequestFrame) {
	routing := r.Cmd.Routing()
	for i, c := range mux.cmds {
		if c == routing {
			mux.hs[i].ServeQRPC(w, r)
			return
		}
	}
	r.Close()
}

// ServerBinding contains binding infos
type ServerBinding struct {
	Addr                string
	Handler             Handler
	DefaultReadTimeout  int
	DefaultWriteTimeout int
	WriteFrameChSize    int
	ReadFrameChSize     int
	MaxFrameSize        int
	MaxCloseRate        int
	MaxInboundFrameSize int
	LatencyMetric       interface{}
	CounterMetric       interface{}
}

// Server defines parameters for running an qrpc server.
type Server struct {
	ZZBindings []ServerBinding
	ZZListen   int
	ZZStopped  int
	ZZErr      error
}

// NewServer creates a server
func NewServer(bindings []ServerBinding) *Server { return &Server{ZZBindings: bindings} }

// ListenAndServe starts listening on all bindings
func (srv *Server) ListenAndServe() error {
	srv.ZZListen++
	return srv.ZZErr
}

// Shutdown gracefully shutdown the server
func (srv *Server) Shutdown() error {
	srv.ZZStopped++
	return srv.ZZErr
}

// Response for response frames
type Response interface {
	GetFrame() (*Frame, error)
	GetFrameWithContext(ctx context.Context) (*Frame, error)
}

// SubFunc for subscribe callback
type SubFunc func(*Connection, *Frame)

// ConnectionConfig is conf for Connection
type ConnectionConfig struct {
	WriteTimeout     int
	ReadTimeout      int
	DialTimeout      int64
	WriteFrameChSize int
	Handler          Handler
}

// Connection is a client connection
type Connection struct {
	ZZReq    func(cmd Cmd, flags FrameFlag, payload []byte) (uint64, Response, error)
	ZZStream func(cmd Cmd, flags FrameFlag, payload []byte) (StreamWriter, Response, error)
}

// NewConnectionWithReconnect constructs a *Connection with reconnect ability
func NewConnectionWithReconnect(addrs []string, conf ConnectionConfig, f SubFunc) *Connection {
	return &Connection{}
}

// Request send a nonstreamed request frame and returns response frame
func (conn *Connection) Request(cmd Cmd, flags FrameFlag, payload []byte) (uint64, Response, error) {
	return conn.ZZReq(cmd, flags, payload)
}

// StreamRequest is for streamed request
func (conn *Connection) StreamRequest(cmd Cmd, flags FrameFlag, payload []byte) (StreamWriter, Response, error) {
	return conn.ZZStream(cmd, flags, payload)
}

// Close closes the qrpc connection
func (conn *Connection) Close() error { return nil }
