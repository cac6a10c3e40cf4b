package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/extension/arpchttp"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C22: the same frames over HTTP and over a connection.

type c22req struct {
	At   int
	K    string // request, notify, ping, pong, response, stream, junk
	M    string // echo, str, obj, err, errval, nil, none, panic, abort, twice, slow, values, missing, ""
	B    vkit.Blob
	Flag int
	Seq  uint64
	Junk string // how the body is damaged
	N    int
}

type c22case struct {
	EP   vkit.EP
	Mid  int
	Reqs []c22req
}

func genC22(rt *rapid.T) c22case {
	c := c22case{EP: vkit.EP{SyncWrite: true, SyncResp: true, Pool: vkit.Bool(rt, "pool")}, Mid: vkit.Int(rt, 0, 2, "mid")}
	c.EP.Coders = c16coders[vkit.Int(rt, 0, len(c16coders)-1, "coders")]
	for i := vkit.Int(rt, 1, 12, "reqs"); i > 0; i-- {
		q := c22req{At: vkit.Int(rt, 0, 3, "at"), K: vkit.Pick(rt, "k", "request", "request", "request", "request", "notify", "ping", "pong", "response", "junk", "junk"),
			M: vkit.Pick(rt, "m", "echo", "echo", "str", "obj", "err", "errval", "nil", "none", "panic", "abort", "slow", "slow", "missing", ""), B: vkit.GenBlob(rt, 5000, "b"),
			Flag: vkit.Pick(rt, "flag", 0, 0, 2), Seq: vkit.Pick(rt, "seq", 0, 1, 7, 1<<40, ^uint64(0))}
		if q.K == "junk" {
			q.Junk = vkit.Pick(rt, "junk", "random", "short", "cut", "tail", "mlen", "blen", "cmd", "stream", "empty")
			q.N = vkit.Int(rt, 0, 300, "n")
		}
		if vkit.Chance(rt, 2, "large") {
			q.B.N = vkit.Pick(rt, "ln", 65535, 65536, 66000, 200000, 1100000)
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

type c22writer struct {
	mu     sync.Mutex
	h      http.Header
	buf    bytes.Buffer
	code   int
	closed bool
	late   bool
}

func (w *c22writer) Header() http.Header { return w.h }
func (w *c22writer) WriteHeader(c int)   { w.code = c }
func (w *c22writer) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed {
		w.late = true
		return 0, errors.New("too late")
	}
	return w.buf.Write(b)
}

type badBody struct{}

func (badBody) Read([]byte) (int, error) { return 0, errors.New("broken body") }
func (badBody) Close() error             { return nil }

func (q c22req) frame(i int) []byte {
	f := vkit.Frame{Method: q.M, Data: q.B.Bytes(), Flag: byte(q.Flag), Seq: q.Seq}
	switch q.K {
	case "request", "junk":
		f.Cmd = vkit.CRequest
	case "notify":
		f.Cmd = vkit.CNotify
	case "response":
		f.Cmd = vkit.CResponse
	case "ping":
		return vkit.Frame{Cmd: vkit.CPing}.Encode()
	case "pong":
		return vkit.Frame{Cmd: vkit.CPong}.Encode()
	}
	return f.Encode()
}

func (q c22req) body(i int, enc func([]byte) []byte) []byte {
	b := q.frame(i)
	if q.K == "ping" || q.K == "pong" {
		return b
	}
	if q.K != "junk" {
		return enc(b)
	}
	switch q.Junk {
	case "random":
		return vkit.Blob{N: q.N, S: q.B.S}.Bytes()
	case "short":
		return b[:q.N%16]
	case "empty":
		return nil
	case "cut":
		return b[:16+q.N%(len(b)-15)]
	case "tail":
		return append(b, vkit.Blob{N: 1 + q.N, S: 5}.Bytes()...)
	case "mlen":
		b[7] = byte(q.N)
	case "blen":
		b[q.N%4] ^= byte(1 + q.N)
	case "cmd":
		b[5] = byte(q.N)
	case "stream":
		b[5] = 6
	}
	return b
}

func runC22(r *vkit.R, c c22case) {
	r.Bubble(func() {
		arpc.DefaultAllocator = arpc.New(64, 64)
		setup := func(h arpc.Handler) {
			for i := 0; i < c.Mid; i++ {
				h.Use(func(ctx *arpc.Context) { ctx.Set("mid", i); ctx.Next() })
			}
			reg := func(m string, f arpc.HandlerFunc) { h.Handle(m, f, false) }
			reg("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) })
			reg("str", func(ctx *arpc.Context) { ctx.Write("answer to " + string(ctx.Body())) })
			reg("obj", func(ctx *arpc.Context) { ctx.Write(map[string]int{"n": len(ctx.Body())}) })
			reg("err", func(ctx *arpc.Context) { ctx.Error("failed: " + string(ctx.Body())) })
			reg("errval", func(ctx *arpc.Context) { ctx.Write(errors.New("error value")) })
			reg("nil", func(ctx *arpc.Context) { ctx.Write(nil) })
			reg("none", func(ctx *arpc.Context) {})
			reg("panic", func(ctx *arpc.Context) { panic("of the handler") })
			reg("abort", func(ctx *arpc.Context) { ctx.Abort(); ctx.Write("aborted") })
			reg("slow", func(ctx *arpc.Context) {
				want := string(ctx.Body())
				time.Sleep(us(3))
				if string(ctx.Body()) != want {
					r.Failf("the body of a request changed while its handler ran")
				}
				ctx.Write(append([]byte("slow "), ctx.Body()...))
			})
		}
		hh := c.EP.NewHandler()
		setup(hh)
		serve := arpchttp.Handler(hh, codec.DefaultCodec)
		plain := arpc.NewHandler()
		coders := func() (cs []arpc.MessageCoder) {
			for _, k := range c.EP.Coders {
				cs = append(cs, vkit.NewCoder(k))
			}
			return
		}
		enc := func(b []byte) []byte {
			m := plain.NewMessageWithBuffer(b)
			for _, x := range coders() {
				m = x.Encode(nil, m)
			}
			return m.Buffer
		}
		dec := func(b []byte) []byte {
			if len(b) < 16 {
				return b
			}
			if cmd := b[5] & 0x3f; cmd == vkit.CPing || cmd == vkit.CPong {
				return b // sent as they are
			}
			m := plain.NewMessageWithBuffer(append([]byte(nil), b...))
			cs := coders()
			for i := len(cs) - 1; i >= 0; i-- {
				m = cs[i].Decode(nil, m)
			}
			return m.Buffer
		}
		type got struct {
			code int
			body []byte
		}
		res := make([]got, len(c.Reqs))
		var wg sync.WaitGroup
		var ws []*c22writer
		var wmu sync.Mutex
		for i, q := range c.Reqs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(2 * q.At))
				defer func() {
					if e := recover(); e != nil {
						r.Failf("request %d (%s %s): the HTTP handler panicked: %v", i, q.K, q.Junk, e)
					}
				}()
				body := q.body(i, enc)
				req := httptest.NewRequest("POST", "/rpc", io.NopCloser(bytes.NewReader(body)))
				w := &c22writer{h: http.Header{}, code: 200}
				wmu.Lock()
				ws = append(ws, w)
				wmu.Unlock()
				serve(w, req)
				w.mu.Lock()
				w.closed = true
				res[i] = got{w.code, append([]byte(nil), w.buf.Bytes()...)}
				w.mu.Unlock()
			}()
		}
		// malformed at the level of HTTP
		for k := 0; k < 2; k++ {
			req := httptest.NewRequest("POST", "/rpc", nil)
			req.Body = nil
			if k == 1 {
				req.Body = badBody{}
			}
			w := &c22writer{h: http.Header{}, code: 200}
			serve(w, req)
			if w.code != http.StatusBadRequest || w.buf.Len() > 0 {
				r.Failf("a request without a readable body: status %d, %d bytes", w.code, w.buf.Len())
			}
		}
		if !waitOr(&wg, time.Hour) {
			r.Failf("a request never ended")
			return
		}
		synctest.Wait()
		for _, w := range ws {
			if w.late {
				r.Failf("the response of a synchronous handler was written after the request had ended")
			}
		}
		// the same frames on a connection each
		valid := 0
		for i, q := range c.Reqs {
			if res[i].code != 200 {
				r.Failf("request %d (%s): status %d", i, q.K, res[i].code)
			}
			if q.K == "junk" {
				r.Class("junk-%s", q.Junk)
				// whatever comes is about this request alone
				if b := dec(res[i].body); len(b) > 0 {
					f, rest, err := vkit.DecodeFrame(b)
					if err != nil || len(rest) > 0 {
						r.Failf("request %d (junk %s): the response is no frame: %v", i, q.Junk, err)
					} else if f.Cmd == vkit.CResponse && q.Junk != "random" && q.Junk != "mlen" && q.Junk != "cmd" && len(c.EP.Coders) == 0 && f.Seq != q.Seq {
						r.Failf("request %d (junk %s) got the response %v of another one", i, q.Junk, f)
					}
				}
				continue
			}
			valid++
			e := newEndpoint("accept", c.EP, vkit.ConnPlan{}, setup)
			e.raw.Write(q.body(i, enc))
			time.Sleep(us(50))
			synctest.Wait()
			want := e.own.Sent()
			if !bytes.Equal(want, res[i].body) {
				// coders need not be deterministic: compare what they stand for
				a, b := dec(want), dec(res[i].body)
				if !bytes.Equal(a, b) {
					r.Failf("request %d (%s %q): over HTTP % x, over a connection % x", i, q.K, q.M, c22head(b), c22head(a))
				}
			}
			if q.K == "request" && q.M == "echo" {
				f, _, err := vkit.DecodeFrame(dec(res[i].body))
				if err != nil || f.Cmd != vkit.CResponse || f.Seq != q.Seq || f.Method != "echo" || !bytes.Equal(f.Data, q.B.Bytes()) {
					r.Failf("request %d (echo): response %v %v", i, f, err)
				}
			}
			if q.K == "notify" && len(res[i].body) > 0 {
				r.Failf("a notification was answered with %d bytes", len(res[i].body))
			}
			e.stop()
		}
		if valid > 1 {
			r.NonTrivial()
		}
		time.Sleep(time.Minute)
	})
}

func c22head(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

var _ = fmt.Sprint

func init() {
	vkit.Register("C22", "http", vkit.Opts{Quick: 10000, Rule: "two or more valid frames posted"}, genC22, runC22)
}
