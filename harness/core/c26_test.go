package core

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C26 message: constructors and setters against a model of the attributes.

type c26set struct {
	K string
	N int
	B bool
}

type c26msg struct {
	Ctor   string // pkg, pkgnil, handler, buffer, client, server
	Cmd    int
	M      vkit.Blob // method
	V      vkit.Value
	Err    bool
	Async  bool
	Seq    uint64
	Vals   int // values given to the constructor, -1: none
	Pool   bool
	Before int // messages used and given back before
	Ops    []c26set
}

var c26keys = []interface{}{"k", "", 7, int64(7), 3.5, struct{ A int }{1}, true, 'x'}

func c26val(i int) interface{} {
	return []interface{}{"v", 1, []byte("bytes"), map[string]int{"a": 1}, errors.New("e"), false, 0, ""}[i%8]
}

func genC26msg(rt *rapid.T) c26msg {
	c := c26msg{Ctor: vkit.Pick(rt, "ctor", "pkg", "pkg", "pkgnil", "handler", "handler", "buffer", "client", "server"), Cmd: vkit.Pick(rt, "cmd", 1, 2, 3, 4, 5, 6, 0, 63),
		M: vkit.Blob{N: vkit.Pick(rt, "ml", 0, 1, 5, 20, 126, 127, 128, 200, 255), S: vkit.Int(rt, 0, 99, "ms")}, V: vkit.GenValue(rt, 3000, "v"),
		Err: vkit.Bool(rt, "err"), Async: vkit.Bool(rt, "async"), Seq: vkit.Pick(rt, "seq", 0, 1, 2, 255, 256, 1<<32, 1<<63, ^uint64(0), 0x0102030405060708), Vals: vkit.Int(rt, -1, 4, "vals"),
		Pool: vkit.Bool(rt, "pool"), Before: vkit.Int(rt, 0, 2, "before")}
	if vkit.Chance(rt, 15, "nilv") {
		c.V = vkit.Value{K: vkit.Pick(rt, "nk", "nil", "err")}
	}
	for i := vkit.Int(rt, 0, 20, "ops"); i > 0; i-- {
		o := c26set{K: vkit.Pick(rt, "k", "cmd", "local", "eof", "error", "async", "flag", "flag", "mlen", "blen", "seq", "set", "set", "reset"), B: vkit.Bool(rt, "b"), N: vkit.Pick(rt, "n", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1, 63, 127, 128, 255, 256, 65536, 1<<24+7, 1<<31-1)}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type c26model struct {
	cmd                    byte
	local, eof, err, async bool
	flags                  [8]bool
	mlen                   int
	blen                   uint32
	seq                    uint64
	payload                []byte // everything after the header
	vals                   map[interface{}]interface{}
	low                    byte // bits 2..7 of the flag byte
}

func (m *c26model) check(r *vkit.R, what string, x *arpc.Message) {
	fail := func(attr string, got, want interface{}) {
		r.Failf("%s: %s is %v, want %v", what, attr, got, want)
	}
	if x.Cmd() != m.cmd {
		fail("command", x.Cmd(), m.cmd)
	}
	if x.IsStreamLocal() != m.local {
		fail("stream local", x.IsStreamLocal(), m.local)
	}
	if x.IsStreamEOF() != m.eof {
		fail("stream EOF", x.IsStreamEOF(), m.eof)
	}
	if x.IsError() != m.err {
		fail("error flag", x.IsError(), m.err)
	}
	if x.IsAsync() != m.async {
		fail("async flag", x.IsAsync(), m.async)
	}
	for i, f := range m.flags {
		if x.IsFlagBitSet(i) != f {
			fail(fmt.Sprintf("flag bit %d", i), x.IsFlagBitSet(i), f)
		}
	}
	for _, i := range []int{-1, 8, 9, 16, 64} {
		if x.IsFlagBitSet(i) {
			fail(fmt.Sprintf("flag bit %d", i), true, false)
		}
	}
	if x.MethodLen() != m.mlen {
		fail("method length", x.MethodLen(), m.mlen)
	}
	if x.BodyLen() != int(m.blen) {
		fail("body length", x.BodyLen(), m.blen)
	}
	if h := arpc.Header(x.Buffer[:arpc.HeadLen]); h.BodyLen() != int(m.blen) {
		fail("body length of the header", h.BodyLen(), m.blen)
	}
	if x.Seq() != m.seq {
		fail("sequence", x.Seq(), m.seq)
	}
	if x.Len() != 16+len(m.payload) || len(x.Buffer) != x.Len() {
		fail("length", x.Len(), 16+len(m.payload))
		return
	}
	if !bytes.Equal(x.Buffer[16:], m.payload) {
		fail("payload", vkit.Short(string(x.Buffer[16:])), vkit.Short(string(m.payload)))
	}
	if m.mlen <= len(m.payload) {
		if x.Method() != string(m.payload[:m.mlen]) {
			fail("method", vkit.Short(x.Method()), vkit.Short(string(m.payload[:m.mlen])))
		}
		if !bytes.Equal(x.Data(), m.payload[m.mlen:]) {
			fail("data", vkit.Short(string(x.Data())), vkit.Short(string(m.payload[m.mlen:])))
		}
		e := x.Error()
		if (e != nil) != m.err || e != nil && e.Error() != string(m.payload[m.mlen:]) {
			fail("error", e, m.err)
		}
	}
	if len(x.Values()) != len(m.vals) {
		fail("number of values", len(x.Values()), len(m.vals))
	}
	for _, k := range c26keys {
		g, ok := x.Get(k)
		w, has := m.vals[k]
		if ok != has || fmt.Sprint(g) != fmt.Sprint(w) {
			fail(fmt.Sprintf("value of %v", k), g, w)
		}
	}
	// the documented layout
	b := x.Buffer
	cmd := m.cmd
	if m.local {
		cmd |= 0x80
	}
	if m.eof {
		cmd |= 0x40
	}
	var res byte
	for i, f := range m.flags {
		if f {
			res |= 1 << i
		}
	}
	var fl byte
	if m.err {
		fl |= 1
	}
	if m.async {
		fl |= 2
	}
	fl |= m.low
	if binary.LittleEndian.Uint32(b) != m.blen || b[4] != res || b[5] != cmd || b[6] != fl || int(b[7]) != m.mlen || binary.LittleEndian.Uint64(b[8:]) != m.seq {
		r.Failf("%s: header % x does not match %+v", what, b[:16], *m)
	}
}

func runC26msg(r *vkit.R, c c26msg) {
	r.Bubble(func() {
		h := arpc.NewHandler()
		h.EnablePool(c.Pool)
		vals := func() map[interface{}]interface{} {
			if c.Vals < 0 {
				return nil
			}
			m := map[interface{}]interface{}{}
			for i := 0; i < c.Vals; i++ {
				m[c26keys[i]] = c26val(i)
			}
			return m
		}
		// messages that went before must leave no trace
		for i := 0; i < c.Before; i++ {
			x := h.NewMessage(0x3f, "previous", bytes.Repeat([]byte{0xff}, 100), true, true, ^uint64(0), nil, map[interface{}]interface{}{"k": "old", 7: "old"})
			for j := 0; j < 8; j++ {
				x.SetFlagBit(j, true)
			}
			x.SetStreamEOF(true)
			x.SetStreamLocal(true)
			if i == 0 {
				x.Release()
			} else {
				x.Payback()
			}
		}
		method := c.M.String()
		wire := c.V.Wire()
		m := &c26model{cmd: byte(c.Cmd), err: c.Err, async: c.Async, seq: c.Seq, mlen: len(method), payload: append([]byte(method), wire...), vals: vals()}
		m.blen = uint32(len(m.payload))
		var x *arpc.Message
		var cli *arpc.Client
		var srv *server
		switch c.Ctor {
		case "pkg":
			x = arpc.NewMessage(byte(c.Cmd), method, c.V.Go(), c.Err, c.Async, c.Seq, h, codec.DefaultCodec, vals())
		case "pkgnil":
			x = arpc.NewMessage(byte(c.Cmd), method, c.V.Go(), c.Err, c.Async, c.Seq, nil, nil, vals())
		case "handler":
			x = h.NewMessage(byte(c.Cmd), method, c.V.Go(), c.Err, c.Async, c.Seq, nil, vals())
		case "buffer":
			f := vkit.Frame{Cmd: byte(c.Cmd), Seq: c.Seq, Method: method, Data: wire}
			if c.Err {
				f.Flag |= 1
			}
			if c.Async {
				f.Flag |= 2
			}
			x = h.NewMessageWithBuffer(f.Encode())
			m.vals = nil
		case "client", "server":
			srv = newServer(vkit.EP{Pool: c.Pool}, nil).start()
			cli, _ = dial(srv.net, vkit.EP{Pool: c.Pool}, nil)
			synctest.Wait()
			var mk func(byte, string, interface{}, ...interface{}) *arpc.Message = srv.srv.NewMessage
			if c.Ctor == "client" {
				mk = cli.NewMessage
			}
			y := mk(byte(c.Cmd), method, c.V.Go())
			if c.Vals < 0 {
				x = mk(byte(c.Cmd), method, c.V.Go())
			} else {
				x = mk(byte(c.Cmd), method, c.V.Go(), vals())
			}
			if y.Seq() == x.Seq() {
				r.Failf("two messages of one %s have the same sequence", c.Ctor)
			}
			m.err, m.async, m.seq = false, false, x.Seq()
		}
		m.check(r, "new message ("+c.Ctor+")", x)
		for k, o := range c.Ops {
			what := fmt.Sprintf("op %d (%s %d %v)", k, o.K, o.N, o.B)
			switch o.K {
			case "cmd":
				m.cmd = byte(o.N) & 0x3f
				x.SetCmd(m.cmd)
			case "local":
				m.local = o.B
				x.SetStreamLocal(o.B)
			case "eof":
				m.eof = o.B
				x.SetStreamEOF(o.B)
			case "error":
				m.err = o.B
				x.SetError(o.B)
			case "async":
				m.async = o.B
				x.SetAsync(o.B)
			case "flag":
				err := x.SetFlagBit(o.N, o.B)
				if in := o.N >= 0 && o.N < 8; in != (err == nil) {
					r.Failf("%s: %v", what, err)
				} else if in {
					m.flags[o.N] = o.B
				} else {
					r.Class("bad-index")
				}
			case "mlen":
				m.mlen = o.N & 0xff
				x.SetMethodLen(m.mlen)
			case "blen":
				m.blen = uint32(o.N & 0x7fffffff)
				x.SetBodyLen(int(m.blen))
			case "seq":
				m.seq = uint64(o.N) * 0x0123456789abcdef
				x.SetSeq(m.seq)
			case "set":
				key := c26keys[(o.N+100)%len(c26keys)]
				v := c26val(o.N + 100)
				if o.N == 9 {
					x.Set(nil, v)
					x.Set(key, nil)
					break
				}
				x.Set(key, v)
				if m.vals == nil {
					m.vals = map[interface{}]interface{}{}
				}
				m.vals[key] = v
			case "reset":
				x.ResetAttrs()
				m.cmd, m.local, m.eof, m.err, m.async, m.flags, m.mlen = 0, false, false, false, false, [8]bool{}, 0
			}
			m.check(r, what, x)
			if r.Failed() {
				break
			}
		}
		if len(c.Ops) > 3 || c.Err || c.Async {
			r.NonTrivial()
		}
		r.Class("ctor-%s", c.Ctor)
		if cli != nil {
			cli.Stop()
			srv.stop()
			time.Sleep(time.Second)
		}
	})
}

// C26 context: values and response errors of concurrent requests and clients.

type c26req struct {
	At    int
	C     int
	Back  bool // server -> client
	Note  bool
	Sets  []int // keys set by the first function
	Sets2 []int // and by the second
	Slow  int
	R     string // ok, error, errval, errnil, none
	CSet  []int  // keys set on the client in the handler
	CDel  []int
}

type c26ctx struct {
	S, C vkit.EP
	N    int
	Reqs []c26req
	Hold int // own values of each client
}

func genC26ctx(rt *rapid.T) c26ctx {
	c := c26ctx{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "n"), Hold: vkit.Int(rt, 0, 8, "hold")}
	c.S.Pool, c.C.Pool = vkit.Bool(rt, "sp"), vkit.Bool(rt, "cp")
	keys := func(l string) (ks []int) {
		for i := vkit.Int(rt, 0, 4, l); i > 0; i-- {
			ks = append(ks, vkit.Int(rt, 0, len(c26keys)-1, l+"k"))
		}
		return
	}
	for i := vkit.Int(rt, 1, 10, "reqs"); i > 0; i-- {
		c.Reqs = append(c.Reqs, c26req{At: vkit.Int(rt, 0, 5, "at"), C: vkit.Int(rt, 0, c.N-1, "c"), Back: vkit.Chance(rt, 30, "back"), Note: vkit.Chance(rt, 20, "note"),
			Sets: keys("s1"), Sets2: keys("s2"), Slow: vkit.Pick(rt, "slow", 0, 0, 1, 10), R: vkit.Pick(rt, "r", "ok", "ok", "error", "errval", "errnil", "none"), CSet: keys("cs"), CDel: keys("cd")})
	}
	return c
}

func runC26ctx(r *vkit.R, c c26ctx) {
	r.Bubble(func() {
		type bag struct {
			mu sync.Mutex
			m  map[interface{}]interface{}
		}
		bags := map[*arpc.Client]*bag{}
		var bmu sync.Mutex
		bagOf := func(cl *arpc.Client) *bag {
			bmu.Lock()
			defer bmu.Unlock()
			if bags[cl] == nil {
				bags[cl] = &bag{m: map[interface{}]interface{}{}}
			}
			return bags[cl]
		}
		same := func(what string, get func(interface{}) (interface{}, bool), want map[interface{}]interface{}) {
			for _, k := range c26keys {
				g, ok := get(k)
				w, has := want[k]
				if ok != has || fmt.Sprint(g) != fmt.Sprint(w) {
					r.Failf("%s: value of %v (%T) is %v, want %v", what, k, k, g, w)
				}
			}
		}
		setup := func(h arpc.Handler, back bool) {
			for i, q := range c.Reqs {
				if q.Back != back {
					continue
				}
				what := fmt.Sprintf("request %d", i)
				model := map[interface{}]interface{}{}
				h.Handle(fmt.Sprintf("m%d", i), func(ctx *arpc.Context) {
					if len(ctx.Values()) != 0 {
						r.Failf("%s: its context starts with values %v", what, ctx.Values())
					}
					if ctx.ResponseError() != nil {
						r.Failf("%s: its context starts with response error %v", what, ctx.ResponseError())
					}
					ctx.Set(nil, 1)
					ctx.Set("k", nil)
					put := func(ks []int, off int) {
						for _, k := range ks {
							ctx.Set(c26keys[k], c26val(i+k+off))
							model[c26keys[k]] = c26val(i + k + off)
						}
					}
					put(q.Sets, 0)
					same(what, ctx.Get, model)
					if q.Slow > 0 {
						time.Sleep(us(q.Slow))
					}
					put(q.Sets2, 3)
					same(what, ctx.Get, model)
					same(what, ctx.Message.Get, model)
					if len(ctx.Values()) != len(model) {
						r.Failf("%s: %d values, want %d", what, len(ctx.Values()), len(model))
					}
					for _, k := range c26keys {
						if fmt.Sprint(ctx.Value(k)) != fmt.Sprint(model[k]) {
							r.Failf("%s: Value(%v) is %v, want %v", what, k, ctx.Value(k), model[k])
						}
					}
					// values of the client, one request at a time
					b := bagOf(ctx.Client)
					b.mu.Lock()
					same(what+", its client", ctx.Client.Get, b.m)
					ctx.Client.Set(nil, 1)
					ctx.Client.Set("k2", nil)
					for _, k := range q.CSet {
						ctx.Client.Set(c26keys[k], c26val(i+k))
						b.m[c26keys[k]] = c26val(i + k)
					}
					for _, k := range q.CDel {
						ctx.Client.Delete(c26keys[k])
						delete(b.m, c26keys[k])
					}
					same(what+", its client", ctx.Client.Get, b.m)
					b.mu.Unlock()
					var want interface{}
					e := fmt.Errorf("failure of %d", i)
					switch q.R {
					case "ok":
						ctx.Write("fine")
					case "error":
						ctx.Error(e)
						want = e
					case "errval":
						ctx.Write(e)
						want = e
					case "errnil":
						ctx.Error(nil)
					}
					if q.Note {
						want = nil
					}
					if got := ctx.ResponseError(); got != want && !(q.Note && got != nil) {
						r.Failf("%s (%s): response error %v, want %v", what, q.R, got, want)
					}
					same(what+", after responding", ctx.Get, model)
					r.Class("r-%s", q.R)
				}, i%3 != 0)
			}
		}
		s := newServer(c.S, func(h arpc.Handler) { setup(h, false) }).start()
		var clis, srvs []*arpc.Client
		for i := 0; i < c.N; i++ {
			cl, err := dial(s.net, c.C, func(h arpc.Handler) { setup(h, true) })
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			synctest.Wait()
			clis, srvs = append(clis, cl), append(srvs, s.client(i))
		}
		start := time.Now()
		var wg sync.WaitGroup
		for i, q := range c.Reqs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Until(start.Add(us(5 * q.At))))
				cl := clis[q.C]
				if q.Back {
					cl = srvs[q.C]
				}
				m := fmt.Sprintf("m%d", i)
				if q.Note {
					if err := cl.Notify(m, "x", time.Minute); err != nil {
						r.Failf("notify %d: %v", i, err)
					}
					return
				}
				if q.R == "none" {
					cl.Call(m, "x", nil, us(1000)+time.Second)
					return
				}
				var rsp string
				err := cl.Call(m, "x", &rsp, time.Minute)
				switch {
				case q.R == "ok" && (err != nil || rsp != "fine"), q.R == "errnil" && err != nil:
					r.Failf("call %d: %q %v", i, rsp, err)
				case (q.R == "error" || q.R == "errval") && (err == nil || err.Error() != fmt.Sprintf("failure of %d", i)):
					r.Failf("call %d: error %v", i, err)
				}
			}()
		}
		if !waitOr(&wg, time.Hour) {
			r.Failf("a call never ended")
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		for cl, b := range bags {
			same("a client at the end", cl.Get, b.m)
		}
		if len(c.Reqs) > 1 {
			r.NonTrivial()
		}
		for _, cl := range clis {
			cl.Stop()
		}
		s.stop()
		time.Sleep(time.Second)
	})
}

func init() {
	vkit.Register("C26", "message", vkit.Opts{Quick: 40000, Rule: "more than three setters, or an error or async flag requested"}, genC26msg, runC26msg)
	vkit.Register("C26", "context", vkit.Opts{Quick: 15000, Rule: "more than one request"}, genC26ctx, runC26ctx)
}
