package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/extension/middleware/coder/tracing"
	"github.com/opentracing/basictracer-go"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C13: coders.

// rotCoder is a further non-commuting coder which returns a new message
type rotCoder struct{ h arpc.Handler }

func (x rotCoder) turn(m *arpc.Message, by int) *arpc.Message {
	k := arpc.HeadLen + m.MethodLen()
	b := append([]byte(nil), m.Buffer...)
	body := b[k:]
	if n := len(body); n > 1 {
		by = ((by % n) + n) % n
		copy(body, append(append([]byte(nil), m.Buffer[k+by:]...), m.Buffer[k:k+by]...))
	}
	m.Buffer = b
	return m
}
func (x rotCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message { return x.turn(m, 1) }
func (x rotCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return x.turn(m, -1) }

const appendKey2 = "a second, longer key"

func init() {
	vkit.CoderFactory["rot"] = func() arpc.MessageCoder { return rotCoder{} }
	vkit.CoderFactory["gzip1000"] = func() arpc.MessageCoder { return gzip.New(1000) }
	vkit.CoderFactory["append2"] = func() arpc.MessageCoder {
		return coder.NewAppender(appendKey2, 2,
			func(v interface{}) ([]byte, error) {
				b, ok := v.([]byte)
				if !ok {
					return nil, errors.New("cannot be attached")
				}
				return b, nil
			},
			func(b []byte) (interface{}, error) {
				if len(b) > 0 && b[0] == '!' {
					return nil, errors.New("cannot be restored")
				}
				return append([]byte(nil), b...), nil
			})
	}
}

var c13names = []string{"xor", "add", "pad", "rot", "gzip0", "gzip100", "gzip1000", "msgpack", "append", "append2", "tracing"}

func genC13stack(rt *rapid.T) []string {
	var out []string
	seen := map[string]bool{}
	for i := vkit.Int(rt, 1, 5, "coders"); i > 0; i-- {
		k := vkit.Pick(rt, "coder", c13names...)
		if (k == "append" || k == "append2" || k == "tracing") && seen[k] {
			continue // one per flag bit
		}
		seen[k] = true
		out = append(out, k)
	}
	return out
}

// ---- codec: messages through a stack, byte for byte ----

type c13codec struct {
	Stack  []string
	Cmd    int
	Method vkit.Blob
	V      vkit.Value
	Err    bool
	Async  bool
	Seq    uint64
	Local  bool
	EOF    bool
	Flags  []int  // user flag bits (3..6)
	Tag    string // "", text, "bad", "big", "huge"
	Tag2   string
	Span   int // number of baggage items, -1: none, -2: not a span
	Odd    string
	Pool   bool
	Twice  bool // a second message through the same coders
	Skip   bool // the span is not sampled
	Flag   bool // a value under a key which is not a string
	Big    int  // millions of bytes of payload
}

func genC13codec(rt *rapid.T) c13codec {
	c := c13codec{Stack: genC13stack(rt), Cmd: vkit.Pick(rt, "cmd", 1, 2, 3, 6), Method: vkit.Blob{N: vkit.Pick(rt, "ml", 1, 2, 8, 30, 127, 255), S: vkit.Int(rt, 0, 99, "ms")}, V: vkit.GenValue(rt, 70000, "v"),
		Err: vkit.Chance(rt, 20, "err"), Async: vkit.Bool(rt, "async"), Seq: vkit.Pick(rt, "seq", 0, 1, 255, 1<<32, ^uint64(0)), Local: vkit.Chance(rt, 20, "local"), EOF: vkit.Chance(rt, 20, "eof"),
		Tag: vkit.Pick(rt, "tag", "", "t", "text", "x", "bad", "big", "edge", "over", "huge"), Tag2: vkit.Pick(rt, "tag2", "", "", "b", "bytes", "!", "no", "edge", "over"), Span: vkit.Pick(rt, "span", -1, 0, 1, 5, -2, 3000), Pool: vkit.Bool(rt, "pool"), Twice: vkit.Bool(rt, "twice")}
	if vkit.Chance(rt, 30, "first") {
		// first bytes with a meaning for msgpack and gzip
		c.V = vkit.Value{K: "lead", B: vkit.Blob{N: vkit.Int(rt, 0, 40, "ln"), S: vkit.Int(rt, 0, 99, "ls")}}
		c.Odd = vkit.Pick(rt, "lead", "\xc0", "\x80", "\x82\xa4Body", "\x1f\x8b\x08", "\x00\x04", "\x90", "\x92\xc0\xc0")
	}
	c.Skip, c.Flag = vkit.Bool(rt, "skip"), vkit.Chance(rt, 20, "keyflag")
	if vkit.Int(rt, 0, 499, "big") == 499 {
		c.Big = vkit.Int(rt, 1, 9, "bign")
	}
	for i := 3; i < 7; i++ {
		if vkit.Chance(rt, 30, "flag") {
			c.Flags = append(c.Flags, i)
		}
	}
	return c
}

func c13tag(k string, key string) string {
	switch k {
	case "big":
		return string(bytes.Repeat([]byte("y"), 40000))
	case "edge":
		return string(bytes.Repeat([]byte("e"), 65535-2-len(key)))
	case "over":
		return string(bytes.Repeat([]byte("o"), 65535-1-len(key)))
	case "huge":
		return string(bytes.Repeat([]byte("h"), 70000+len(key)))
	}
	return k
}

func runC13codec(r *vkit.R, c c13codec) {
	r.Bubble(func() {
		h := arpc.NewHandler()
		h.EnablePool(c.Pool)
		var coders []arpc.MessageCoder
		has := map[string]bool{}
		for _, k := range c.Stack {
			coders = append(coders, vkit.NewCoder(k))
			has[k] = true
		}
		payload := c.V.Wire()
		if c.V.K == "lead" {
			payload = append([]byte(c.Odd), c.V.B.Bytes()...)
		}
		if c.Big > 0 {
			payload = bytes.Repeat([]byte("0123456789abcdefghijklmnopqrstuvwxyz"), c.Big*1000000/36)
			r.Class("megabytes")
		}
		rounds := 1
		if c.Twice {
			rounds = 2
		}
		for n := 0; n < rounds; n++ {
			values := map[interface{}]interface{}{}
			want := map[interface{}]interface{}{}
			odd := false // something msgpack cannot encode
			if c.Tag != "" {
				v := c13tag(c.Tag, appendKey)
				values[appendKey] = v
				if has["append"] && c.Tag != "bad" && len(v)+len(appendKey)+2 <= 65535 || has["msgpack"] {
					want[appendKey] = v
				}
			}
			if c.Tag2 == "no" {
				values[appendKey2] = func() {}
				odd = true
			} else if c.Tag2 != "" {
				v := []byte(c13tag(c.Tag2, appendKey2))
				values[appendKey2] = v
				if has["append2"] && c.Tag2 != "!" && len(v)+len(appendKey2)+2 <= 65535 || has["msgpack"] {
					want[appendKey2] = v
				}
			}
			if c.Flag {
				values[true] = "under true"
				if has["msgpack"] {
					want[true] = "under true"
				}
			}
			if !has["msgpack"] {
				if c.Span == -2 {
					for k := range tracing.Values("x") {
						values[k] = "not a span"
					}
				} else if c.Span >= 0 {
					sc := basictracer.SpanContext{TraceID: uint64(c.Seq + 1), SpanID: ^c.Seq - 3, Sampled: !c.Skip}
					for i := 0; i < c.Span; i++ {
						if sc.Baggage == nil {
							sc.Baggage = map[string]string{}
						}
						sc.Baggage[fmt.Sprintf("item number %d", i)] = "some text"
					}
					for k, v := range tracing.Values(sc) {
						values[k] = v
						if has["tracing"] && c.Span < 3000 {
							want[k] = v
						}
					}
				}
			}
			mk := func() *arpc.Message {
				m := h.NewMessage(byte(c.Cmd), c.Method.String(), payload, c.Err, c.Async, c.Seq+uint64(n), nil, values)
				m.SetStreamLocal(c.Local)
				m.SetStreamEOF(c.EOF)
				for _, b := range c.Flags {
					m.SetFlagBit(b, true)
				}
				return m
			}
			plain := append([]byte(nil), mk().Buffer...)
			m := mk()
			for i, x := range coders {
				m = x.Encode(nil, m)
				if m == nil {
					r.Failf("%s returned no message", c.Stack[i])
					return
				}
				if m.BodyLen() != len(m.Buffer)-16 {
					r.Failf("encoded by %s: the header says %d bytes of body, there are %d", c.Stack[i], m.BodyLen(), len(m.Buffer)-16)
					return
				}
			}
			wire := append([]byte(nil), m.Buffer...)
			if !bytes.Equal(wire, plain) {
				r.NonTrivial()
			}
			if len(wire) < len(plain) {
				r.Class("compressed")
			}
			// the receiver
			buf := h.Malloc(len(wire))
			copy(buf, wire)
			g := h.NewMessageWithBuffer(buf)
			for i := len(coders) - 1; i >= 0; i-- {
				g = coders[i].Decode(nil, g)
			}
			if !bytes.Equal(g.Buffer, plain) {
				d := 0
				for d < len(plain) && d < len(g.Buffer) && plain[d] == g.Buffer[d] {
					d++
				}
				r.Failf("stack %v: the message of %d bytes came out as %d bytes, first difference at byte %d", c.Stack, len(plain), len(g.Buffer), d)
				return
			}
			if odd && has["msgpack"] {
				r.Class("unattachable")
				want = map[interface{}]interface{}{}
				if c.Tag != "" && has["append"] {
					continue // either coder may have attached it
				}
			}
			for k := range values {
				got, ok := g.Get(k)
				w, has := want[k]
				if ok != has || fmt.Sprint(got) != fmt.Sprint(w) || has && fmt.Sprintf("%T", got) != fmt.Sprintf("%T", w) {
					r.Failf("stack %v: attached value of %v is %s (%T), want %s (%T)", c.Stack, k, vkit.Short(fmt.Sprint(got)), got, vkit.Short(fmt.Sprint(w)), w)
				}
			}
			if len(g.Values()) != len(want) {
				r.Failf("stack %v: %d values, want %d", c.Stack, len(g.Values()), len(want))
			}
			if len(values) > 0 {
				r.Class("values")
			}
		}
	})
}

// ---- wire: what an endpoint puts on and takes off the wire ----

type c13send struct {
	At int
	K  string
	N  int
	S  int
	V  bool `json:",omitempty"` // with values, for the coders
}

// c13spy is a coder which changes nothing and records the values it is shown.
type c13spy struct {
	mu   sync.Mutex
	seen map[string]int
}

func (s *c13spy) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	if v, ok := m.Get("c13spy"); ok {
		s.mu.Lock()
		s.seen[v.(string)]++
		s.mu.Unlock()
	}
	return m
}

func (s *c13spy) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return m }

type c13wire struct {
	Role  string
	EP    vkit.EP
	Out   []c13send // call, async, notify, push, stream, bcast
	In    []c13send // request, errreq, notify, response (to out), stream
	Delay int
}

func genC13wire(rt *rapid.T) c13wire {
	c := c13wire{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep")}
	c.EP.Coders = genC13stack(rt)
	c.EP.Pool = vkit.Bool(rt, "pool")
	for i := vkit.Int(rt, 1, 8, "out"); i > 0; i-- {
		c.Out = append(c.Out, c13send{vkit.Int(rt, 0, 4, "at"), vkit.Pick(rt, "k", "call", "callctx", "async", "notify", "notifyctx", "push", "stream", "bcast"), vkit.Size(rt, 3000, "n"), vkit.Int(rt, 0, 999, "s"), vkit.Chance(rt, 40, "v")})
	}
	for i := vkit.Int(rt, 0, 6, "in"); i > 0; i-- {
		c.In = append(c.In, c13send{vkit.Int(rt, 0, 4, "at"), vkit.Pick(rt, "k", "request", "errreq", "syncreq", "notify"), vkit.Size(rt, 3000, "n"), vkit.Int(rt, 0, 999, "s"), false})
	}
	return c
}

func runC13wire(r *vkit.R, c c13wire) {
	r.Bubble(func() {
		var mu sync.Mutex
		got := map[string]int{}
		in := func(i int) vkit.Blob { return vkit.Blob{N: c.In[i].N, S: c.In[i].S} }
		out := func(i int) vkit.Blob {
			b := vkit.Blob{N: c.Out[i].N, S: c.Out[i].S}
			if c.Out[i].K == "stream" {
				b.N++
			}
			return b
		}
		spy := &c13spy{seen: map[string]int{}}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			h.UseCoder(spy)
			for i, x := range c.In {
				m := fmt.Sprintf("in%d", i)
				h.Handle(m, func(ctx *arpc.Context) {
					mu.Lock()
					got[m]++
					mu.Unlock()
					if !bytes.Equal(ctx.Body(), in(i).Bytes()) {
						r.Failf("%s (%s): the handler got %s", m, x.K, vkit.Short(string(ctx.Body())))
					}
					if ctx.Message.Method() != m {
						r.Failf("%s: method %q", m, ctx.Message.Method())
					}
					if x.K == "errreq" {
						ctx.Error(errors.New(m + " failed"))
					} else {
						ctx.Write(append([]byte(m+":"), ctx.Body()...))
					}
				}, x.K != "syncreq")
			}
		})
		hh := arpc.NewHandler()
		var coders []arpc.MessageCoder
		for _, k := range c.EP.Coders {
			coders = append(coders, vkit.NewCoder(k))
		}
		// the peer applies the same coders in registration order
		put := func(f vkit.Frame) {
			m := hh.NewMessageWithBuffer(f.Encode())
			for _, x := range coders {
				m = x.Encode(nil, m)
			}
			e.raw.Write(m.Buffer)
		}
		seen := map[string]int{}
		go func() {
			for {
				raw, err := readRawFrame(e.raw)
				if err != nil {
					return
				}
				m := hh.NewMessageWithBuffer(raw)
				for i := len(coders) - 1; i >= 0; i-- {
					m = coders[i].Decode(nil, m)
				}
				f, rest, err := vkit.DecodeFrame(m.Buffer)
				if err != nil || len(rest) > 0 {
					r.Failf("a frame, taken through the coders backwards, is no frame: %v, %d bytes left", err, len(rest))
					return
				}
				mu.Lock()
				seen[fmt.Sprintf("%d %s %d", f.Cmd, f.Method, f.Flag)]++
				if f.Reserved != 0 {
					r.Failf("frame %v arrived with flags of the coders", f)
				}
				mu.Unlock()
				var i int
				if n, _ := fmt.Sscanf(f.Method, "out%d", &i); n == 1 && i < len(c.Out) {
					want := out(i).Bytes()
					if f.Cmd&vkit.StreamEOF != 0 && c.Out[i].K == "stream" && len(f.Data) == 0 {
						continue
					}
					if !bytes.Equal(f.Data, want) {
						r.Failf("%s (%s) arrived as %s, want %s", f.Method, c.Out[i].K, vkit.Short(string(f.Data)), vkit.Short(string(want)))
					}
					if f.Cmd == vkit.CRequest {
						put(vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: append([]byte("re:"), f.Data...)})
					}
				} else if n, _ := fmt.Sscanf(f.Method, "in%d", &i); n == 1 && i < len(c.In) && f.Cmd == vkit.CResponse {
					want := append([]byte(f.Method+":"), in(i).Bytes()...)
					if c.In[i].K == "errreq" {
						want = []byte(f.Method + " failed")
					}
					if !bytes.Equal(f.Data, want) || f.Seq != uint64(1000+i) || (f.Flag&1 != 0) != (c.In[i].K == "errreq") {
						r.Failf("the response to %s is %v", f.Method, f)
					}
				} else {
					r.Failf("unexpected frame %v", f)
				}
			}
		}()
		var wg sync.WaitGroup
		for i, x := range c.In {
			wg.Add(1)
			time.AfterFunc(us(10*x.At), func() {
				defer wg.Done()
				cmd := byte(vkit.CRequest)
				if x.K == "notify" {
					cmd = vkit.CNotify
				}
				put(vkit.Frame{Cmd: cmd, Seq: uint64(1000 + i), Method: fmt.Sprintf("in%d", i), Data: in(i).Bytes()})
			})
		}
		for i, x := range c.Out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(us(10 * x.At))
				m, v := fmt.Sprintf("out%d", i), out(i).Bytes()
				want := append([]byte("re:"), v...)
				var err error
				var rsp []byte
				var args []interface{}
				if x.V {
					args = append(args, map[interface{}]interface{}{"c13spy": m})
				}
				switch x.K {
				case "call":
					err = e.cli.Call(m, v, &rsp, time.Minute, args...)
				case "callctx":
					ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
					err = e.cli.CallContext(ctx, m, v, &rsp, args...)
					cancel()
				case "async":
					ch := make(chan error, 1)
					err = e.cli.CallAsync(m, v, func(ctx *arpc.Context, err error) {
						if err == nil {
							rsp = append([]byte(nil), ctx.Body()...)
						}
						ch <- err
					}, time.Minute, args...)
					if err == nil {
						err = <-ch
					}
				case "notify":
					err = e.cli.Notify(m, v, time.Minute, args...)
				case "notifyctx":
					ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
					err = e.cli.NotifyContext(ctx, m, v, args...)
					cancel()
				case "push":
					err = e.cli.PushMsg(e.cli.NewMessage(arpc.CmdNotify, m, v, args...), time.Minute)
				case "stream":
					s := e.cli.NewStream(m)
					err = s.Send(v, args...)
					s.CloseSendContext(context.Background())
					s.CloseRecv()
				case "bcast":
					if e.srv == nil {
						err = e.cli.Notify(m, v, time.Minute, args...)
					} else {
						e.srv.srv.Broadcast(m, v, args...)
					}
				}
				if err != nil {
					r.Failf("%s (%s): %v", m, x.K, err)
				} else if (x.K == "call" || x.K == "callctx" || x.K == "async") && !bytes.Equal(rsp, want) {
					r.Failf("%s (%s): response %s", m, x.K, vkit.Short(string(rsp)))
				}
			}()
		}
		if !waitOr(&wg, time.Hour) {
			r.Failf("an operation never ended")
		}
		time.Sleep(time.Second)
		synctest.Wait()
		mu.Lock()
		for i := range c.In {
			if n := got[fmt.Sprintf("in%d", i)]; n != 1 {
				r.Failf("incoming message %d was handled %d times", i, n)
			}
		}
		spy.mu.Lock()
		for i, x := range c.Out {
			if n := spy.seen[fmt.Sprintf("out%d", i)]; (n > 0) != x.V || n > 1 {
				r.Failf("outgoing message %d (%s, with values: %v): the coder saw its values %d times", i, x.K, x.V, n)
			}
		}
		spy.mu.Unlock()
		n := 0
		for _, k := range seen {
			n += k
		}
		want := len(c.Out)
		for _, x := range c.Out {
			if x.K == "stream" {
				want++
			}
		}
		for _, x := range c.In {
			if x.K != "notify" {
				want++
			}
		}
		if n != want {
			r.Failf("%d frames on the wire, want %d: %v", n, want, seen)
		}
		mu.Unlock()
		if len(c.EP.Coders) > 1 {
			r.NonTrivial()
		}
		e.stop()
		time.Sleep(time.Minute)
	})
}

// ---- traffic: real ends, the whole mix ----

type c13traf struct {
	S, C  vkit.EP
	N     int
	Plans []vkit.ConnPlan
	Ops   []vkit.TOp
}

func genC13traf(rt *rapid.T) c13traf {
	c := c13traf{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "clients")}
	c.S.Pool, c.C.Pool = vkit.Bool(rt, "spool"), vkit.Bool(rt, "cpool")
	c.S.Coders = genC13stack(rt)
	c.C.Coders = c.S.Coders
	tagged := trafKey(c.S.Coders) != ""
	c.Ops = vkit.GenTOps(rt, 12, c.N, 5000, tagged)
	if tagged {
		for i := range c.Ops {
			if vkit.Chance(rt, 10, "badtag") {
				c.Ops[i].Tag = vkit.Pick(rt, "bad", "bad", "huge")
			}
		}
	}
	for i := 0; i < c.N; i++ {
		p := vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
		p.Up.Cap, p.Down.Cap = 0, 0
		c.Plans = append(c.Plans, p)
	}
	return c
}

func runC13traf(r *vkit.R, c c13traf) {
	r.Bubble(func() {
		key := trafKey(c.S.Coders)
		app, mp := false, false
		for _, k := range c.S.Coders {
			app = app || k == "append"
			mp = mp || k == "msgpack"
		}
		ops := append([]vkit.TOp(nil), c.Ops...)
		for i := range ops {
			if ops[i].Tag == "huge" {
				ops[i].Tag = c13tag("huge", appendKey)
			}
		}
		t := vkit.NewTraffic(r, ops, key)
		t.Bad = func(tag string) bool {
			return !mp && (tag == "bad" || len(tag)+len(appendKey)+2 > 65535)
		}
		s := newServer(c.S, func(h arpc.Handler) { t.Setup(h, false) })
		s.net.Plan = func(i int) vkit.ConnPlan { return c.Plans[i%len(c.Plans)] }
		s.start()
		for i := 0; i < c.N; i++ {
			cl, err := dial(s.net, c.C, func(h arpc.Handler) { t.Setup(h, true) })
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			synctest.Wait()
			t.Clis = append(t.Clis, cl)
			t.Srvs = append(t.Srvs, s.client(i))
		}
		t.Srv = s.srv
		t.Run(long())
		time.Sleep(long())
		synctest.Wait()
		t.Judge()
		if len(c.Ops) > 2 {
			r.NonTrivial()
		}
		for _, k := range c.S.Coders {
			r.Class("coder-%s", k)
		}
		_ = app
		for _, cl := range t.Clis {
			cl.Stop()
		}
		s.stop()
		time.Sleep(time.Minute)
	})
}

func init() {
	vkit.Register("C13", "codec", vkit.Opts{Quick: 30000, Rule: "some coder changed the message"}, genC13codec, runC13codec)
	vkit.Register("C13", "wire", vkit.Opts{Quick: 15000, Rule: "two or more coders"}, genC13wire, runC13wire)
	vkit.Register("C13", "traffic", vkit.Opts{Quick: 15000, Rule: "more than two operations through at least one coder"}, genC13traf, runC13traf)
}
