package core

import (
	"encoding/binary"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C11: no byte sequence from a peer can crash or wedge an endpoint.

// ---- meaningless: well-framed nonsense between valid messages ----

type c11item struct {
	K    string
	N, S int
	Flag byte
	Res  byte
}

type c11mean struct {
	S, C  vkit.EP
	Dir   int // 0: the dialed client sends the nonsense, 1: the server
	Plan  vkit.ConnPlan
	Items []c11item
}

var c11coders = [][]string{nil, nil, nil, nil, {"gzip0"}, {"gzip100"}, {"msgpack"}, {"append"}, {"append"}, {"msgpack"}, {"tracing"}, {"append", "gzip0"}, {"msgpack", "gzip0"}, {"gzip0", "append"}, {"tracing", "msgpack"}}

func genC11mean(rt *rapid.T) c11mean {
	c := c11mean{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), Dir: vkit.Int(rt, 0, 1, "dir")}
	c.Plan = vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
	c.Plan.Up.Cap, c.Plan.Down.Cap = 0, 0
	c.S.Pool = vkit.Chance(rt, 30, "spool")
	c.C.Pool = vkit.Chance(rt, 30, "cpool")
	c.S.Coders = c11coders[vkit.Int(rt, 0, len(c11coders)-1, "coders")]
	c.C.Coders = c.S.Coders
	for i := vkit.Int(rt, 1, 12, "items"); i > 0; i-- {
		it := c11item{K: vkit.Pick(rt, "k", "ml0", "mllong", "ml200", "unknown", "unknownnotify", "rsp", "rspasync", "rsperr", "stream", "streamlocal", "streameof", "streamempty", "decode", "pong", "empty", "short", "bind", "opendecode", "stale", "stale"),
			N: vkit.Size(rt, 600, "n"), S: vkit.Int(rt, 0, 9, "seed")}
		if vkit.Chance(rt, 40, "flagged") {
			it.Res = byte(vkit.Pick(rt, "res", 0x80, 0x01, 0x81, 0xff, 0x40))
			it.Flag = byte(vkit.Pick(rt, "flag", 0, 1, 2, 3, 0xfc, 0xff))
		}
		c.Items = append(c.Items, it)
	}
	return c
}

func (it c11item) frame(i int) []byte {
	data := vkit.Blob{N: it.N, S: it.S}.Bytes()
	f := vkit.Frame{Seq: 1<<40 + uint64(i), Method: "m", Data: data, Flag: it.Flag, Reserved: it.Res, Cmd: vkit.CRequest}
	switch it.K {
	case "ml0":
		f.Method = ""
	case "mllong":
		b := f.Encode()
		b[7] = byte(len(b) - 16 + 1)
		if int(b[7]) <= len(b)-16 {
			b[7] = 255
		}
		return b
	case "stale":
		// the end of the method is missing: a former message may have left it in a reused buffer
		f.Method, f.Data = []string{"echo", "bind", "m", "st"}[it.S%4], nil
		if it.S%4 == 3 {
			f.Cmd = vkit.CStream | vkit.StreamLocal
		}
		b := f.Encode()
		cut := 1 + it.N%len(f.Method)
		binary.LittleEndian.PutUint32(b, uint32(len(f.Method)-cut))
		return b[:len(b)-cut]
	case "ml200":
		f.Method = string(vkit.Blob{N: 200, S: 1}.Bytes())
	case "unknown":
		f.Method = "nobody"
	case "unknownnotify":
		f.Method, f.Cmd = "nobody", vkit.CNotify
	case "rsp":
		f.Cmd = vkit.CResponse
	case "rspasync":
		f.Cmd, f.Flag = vkit.CResponse, f.Flag|vkit.FlagAsync
	case "rsperr":
		f.Cmd, f.Flag = vkit.CResponse, f.Flag|vkit.FlagError
	case "stream":
		f.Cmd, f.Method = vkit.CStream|vkit.StreamLocal, "nostream"
	case "streamlocal":
		f.Cmd, f.Method = vkit.CStream, "st"
	case "streameof":
		f.Cmd, f.Method = vkit.CStream|vkit.StreamEOF|vkit.StreamLocal, "nostream"
	case "streamempty":
		f.Cmd, f.Method, f.Data = vkit.CStream|vkit.StreamEOF, "st", nil
	case "opendecode":
		f.Cmd, f.Method = vkit.CStream|vkit.StreamEOF|vkit.StreamLocal, "st"
	case "decode":
		f.Reserved |= 0x81
	case "pong":
		f.Cmd, f.Method = vkit.CPong, ""
	case "empty":
		f.Method, f.Data = "", nil
	case "short":
		f.Method, f.Data = "m", nil
	case "bind":
		f.Method = "bind"
	}
	return f.Encode()
}

func runC11mean(r *vkit.R, c c11mean) {
	r.Bubble(func() {
		var mu sync.Mutex
		ran := map[uint64]bool{}
		seen := func(seq uint64) {
			mu.Lock()
			ran[seq] = true
			mu.Unlock()
		}
		setup := func(h arpc.Handler) {
			h.Handle("m", func(ctx *arpc.Context) {
				seen(ctx.Message.Seq())
				ctx.Write(append([]byte("re:"), ctx.Body()...))
			})
			h.Handle("echo", func(ctx *arpc.Context) {
				seen(ctx.Message.Seq())
				ctx.Write("re:" + string(ctx.Body()))
			})
			h.Handle("bind", func(ctx *arpc.Context) {
				seen(ctx.Message.Seq())
				var v vkit.Obj
				if err := ctx.Bind(&v); err != nil {
					ctx.Error(err)
					return
				}
				ctx.Write("ok")
			})
			h.HandleStream("st", func(s *arpc.Stream) {
				seen(s.Id())
				var v vkit.Obj
				for s.Recv(&v) == nil {
				}
				s.CloseRecv()
				s.CloseSend()
			}, true)
		}
		s := newServer(c.S, setup)
		s.net.Plan = func(int) vkit.ConnPlan { return c.Plan }
		s.start()
		cli, err := dial(s.net, c.C, setup)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		other, err := dial(s.net, vkit.EP{Coders: c.C.Coders}, setup)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		synctest.Wait()
		att, vic := cli, s.client(0)
		if c.Dir == 1 {
			att, vic = vic, att
		}
		for i := -1; i < len(c.Items); i++ {
			if i >= 0 {
				att.Conn.Write(c.Items[i].frame(i))
				r.Class("%s", c.Items[i].K)
			}
			for k, from := range []*arpc.Client{att, vic, other} {
				if k > 0 && (i+k)%4 != 0 && i != len(c.Items)-1 {
					continue
				}
				rsp := ""
				req := fmt.Sprintf("%d.%d-%s", i, k, vkit.Blob{N: 150 * ((i + 3) % 3), S: i + 1}.String())
				if err := from.Call("echo", req, &rsp, time.Hour); err != nil || rsp != "re:"+req {
					what := "before"
					if i >= 0 {
						what = "after " + c.Items[i].K
					}
					r.Failf("valid call by %s %s: %s, %v", []string{"the sender", "the receiver", "another client"}[k], what, vkit.Short(rsp), err)
					break
				}
			}
			if r.Failed() {
				break
			}
		}
		synctest.Wait()
		mu.Lock()
		for i, it := range c.Items {
			switch it.K {
			case "ml0", "mllong", "ml200", "empty", "stale", "unknown", "unknownnotify", "rsp", "pong":
				if len(c.S.Coders) == 0 && ran[1<<40+uint64(i)] {
					r.Failf("message %d (%s), which is for no handler, was handled", i, it.K)
				}
			}
		}
		mu.Unlock()
		if cli.Conn.(*vkit.Conn).Closed() || len(s.net.Conns) != 2 {
			r.Failf("the connection was dropped because of well-framed messages")
		}
		r.NonTrivial()
		cli.Stop()
		other.Stop()
		s.stop()
	})
}

// ---- bytes: anything at all ----

type c11chunk struct {
	K    string
	A, B int
	Hex  []byte
	Len  int // body length field where it is wrong
	At   int
}

type c11bytes struct {
	Role   string
	EP     vkit.EP
	Max    int
	Down   vkit.DirPlan
	Chunks []c11chunk
}

func genC11bytes(rt *rapid.T) c11bytes {
	c := c11bytes{Role: vkit.Pick(rt, "role", "accept", "accept", "dial"), EP: vkit.GenEP(rt, "ep"), Max: vkit.Pick(rt, "max", 0, 1, 16, 64, 1000, 100000)}
	c.EP.Pool = vkit.Chance(rt, 30, "pool")
	c.EP.Coders = c11coders[vkit.Int(rt, 0, len(c11coders)-1, "coders")]
	c.Down = vkit.GenDir(rt, "down")
	c.Down.Cap = 0
	for i := vkit.Int(rt, 1, 8, "chunks"); i > 0; i-- {
		k := c11chunk{K: vkit.Pick(rt, "k", "raw", "frame", "frame", "frame", "mut", "mut", "len", "max", "over", "trunc"),
			A: vkit.Int(rt, 0, 7, "cmd"), B: vkit.Size(rt, 300, "n"), At: vkit.Pick(rt, "at", 0, 0, 3)}
		switch k.K {
		case "raw":
			k.Hex = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "raw")
		case "mut":
			k.Hex = rapid.SliceOfN(rapid.Byte(), 2, 8).Draw(rt, "mut") // (position, value) pairs
		case "len":
			k.Len = vkit.Pick(rt, "len", 0, 1, 15, 16, 17, 255, 256, 65535, 1<<20, 1<<31-1, 1<<31, 1<<32-1)
		case "over":
			k.Len = vkit.Pick(rt, "over", 1, 2, 100, 1<<20, 1<<28)
		}
		c.Chunks = append(c.Chunks, k)
	}
	return c
}

func (k c11chunk) bytes(max int) []byte {
	f := vkit.Frame{Cmd: byte(k.A), Seq: uint64(k.B), Method: []string{"m", "echo", "st", "", "nobody"}[k.B%5], Data: vkit.Blob{N: k.B, S: k.A}.Bytes()}
	if k.A == 6 && k.B%2 == 0 {
		f.Cmd |= vkit.StreamLocal
	}
	b := f.Encode()
	switch k.K {
	case "raw":
		return k.Hex
	case "mut":
		for i := 0; i+1 < len(k.Hex); i += 2 {
			b[int(k.Hex[i])%len(b)] = k.Hex[i+1]
		}
	case "len":
		binary.LittleEndian.PutUint32(b, uint32(k.Len))
	case "max":
		if max > 1<<20 {
			max = 1 << 10
		}
		f.Method, f.Data = "m", vkit.Blob{N: max - 1, S: 1}.Bytes()
		f.Cmd = vkit.CRequest
		return f.Encode()
	case "over":
		binary.LittleEndian.PutUint32(b, uint32(max+k.Len))
	case "trunc":
		return b[:k.B%len(b)]
	}
	return b
}

func runC11bytes(r *vkit.R, c c11bytes) {
	max := c.Max
	if max == 0 {
		max = arpc.DefaultMaxBodyLen
	}
	r.Bubble(func() {
		var mu sync.Mutex
		big := 0
		tune := func(h arpc.Handler) {
			if c.Max > 0 {
				h.SetMaxBodyLen(c.Max)
			}
			malloc := func(n int) []byte { return make([]byte, n) }
			if c.EP.Pool {
				malloc = arpc.DefaultAllocator.Malloc
			}
			h.HandleMalloc(func(n int) []byte {
				mu.Lock()
				if n > big {
					big = n
				}
				mu.Unlock()
				return malloc(n)
			})
			h.Handle("m", func(ctx *arpc.Context) { ctx.Write("ok") })
			h.Handle("e", func(ctx *arpc.Context) { ctx.Write("k") }, false)
			h.Handle("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) })
			h.HandleStream("st", func(s *arpc.Stream) {
				var v string
				for s.Recv(&v) == nil {
				}
				s.CloseRecv()
				s.CloseSend()
			}, true)
		}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{Down: c.Down}, tune)
		// somebody else on the same server, with a limit that allows one letter
		var bystander *arpc.Client
		if c.Role == "accept" {
			var err error
			var ep vkit.EP
			ep.Coders = c.EP.Coders
			bystander, err = dial(e.net, ep, nil)
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
		}
		probeOther := func(when string) {
			if bystander == nil || c.Max == 1 || (len(c.EP.Coders) > 0 && max < 1000) {
				return
			}
			rsp := ""
			if err := bystander.Call("e", "", &rsp, time.Hour); err != nil || rsp != "k" {
				r.Failf("%s: a call on another connection: %q, %v", when, rsp, err)
			}
		}
		go func() { // drain what the victim sends
			buf := make([]byte, 4096)
			for {
				if _, err := e.raw.Read(buf); err != nil {
					return
				}
			}
		}()
		var all []byte
		for i, k := range c.Chunks {
			if k.At > 0 {
				time.Sleep(us(k.At))
			}
			b := k.bytes(max)
			if len(b) > 4<<20 {
				b = b[:4<<20]
			}
			all = append(all, b...)
			e.raw.Write(b)
			if i%2 == 0 {
				probeOther(fmt.Sprintf("after chunk %d", i))
			}
		}
		time.Sleep(10 * time.Minute)
		synctest.Wait()
		// what the documented layout makes of the bytes
		pos, over, killer, nf := 0, false, false, 0
		for len(all)-pos >= 4 {
			n := int(binary.LittleEndian.Uint32(all[pos:]))
			if n > max {
				over = true
				break
			}
			if len(all)-pos < 16+n {
				break
			}
			if cmd := all[pos+5] &^ (vkit.StreamEOF | vkit.StreamLocal); cmd == 0 || cmd > vkit.CStream {
				killer = true // an unknown command: dropping the connection is allowed
			}
			if all[pos+5] == 0 || len(c.EP.Coders) > 0 {
				killer = true
			}
			pos += 16 + n
			nf++
		}
		closed := e.own.Closed()
		switch {
		case over && !closed:
			r.Failf("a frame with a body length above %d did not close the connection", max)
		case !over && !killer && closed:
			r.Failf("the connection was closed although every frame was within the limit and had a known command")
		}
		mu.Lock()
		limit := 16 + max
		if limit < 4096 {
			limit = 4096
		}
		if big > limit {
			r.Failf("%d bytes were requested for a message, the limit is %d", big, max)
		}
		mu.Unlock()
		probeOther("in the end")
		if over {
			r.Class("over-limit")
		}
		if nf > 0 {
			r.Class("frames-parsed")
		}
		if pos == len(all) && !over && !killer && nf > 0 {
			// the stream is in step: a valid request must be served
			r.Class("in-step")
			before := e.own.SentLen()
			e.raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: 77, Method: "e"}.Encode())
			time.Sleep(time.Minute)
			synctest.Wait()
			sent := e.own.Sent()[before:]
			fs, err := vkit.DecodeFrames(sent)
			if err != nil || len(fs) != 1 || fs[0].Seq != 77 || string(fs[0].Data) != "k" {
				r.Failf("a valid request after the hostile ones got %v (%v)", fs, err)
			}
		}
		if over || nf > 0 {
			r.NonTrivial()
		}
		if c.Role == "dial" {
			// the client must still be alive, on this or on a new connection
			if err := e.cli.CheckState(); err != nil && !killer {
				r.Failf("the client is not usable afterwards: %v", err)
			}
		}
		if bystander != nil {
			bystander.Stop()
		}
		e.net.Close()
		for _, x := range e.net.Conns {
			x.Other().Close()
		}
		e.stop()
	})
}

func init() {
	vkit.Register("C11", "meaningless", vkit.Opts{Quick: 20000, Rule: "every case (each mixes nonsense with valid calls)"}, genC11mean, runC11mean)
	vkit.Register("C11", "bytes", vkit.Opts{Quick: 40000, Rule: "at least one whole frame was parsed or a length above the limit was met"}, genC11bytes, runC11bytes)
}
