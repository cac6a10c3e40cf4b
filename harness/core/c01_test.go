package core

import (
	"bytes"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C01: frames follow the documented layout and survive any split.

type c01op struct {
	K string // notify, push, callasync, call, stream, streamclose, ping
	M int    // method length
	V vkit.Value
	F int `json:",omitempty"` // flag bits for push
}

type c01emit struct {
	Role  string
	EP    vkit.EP
	Up    vkit.DirPlan
	Stall bool
	G     [][]c01op // one list per goroutine
}

func method(n, salt int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz/_.-0123456789"[(i*7+salt)%40]
	}
	return string(b)
}

func genMethodLen(rt *rapid.T) int {
	if vkit.Chance(rt, 30, "mledge") {
		return vkit.Pick(rt, "ml", 1, 2, 3, 16, 47, 48, 64, 112, 126, 127)
	}
	return vkit.Int(rt, 1, 20, "ml")
}

func genC01emit(rt *rapid.T) c01emit {
	c := c01emit{
		Role:  vkit.Pick(rt, "role", "dial", "accept"),
		EP:    vkit.GenEP(rt, "ep"),
		Up:    vkit.GenDir(rt, "up"),
		Stall: vkit.Bool(rt, "stall"),
	}
	c.EP.Pool = vkit.Chance(rt, 25, "pool")
	if c.EP.SyncWrite {
		c.Stall = false
	}
	ng := vkit.Int(rt, 1, 4, "goroutines")
	max := 2000
	if vkit.Chance(rt, 10, "bigcase") {
		max = 70000
	}
	huge := 0
	if vkit.Chance(rt, 1, "hugecase") {
		huge = 25
		if ng == 1 {
			ng = 2
		}
		if c.Up.Cap > 0 || len(c.Up.Reads) > 0 {
			c.Up = vkit.DirPlan{Cap: vkit.Pick(rt, "hcap", 0, 5000, 70000, 1<<20)}
		}
	}
	for g := 0; g < ng; g++ {
		n := vkit.Int(rt, 1, 8, "nops")
		var ops []c01op
		for i := 0; i < n; i++ {
			op := c01op{K: vkit.Pick(rt, "k", "notify", "push", "callasync", "call", "stream", "streamclose", "ping"), M: genMethodLen(rt)}
			op.V = vkit.GenValue(rt, max, "v")
			if vkit.Chance(rt, huge, "huge") {
				op.V.B.N = vkit.Pick(rt, "hn", 200000, 1<<20, 1<<20+500, 2200000)
			}
			if op.K == "push" {
				op.F = vkit.Int(rt, 0, 255, "flags")
			}
			ops = append(ops, op)
		}
		c.G = append(c.G, ops)
	}
	return c
}

type wantFrame struct {
	cmd, flag, res byte
	method         string
	data           []byte
}

func runC01emit(r *vkit.R, c c01emit) {
	total, nonping := 0, 0
	r.Bubble(func() {
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{Up: c.Up}, nil)
		defer e.stop()
		// the raw side swallows everything
		go func() {
			buf := make([]byte, 70000)
			for {
				if _, err := e.raw.Read(buf); err != nil {
					return
				}
			}
		}()
		if c.Stall {
			e.own.StallWrites(true)
		}
		want := make([][]wantFrame, len(c.G))
		pings := 0
		var mu sync.Mutex
		var wg sync.WaitGroup
		for gi := range c.G {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var st *arpc.Stream
				for oi, op := range c.G[gi] {
					m := method(op.M, gi*31+oi)
					w := wantFrame{method: m, data: op.V.Wire()}
					var err error
					switch op.K {
					case "notify":
						w.cmd, w.flag = vkit.CNotify, vkit.FlagAsync
						err = e.cli.Notify(m, op.V.Go(), long())
					case "push":
						w.cmd = vkit.CNotify
						msg := e.cli.NewMessage(arpc.CmdNotify, m, op.V.Go())
						for b := 0; b < 8; b++ {
							if op.F&(1<<b) != 0 {
								msg.SetFlagBit(b, true)
							}
						}
						w.res = byte(op.F)
						err = e.cli.PushMsg(msg, -1)
					case "callasync":
						w.cmd, w.flag = vkit.CRequest, vkit.FlagAsync
						err = e.cli.CallAsync(m, op.V.Go(), func(*arpc.Context, error) {}, long())
					case "call":
						w.cmd = vkit.CRequest
						// nobody answers: the call ends at its deadline; the queue
						// has taken it long before
						err = e.cli.Call(m, op.V.Go(), nil, 24*time.Hour)
						if err == arpc.ErrClientTimeout {
							err = nil
						}
					case "stream", "streamclose":
						if st == nil {
							st = e.cli.NewStream(m)
							w.method = m
						} else {
							w.method = "" // same stream: method of its first use
						}
						w.cmd = vkit.CStream | vkit.StreamLocal
						if op.K == "streamclose" {
							w.cmd |= vkit.StreamEOF
							err = st.SendAndClose(op.V.Go())
						} else {
							err = st.Send(op.V.Go())
						}
						if w.method == "" {
							for k := len(want[gi]) - 1; k >= 0; k-- {
								if want[gi][k].cmd&0x3f == vkit.CStream {
									w.method = want[gi][k].method
									break
								}
							}
						}
						if op.K == "streamclose" {
							st = nil
						}
					case "ping":
						if c.Stall {
							continue // Ping writes to the connection itself
						}
						e.cli.Ping()
						mu.Lock()
						pings++
						mu.Unlock()
						continue
					}
					if err != nil {
						r.Failf("%s returned %v on a healthy connection", op.K, err)
						return
					}
					want[gi] = append(want[gi], w)
				}
			}()
		}
		if c.Stall {
			synctest.Wait()
			e.own.StallWrites(false)
		}
		if !waitOr(&wg, 300*24*time.Hour) {
			r.Failf("senders did not finish")
			return
		}
		synctest.Wait()
		time.Sleep(time.Minute)
		synctest.Wait()
		frames, err := vkit.DecodeFrames(e.own.Sent())
		if err != nil {
			r.Failf("emitted bytes are not a sequence of frames: %v", err)
			return
		}
		gotPings := 0
		next := make([]int, len(want))
		seqs := map[uint64]string{}
		for fi, f := range frames {
			if f.Cmd&0x3f == vkit.CPing {
				gotPings++
				if f.Cmd != vkit.CPing || f.Flag != 0 || f.Reserved != 0 || f.Seq != 0 || f.MethodLen != 0 || len(f.Data) != 0 {
					r.Failf("malformed ping frame %v", f)
					return
				}
				continue
			}
			if f.Cmd&0x3f == vkit.CStream && f.Cmd&vkit.StreamEOF != 0 && len(f.Data) == 0 {
				// may be a close of a stream left open; harmless here
				ok := false
				for gi := range want {
					if next[gi] < len(want[gi]) && sameFrame(f, want[gi][next[gi]]) {
						ok = true
					}
				}
				if !ok {
					r.Failf("frame %d: unexpected %v", fi, f)
					return
				}
			}
			if f.Cmd&0x3f != vkit.CStream {
				if p, dup := seqs[f.Seq]; dup {
					r.Failf("sequence %d used twice: %s and %s", f.Seq, p, f)
					return
				}
				seqs[f.Seq] = f.String()
			}
			match := -1
			for gi := range want {
				if next[gi] < len(want[gi]) && sameFrame(f, want[gi][next[gi]]) {
					match = gi
					break
				}
			}
			if match < 0 {
				exp := ""
				for gi := range want {
					if next[gi] < len(want[gi]) {
						w := want[gi][next[gi]]
						exp += fmt.Sprintf(" | %#x flag %#x res %#x %s %s", w.cmd, w.flag, w.res, w.method, vkit.Short(string(w.data)))
					}
				}
				r.Failf("frame %d is not the next message of any sender: got %v, expected one of%s", fi, f, exp)
				return
			}
			next[match]++
		}
		for gi := range want {
			if next[gi] != len(want[gi]) {
				r.Failf("only %d of the %d messages accepted from sender %d were emitted", next[gi], len(want[gi]), gi)
				return
			}
			total += len(want[gi])
		}
		if gotPings != pings {
			r.Failf("%d pings emitted, %d requested", gotPings, pings)
		}
		nonping = total
	})
	if nonping >= 2 {
		r.NonTrivial()
	}
	r.Class("role=%s", c.Role)
	r.Class("goroutines=%d", len(c.G))
	if c.Stall {
		r.Class("queued-behind-a-stall")
	}
	if c.EP.SyncWrite {
		r.Class("sync-write")
	}
	if c.EP.SendBuf > 0 && !c.EP.NoBatchSend {
		r.Class("batching")
	}
	for _, g := range c.G {
		for _, op := range g {
			if op.V.B.N > 1<<20 {
				r.Class("over-1MB")
			}
		}
	}
}

func sameFrame(f vkit.Frame, w wantFrame) bool {
	return f.Cmd == w.cmd && f.Flag == w.flag && f.Reserved == w.res && f.Method == w.method && bytes.Equal(f.Data, w.data)
}

// ---- receiving ----

type c01in struct {
	K   string // notify, request, arequest, ping, pong, res
	M   int    // index of the method
	D   vkit.Blob
	Seq uint64
}

type c01recv struct {
	Role   string
	EP     vkit.EP
	Down   vkit.DirPlan
	Writes []int // sizes of the raw writes (cyclic); 0 = everything
	MLens  []int
	MaxAt  int `json:",omitempty"` // >0: MaxBodyLen is exactly the biggest body sent
	In     []c01in
}

func genC01recv(rt *rapid.T) c01recv {
	c := c01recv{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Down: vkit.GenDir(rt, "down")}
	c.EP.Pool = vkit.Chance(rt, 25, "pool")
	nm := vkit.Int(rt, 1, 3, "methods")
	for i := 0; i < nm; i++ {
		c.MLens = append(c.MLens, genMethodLen(rt))
	}
	if vkit.Bool(rt, "splitwrites") {
		c.Writes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 100, 5000}), 1, 6).Draw(rt, "writes")
	}
	max := 2000
	if vkit.Chance(rt, 10, "bigcase") {
		max = 70000
	}
	n := vkit.Int(rt, 1, 20, "frames")
	for i := 0; i < n; i++ {
		x := c01in{K: vkit.Pick(rt, "k", "notify", "notify", "request", "arequest", "ping", "pong"), M: vkit.Int(rt, 0, nm-1, "m"), D: vkit.GenBlob(rt, max, "d")}
		x.Seq = rapid.OneOf(rapid.Uint64Range(0, 50), rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 255, 256, 65535, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, 1 << 63, 1<<64 - 1})).Draw(rt, "seq")
		c.In = append(c.In, x)
	}
	if vkit.Bool(rt, "max") {
		c.MaxAt = 1
	}
	return c
}

func runC01recv(r *vkit.R, c c01recv) {
	type rec struct {
		m    string
		data string
		seq  uint64
		cmd  byte
	}
	r.Bubble(func() {
		var mu sync.Mutex
		var got []rec
		names := map[string]bool{}
		var ms []string
		for i, l := range c.MLens {
			m := method(l, i*13)
			for names[m] {
				i += 7
				m = method(l, i*13+1)
			}
			names[m] = true
			ms = append(ms, m)
		}
		biggest := 0
		for _, x := range c.In {
			if n := len(ms[x.M]) + x.D.N; n > biggest {
				biggest = n
			}
		}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{Down: c.Down}, func(h arpc.Handler) {
			for _, m := range ms {
				h.Handle(m, func(ctx *arpc.Context) {
					mu.Lock()
					got = append(got, rec{ctx.Message.Method(), string(ctx.Body()), ctx.Message.Seq(), ctx.Message.Cmd()})
					mu.Unlock()
					if ctx.Message.Cmd() == arpc.CmdRequest {
						ctx.Write(append([]byte("re:"), ctx.Body()...))
					}
				}, false)
			}
			if c.MaxAt > 0 {
				h.SetMaxBodyLen(biggest)
			}
		})
		defer e.stop()
		var stream []byte
		var want []rec
		var wantRsp []vkit.Frame
		pings := 0
		for _, x := range c.In {
			f := vkit.Frame{Method: ms[x.M], Data: x.D.Bytes(), Seq: x.Seq}
			switch x.K {
			case "notify":
				f.Cmd, f.Flag = vkit.CNotify, vkit.FlagAsync
			case "request":
				f.Cmd = vkit.CRequest
			case "arequest":
				f.Cmd, f.Flag = vkit.CRequest, vkit.FlagAsync
			case "ping":
				f = vkit.Frame{Cmd: vkit.CPing}
				pings++
			case "pong":
				f = vkit.Frame{Cmd: vkit.CPong}
			}
			stream = append(stream, f.Encode()...)
			if x.K == "ping" || x.K == "pong" {
				continue
			}
			want = append(want, rec{f.Method, string(f.Data), f.Seq, f.Cmd})
			if f.Cmd == vkit.CRequest {
				wantRsp = append(wantRsp, vkit.Frame{Cmd: vkit.CResponse, Flag: f.Flag, Seq: f.Seq, Method: f.Method, Data: append([]byte("re:"), f.Data...)})
			}
		}
		wdone := make(chan struct{})
		go func() {
			defer close(wdone)
			for i := 0; len(stream) > 0; i++ {
				n := len(stream)
				if len(c.Writes) > 0 {
					if k := c.Writes[i%len(c.Writes)]; k > 0 && k < n {
						n = k
					}
				}
				if _, err := e.raw.Write(stream[:n]); err != nil {
					r.Failf("the endpoint dropped the connection while valid frames arrived: %v", err)
					return
				}
				stream = stream[n:]
			}
		}()
		var rsp []vkit.Frame
		pongs := 0
		rdone := make(chan struct{})
		go func() {
			defer close(rdone)
			for {
				f, err := vkit.ReadFrame(e.raw)
				if err != nil {
					return
				}
				mu.Lock()
				if f.Cmd == vkit.CPong {
					pongs++
				} else {
					rsp = append(rsp, f)
				}
				mu.Unlock()
			}
		}()
		time.Sleep(time.Hour)
		synctest.Wait()
		select {
		case <-wdone:
		default:
			r.Failf("the endpoint stopped reading valid frames")
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if len(got) != len(want) {
			r.Failf("%d messages sent, %d handled", len(want), len(got))
			return
		}
		for i := range want {
			if got[i] != want[i] {
				r.Failf("message %d: got %q %s seq %d cmd %d, want %q %s seq %d cmd %d", i, got[i].m, vkit.Short(got[i].data), got[i].seq, got[i].cmd, want[i].m, vkit.Short(want[i].data), want[i].seq, want[i].cmd)
				return
			}
		}
		if len(rsp) != len(wantRsp) {
			r.Failf("%d requests, %d responses", len(wantRsp), len(rsp))
			return
		}
		for i, f := range rsp {
			w := wantRsp[i]
			if f.Cmd != w.Cmd || f.Flag != w.Flag || f.Reserved != 0 || f.Seq != w.Seq || f.Method != w.Method || !bytes.Equal(f.Data, w.Data) {
				r.Failf("response %d: got %v want %v", i, f, w)
				return
			}
		}
		if pongs != pings {
			r.Failf("%d pings sent, %d pongs received", pings, pongs)
		}
	})
	if len(c.In) >= 2 {
		r.NonTrivial()
	}
	r.Class("role=%s", c.Role)
	if c.MaxAt > 0 {
		r.Class("body-at-maximum")
	}
	if len(c.Writes) > 0 || len(c.Down.Reads) > 0 {
		r.Class("fragmented")
	}
}

func init() {
	vkit.Register("C01", "emit", vkit.Opts{Quick: 16000, Rule: "at least two messages were emitted and compared byte for byte with the reference layout"}, genC01emit, runC01emit)
	vkit.Register("C01", "recv", vkit.Opts{Quick: 16000, Rule: "at least two frames were received"}, genC01recv, runC01recv)
}
