package core

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C28: timeouts, keepalive and hooks in exact fake time. Events happen at
// multiples of 10 ms, timeouts are odd multiples of 5 ms: no ties.

func tick(n int) time.Duration { return time.Duration(n) * 10 * time.Millisecond }

// c28watch reads the raw end of a connection and notes when it ended.
type c28watch struct {
	mu   sync.Mutex
	fs   []vkit.Frame
	ts   []time.Time
	end  time.Time
	done chan struct{}
}

func c28reader(raw *vkit.Conn) *c28watch {
	w := &c28watch{done: make(chan struct{})}
	go func() {
		defer close(w.done)
		for {
			f, err := vkit.ReadFrame(raw)
			w.mu.Lock()
			if err != nil {
				w.end = time.Now()
				w.mu.Unlock()
				return
			}
			w.fs = append(w.fs, f)
			w.ts = append(w.ts, time.Now())
			w.mu.Unlock()
		}
	}()
	return w
}

func (w *c28watch) ended(start time.Time) time.Duration {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.end.IsZero() {
		return -1
	}
	return w.end.Sub(start)
}

// ---- read timeout ----

type c28frame struct {
	Gap   int
	K     string // ping, pong, async, sync, request, unknown, reply
	N     int    // payload
	D     int    // duration of a sync handler
	Cut   int    // bytes of the frame sent first, 0: all at once
	Delay int    // the rest follows after that
}

type c28read struct {
	Role   string
	EP     vkit.EP
	RT     int // read timeout: RT*10-5 ms, 0: none
	Fs     []c28frame
	Keep   int // keepalive of the endpoint itself, which must not matter
	WT     bool
	Second bool // read timeout changed to that of another handler made from the same clone
}

func genC28read(rt *rapid.T) c28read {
	c := c28read{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), RT: vkit.Pick(rt, "rt", 0, 1, 2, 3, 5, 10, 100), WT: vkit.Bool(rt, "wt")}
	if vkit.Chance(rt, 30, "keep") {
		c.Keep = vkit.Int(rt, 1, 10, "ki")
	}
	for i := vkit.Int(rt, 0, 10, "frames"); i > 0; i-- {
		f := c28frame{K: vkit.Pick(rt, "k", "ping", "ping", "pong", "async", "sync", "request", "unknown", "reply"), N: vkit.Size(rt, 300, "n")}
		max := c.RT + 1
		if c.RT == 0 || vkit.Chance(rt, 85, "alive") {
			max = c.RT - 1
		}
		if max < 0 {
			max = 0
		}
		if max > 20 {
			max = vkit.Pick(rt, "max", max, 20)
		}
		f.Gap = vkit.Int(rt, 0, max, "gap")
		if f.K == "sync" {
			f.D = vkit.Pick(rt, "d", 0, 1, 3, 12)
		}
		if vkit.Chance(rt, 30, "split") {
			f.Cut = vkit.Int(rt, 1, 40, "cut")
			f.Delay = vkit.Int(rt, 0, 3, "delay")
		}
		c.Fs = append(c.Fs, f)
	}
	return c
}

func c28encode(f c28frame, i int) []byte {
	fr := vkit.Frame{Seq: uint64(i + 1), Data: vkit.Blob{N: f.N, S: i}.Bytes()}
	switch f.K {
	case "ping":
		return vkit.Frame{Cmd: vkit.CPing}.Encode()
	case "pong":
		return vkit.Frame{Cmd: vkit.CPong}.Encode()
	case "async":
		fr.Cmd, fr.Method = vkit.CNotify, "async"
	case "sync":
		fr.Cmd, fr.Method = vkit.CNotify, fmt.Sprintf("sync%d", f.D)
	case "request":
		fr.Cmd, fr.Method = vkit.CRequest, "echo"
	case "unknown":
		fr.Cmd, fr.Method = vkit.CNotify, "nobody"
	case "reply":
		fr.Cmd, fr.Method, fr.Seq = vkit.CResponse, "x", 1<<40
	}
	return fr.Encode()
}

func runC28read(r *vkit.R, c c28read) {
	r.Bubble(func() {
		var rt time.Duration
		if c.RT > 0 {
			rt = tick(c.RT) - 5*time.Millisecond
		}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			h.SetReadTimeout(rt)
			if c.WT {
				h.SetWriteTimeout(15 * time.Millisecond)
			}
			h.Handle("async", func(ctx *arpc.Context) { time.Sleep(tick(7)) }, true)
			h.Handle("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) })
			for _, d := range []int{0, 1, 3, 12} {
				h.Handle(fmt.Sprintf("sync%d", d), func(ctx *arpc.Context) { time.Sleep(tick(d)) }, false)
			}
		})
		start := time.Now()
		w := c28reader(e.raw)
		if c.Keep > 0 {
			e.cli.Keepalive(tick(c.Keep) + 3*time.Millisecond)
		}
		// the model: when is each frame complete, and when does the connection end
		var at time.Duration
		var complete []time.Duration
		for _, f := range c.Fs {
			at += tick(f.Gap)
			if f.Cut > 0 {
				at += tick(f.Delay)
			}
			complete = append(complete, at)
		}
		var recv time.Duration // the endpoint starts to receive
		drop := time.Duration(-1)
		handled := 0
		for i, f := range c.Fs {
			done := complete[i]
			if rt > 0 && done > recv+rt {
				drop = recv + rt
				break
			}
			if done > recv {
				recv = done
			}
			handled++
			if f.K == "sync" {
				recv += tick(f.D)
			}
		}
		if rt > 0 && drop < 0 {
			drop = recv + rt
		}
		go func() {
			for i, f := range c.Fs {
				time.Sleep(tick(f.Gap))
				b := c28encode(f, i)
				if f.Cut > 0 {
					k := f.Cut
					if k >= len(b) {
						k = len(b) - 1
					}
					if _, err := e.raw.Write(b[:k]); err != nil {
						return
					}
					time.Sleep(tick(f.Delay))
					b = b[k:]
				}
				if _, err := e.raw.Write(b); err != nil {
					return
				}
			}
		}()
		horizon := at + 2*tick(c.RT) + tick(50)
		time.Sleep(horizon)
		synctest.Wait()
		if got := w.ended(start); got != drop {
			r.Failf("the connection ended at %v, want %v (-1ns: never; read timeout %v, frames complete at %v)", got, drop, rt, complete)
		}
		if handled < len(c.Fs) {
			r.Class("dropped-mid")
		}
		pongs, pings := 0, 0
		for i, f := range c.Fs {
			if i < handled && f.K == "ping" {
				pings++
			}
		}
		for _, f := range w.fs {
			if f.Cmd == vkit.CPong {
				pongs++
			}
		}
		if pongs != pings {
			r.Failf("%d pings were answered with %d pongs", pings, pongs)
		}
		if drop > 0 && len(c.Fs) > 1 {
			r.NonTrivial()
		}
		e.stop()
		time.Sleep(time.Minute)
	})
}

// ---- keepalive ----

type c28keep struct {
	S, C       vkit.EP
	KI         int // keepalive interval: KI*10 ms; 0: the default
	SRT, CRT   int // read timeouts beyond the interval, in ticks minus 5 ms; 0: none
	SWT, CWT   int // write timeouts
	Server     bool
	Calls      []int // times of calls
	Back       []int // times of calls of the server
	Cut        int   // the connection is lost at that time
	Redial     int
	Stop       int
	StopServer bool
}

func genC28keep(rt *rapid.T) c28keep {
	c := c28keep{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), KI: vkit.Pick(rt, "ki", 1, 2, 5, 10, 100, 0), Server: vkit.Chance(rt, 30, "server")}
	rto := func(l string) int { return vkit.Pick(rt, l, 0, 1, 1, 2, 5, 100) }
	c.SRT, c.CRT = rto("srt"), rto("crt")
	wto := func(l string) int { return vkit.Pick(rt, l, 0, 0, 1, 2, 7, 50, 5000) }
	c.SWT, c.CWT = wto("swt"), wto("cwt")
	ki := c.KI
	if ki == 0 {
		ki = 3000
	}
	for i := vkit.Int(rt, 0, 4, "calls"); i > 0; i-- {
		c.Calls = append(c.Calls, vkit.Int(rt, 0, 10*ki, "call"))
	}
	for i := vkit.Int(rt, 0, 2, "backs"); i > 0; i-- {
		c.Back = append(c.Back, vkit.Int(rt, 0, 10*ki, "back"))
	}
	if !c.Server && vkit.Chance(rt, 30, "cutting") {
		c.Cut = vkit.Int(rt, 1, 10*ki, "cut")
		c.Redial = vkit.Int(rt, 1, ki, "redial")
	}
	c.Stop = vkit.Int(rt, 1, 20*ki, "stop")
	return c
}

func runC28keep(r *vkit.R, c c28keep) {
	r.Bubble(func() {
		iv := tick(c.KI)
		if c.KI == 0 {
			iv = 30 * time.Second
		}
		lim := func(n int) time.Duration {
			if n == 0 {
				return 0
			}
			return iv + tick(n) - 5*time.Millisecond
		}
		wt := func(n int) time.Duration {
			if n == 0 {
				return 0
			}
			return tick(n) - 5*time.Millisecond
		}
		var mu sync.Mutex
		lost := 0
		s := newServer(c.S, func(h arpc.Handler) {
			h.SetReadTimeout(lim(c.SRT))
			h.SetWriteTimeout(wt(c.SWT))
			h.Handle("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) })
			h.HandleDisconnected(func(*arpc.Client) { mu.Lock(); lost++; mu.Unlock() })
		}).start()
		type wr struct {
			at  time.Duration
			cmd byte
			c   int
		}
		var cw, sw []wr // frames written by client and server
		start := time.Now()
		frames := func(b []byte, list *[]wr, id int) {
			for len(b) >= 16 {
				f, rest, err := vkit.DecodeFrame(b)
				if err != nil {
					break
				}
				mu.Lock()
				*list = append(*list, wr{time.Since(start), f.Cmd & 0x3f, id})
				mu.Unlock()
				b = rest
			}
		}
		conns := 0
		var cur *vkit.Conn
		ch := c.C.NewHandler()
		ch.SetReadTimeout(lim(c.CRT))
		ch.SetWriteTimeout(wt(c.CWT))
		ch.Handle("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) })
		cli, err := arpc.NewClient(func() (net.Conn, error) {
			mu.Lock()
			id := conns
			conns++
			mu.Unlock()
			if id > 0 {
				time.Sleep(tick(c.Redial))
			}
			x, err := s.net.Dial()
			if err != nil {
				return nil, err
			}
			v := x.(*vkit.Conn)
			v.BeforeWrite = func(b []byte) { frames(b, &cw, id) }
			v.Other().BeforeWrite = func(b []byte) { frames(b, &sw, id) }
			mu.Lock()
			cur = v
			mu.Unlock()
			return v, nil
		}, ch)
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		synctest.Wait()
		mu.Lock()
		start = time.Now()
		mu.Unlock()
		pinger := cli
		list, other := &cw, &sw
		if c.Server {
			pinger = s.client(0)
			list, other = &sw, &cw
		}
		if c.KI == 0 {
			pinger.Keepalive(0)
		} else {
			pinger.Keepalive(iv)
		}
		var wg sync.WaitGroup
		call := func(at int, back bool) {
			wg.Add(1)
			time.AfterFunc(tick(at), func() {
				defer wg.Done()
				x := cli
				if back {
					x = s.client(0)
				}
				var rsp string
				if err := x.Call("echo", "hi", &rsp, time.Second); (err != nil || rsp != "hi") && c.Cut == 0 && at < c.Stop {
					r.Failf("a call at %v ended with %q %v", tick(at), rsp, err)
				}
			})
		}
		for _, a := range c.Calls {
			call(a, false)
		}
		for _, a := range c.Back {
			call(a, true)
		}
		if c.Cut > 0 {
			time.AfterFunc(tick(c.Cut)+2*time.Millisecond, func() { mu.Lock(); x := cur; mu.Unlock(); x.Reset() })
		}
		end := tick(c.Stop) + 3*time.Millisecond
		time.Sleep(end)
		synctest.Wait()
		wantLost, wantConns := 0, 1
		down, up := time.Duration(-1), time.Duration(-1)
		if c.Cut > 0 && tick(c.Cut)+2*time.Millisecond < end {
			wantLost++
			wantConns++
			down = tick(c.Cut) + 2*time.Millisecond
			up = down + tick(c.Redial)
			r.Class("cut")
		}
		mu.Lock()
		if lost != wantLost || conns != wantConns {
			r.Failf("with pings every %v: %d connections were lost and %d made until %v, want %d and %d (read timeouts server %v client %v, write timeouts %v %v)", iv, lost, conns, end, wantLost, wantConns, lim(c.SRT), lim(c.CRT), wt(c.SWT), wt(c.CWT))
		}
		n := 0
		last := time.Duration(0)
		for _, w := range *list {
			if w.cmd != vkit.CPing {
				continue
			}
			n++
			base := last
			if up >= 0 && w.at >= up && base < up {
				base = up
			}
			if w.at-base > iv {
				r.Failf("no ping between %v and %v, interval %v", base, w.at, iv)
			}
			last = w.at
		}
		if up >= 0 && end > up && last < up {
			last = up
		}
		if (up < 0 || end > up) && end-last > iv {
			r.Failf("no ping between %v and %v, interval %v", last, end, iv)
		}
		if max := int(end/iv) + 1; n > max {
			r.Failf("%d pings until %v, interval %v", n, end, iv)
		}
		pongs := 0
		for _, w := range *other {
			if w.cmd == vkit.CPong {
				pongs++
			}
		}
		if pongs > n || pongs < n-2*(wantConns-1) {
			r.Failf("%d pings were answered with %d pongs", n, pongs)
		}
		mu.Unlock()
		// nothing of a stopped client
		pinger.Stop()
		if c.Server {
			cli.Stop()
		}
		synctest.Wait()
		mu.Lock()
		before := len(cw) + len(sw)
		mu.Unlock()
		time.Sleep(20*iv + time.Second)
		mu.Lock()
		for _, w := range append(append([]wr(nil), cw...), sw...) {
			if w.cmd == vkit.CPing && w.at > end {
				// a write to the closed connection does not leave it
				if cur != nil && !cur.Closed() && !cur.Other().Closed() {
					r.Failf("a ping at %v, after the stop at %v", w.at, end)
				}
			}
		}
		_ = before
		mu.Unlock()
		if n > 1 && (c.SRT > 0 || c.CRT > 0) {
			r.NonTrivial()
		}
		if !waitOr(&wg, time.Hour) {
			r.Failf("a call never ended")
		}
		cli.Stop()
		s.stop()
		time.Sleep(time.Minute)
	})
}

// ---- write timeout ----

type c28send struct {
	At int
	K  string // notify, call, ping, pong, stream
	N  int
}

type c28write struct {
	Role string
	EP   vkit.EP
	WT   int
	T1   int // nothing can be written from then on ...
	Len  int // ... for that long
	Sent []c28send
}

// c28do sends something in one of the ways there are.
func c28do(c *arpc.Client, k string, i int, v []byte) {
	switch k {
	case "notifyctx":
		c.NotifyContext(context.Background(), fmt.Sprintf("n%d", i), v)
	case "push":
		c.PushMsg(c.NewMessage(arpc.CmdNotify, fmt.Sprintf("n%d", i), v), time.Hour)
	case "callctx":
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		c.CallContext(ctx, fmt.Sprintf("c%d", i), v, nil)
		cancel()
	case "async":
		c.CallAsync(fmt.Sprintf("c%d", i), v, func(*arpc.Context, error) {}, time.Second)
	case "stream":
		c.NewStream(fmt.Sprintf("n%d", i)).Send(append(v, 'x'))
	case "ping":
		c.Ping()
	default:
		panic(k)
	}
}

func genC28write(rt *rapid.T) c28write {
	c := c28write{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), WT: vkit.Pick(rt, "wt", 0, 1, 2, 5, 10, 30), T1: vkit.Int(rt, 0, 40, "t1"), Len: vkit.Pick(rt, "len", 0, 1, 2, 4, 5, 6, 10, 11, 30, 50, 1000)}
	for i := vkit.Int(rt, 1, 10, "sends"); i > 0; i-- {
		c.Sent = append(c.Sent, c28send{At: vkit.Int(rt, 0, 80, "at"), K: vkit.Pick(rt, "k", "notify", "notify", "call", "call", "ping", "pong", "notifyctx", "push", "callctx", "async", "stream", "reply"), N: vkit.Size(rt, 3000, "n")})
	}
	return c
}

func runC28write(r *vkit.R, c c28write) {
	r.Bubble(func() {
		var wt time.Duration
		if c.WT > 0 {
			wt = tick(c.WT) - 5*time.Millisecond
		}
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			h.SetWriteTimeout(wt)
			h.Handle("echo", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) }, true)
		})
		start := time.Now()
		w := c28reader(e.raw)
		t1, t2 := tick(c.T1)-time.Millisecond, tick(c.T1+c.Len)+time.Millisecond
		if t1 < 0 {
			t1 = 0
		}
		time.AfterFunc(t1, func() { e.own.StallWrites(true) })
		time.AfterFunc(t2, func() { e.own.StallWrites(false) })
		if t1 == 0 {
			e.own.StallWrites(true)
		}
		// the first write under way in the stall decides; later direct writes may extend its deadline
		first, last := time.Duration(-1), time.Duration(-1)
		for _, o := range c.Sent {
			at := tick(o.At)
			if at >= t1 && at < t2 && (first < 0 || at < first) {
				first = at
			}
		}
		if first >= 0 {
			last = first
			queued := false // the send loop is blocked
			sorted := append([]c28send(nil), c.Sent...)
			sort.SliceStable(sorted, func(i, j int) bool { return sorted[i].At < sorted[j].At })
			for _, o := range sorted {
				at := tick(o.At)
				if at < first || at >= t2 || at > last+wt {
					continue
				}
				direct := c.EP.SyncWrite || o.K == "ping" || o.K == "pong"
				if direct || !queued {
					last = at
				}
				// a reply may be late: the receiving loop may be busy with a pong
				queued = queued || !direct && o.K != "reply"
			}
		}
		var wg sync.WaitGroup
		for i, o := range c.Sent {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(tick(o.At))
				v := vkit.Blob{N: o.N, S: i}.Bytes()
				switch o.K {
				case "notify":
					e.cli.Notify(fmt.Sprintf("n%d", i), v, time.Hour)
				case "call":
					e.cli.Call(fmt.Sprintf("c%d", i), v, nil, time.Second)
				case "reply":
					e.raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(1000 + i), Method: "echo", Data: v}.Encode())
				case "pong":
					e.raw.Write(vkit.Frame{Cmd: vkit.CPing}.Encode())
				default:
					c28do(e.cli, o.K, i, v)
				}
			}()
		}
		time.Sleep(tick(1200))
		synctest.Wait()
		got := w.ended(start)
		lo, hi := first+wt, last+wt
		switch {
		case wt == 0 || first < 0 || hi < t2 && false:
			if got >= 0 {
				r.Failf("the connection was dropped at %v (write timeout %v, no write could take that long)", got, wt)
			}
			r.Class("no-stall")
		case hi < t2:
			// must be dropped, in time
			if got < lo || got > hi {
				r.Failf("a write begun at %v made no progress until %v, write timeout %v: the connection was dropped at %v, want %v to %v", first, t2, wt, got, lo, hi)
			}
			r.NonTrivial()
			r.Class("dropped")
		case lo > t2:
			if got >= 0 {
				r.Failf("the connection was dropped at %v although the write begun at %v could go on at %v, within the timeout %v", got, first, t2, wt)
			}
			r.NonTrivial()
			r.Class("survived")
		default:
			r.Class("either")
		}
		if got < 0 {
			// everything arrived
			have := map[string]int{}
			for _, f := range w.fs {
				k := f.Method
				if f.Cmd == vkit.CPing {
					k = "ping"
				} else if f.Cmd == vkit.CPong {
					k = "pong"
				}
				have[k]++
			}
			want := map[string]int{}
			for i, o := range c.Sent {
				switch o.K {
				case "notify", "notifyctx", "push", "stream":
					want[fmt.Sprintf("n%d", i)]++
				case "reply":
					want["echo"]++
				case "call", "callctx", "async":
					want[fmt.Sprintf("c%d", i)]++
				default:
					want[o.K]++
				}
			}
			for k, n := range want {
				if have[k] != n {
					r.Failf("%d frames of %s arrived, want %d", have[k], k, n)
				}
			}
		}
		e.stop()
		if !waitOr(&wg, 2*time.Hour) {
			r.Failf("a call never ended")
		}
		time.Sleep(time.Minute)
	})
}

// ---- hooks ----

type c28hook struct {
	Role         string
	EP           vkit.EP
	Recv, Send   bool
	FailR, FailS int // call of the hook that fails, 0: none
	In           []c28frame
	Out          []c28send
}

func genC28hook(rt *rapid.T) c28hook {
	c := c28hook{Role: vkit.Pick(rt, "role", "dial", "accept"), EP: vkit.GenEP(rt, "ep"), Recv: vkit.Chance(rt, 70, "recv"), Send: vkit.Chance(rt, 70, "send")}
	if c.Recv && vkit.Bool(rt, "fr") {
		c.FailR = vkit.Int(rt, 2, 8, "failr")
	}
	if c.Send && vkit.Bool(rt, "fs") {
		c.FailS = vkit.Int(rt, 1, 8, "fails")
	}
	for i := vkit.Int(rt, 0, 8, "in"); i > 0; i-- {
		c.In = append(c.In, c28frame{Gap: vkit.Int(rt, 0, 5, "gap"), K: vkit.Pick(rt, "k", "ping", "pong", "async", "sync", "request", "unknown"), N: vkit.Int(rt, 0, 100, "n")})
	}
	for i := vkit.Int(rt, 0, 8, "out"); i > 0; i-- {
		c.Out = append(c.Out, c28send{At: vkit.Int(rt, 0, 30, "at"), K: vkit.Pick(rt, "k", "notify", "call", "ping", "notify", "call", "ping", "notifyctx", "push", "callctx", "async", "stream"), N: vkit.Int(rt, 0, 100, "n")})
	}
	return c
}

func runC28hook(r *vkit.R, c c28hook) {
	r.Bubble(func() {
		var mu sync.Mutex
		nr, ns, handled, writes := 0, 0, 0, 0
		var own net.Conn
		bad := errors.New("hook failed")
		failedAt := time.Duration(-1)
		start := time.Now()
		dead := false
		e := newEndpoint(c.Role, c.EP, vkit.ConnPlan{}, func(h arpc.Handler) {
			count := func(n *int, fail int, conn net.Conn, what string) error {
				mu.Lock()
				defer mu.Unlock()
				if dead {
					return nil // the connection that follows
				}
				if own == nil {
					own = conn
				} else if own != conn {
					if failedAt < 0 {
						r.Failf("the %s hook got another connection", what)
					}
					return nil
				}
				*n++
				if *n == fail {
					if failedAt < 0 {
						failedAt = time.Since(start)
					}
					return bad
				}
				return nil
			}
			if c.Recv {
				h.BeforeRecv(func(conn net.Conn) error { return count(&nr, c.FailR, conn, "receive") })
			}
			if c.Send {
				h.BeforeSend(func(conn net.Conn) error { return count(&ns, c.FailS, conn, "send") })
			}
			done := func(*arpc.Context) { mu.Lock(); handled++; mu.Unlock() }
			h.Handle("async", done, true)
			h.Handle("sync0", done, false)
			h.Handle("echo", func(ctx *arpc.Context) { done(ctx); ctx.Write(ctx.Body()) })
		})
		mu.Lock()
		start = time.Now()
		if own != nil && own != net.Conn(e.own) {
			r.Failf("the hook got a connection that is not the client's")
		}
		own = e.own
		mu.Unlock()
		e.own.BeforeWrite = func(b []byte) {
			fs, _ := vkit.DecodeFrames(b)
			mu.Lock()
			writes++
			if c.Send && ns < writes {
				r.Failf("write %d (%v) at %v came with only %d calls of the send hook", writes, fs, time.Since(start), ns)
			}
			if c.FailS > 0 && ns >= c.FailS && writes >= c.FailS+8 {
				r.Failf("the connection is still written to after its send hook failed")
			}
			mu.Unlock()
		}
		w := c28reader(e.raw)
		var wg sync.WaitGroup
		wg.Add(1)
		var okSync int
		go func() {
			defer wg.Done()
			for i, f := range c.In {
				time.Sleep(tick(f.Gap))
				if _, err := e.raw.Write(c28encode(f, i)); err != nil {
					return
				}
			}
		}()
		for i, o := range c.Out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(tick(o.At))
				switch o.K {
				case "notify":
					if err := e.cli.Notify(fmt.Sprintf("n%d", i), "x", time.Hour); err == nil {
						mu.Lock()
						okSync++
						mu.Unlock()
					}
				case "call":
					e.cli.Call(fmt.Sprintf("c%d", i), "x", nil, time.Second)
				default:
					c28do(e.cli, o.K, i, []byte("x"))
				}
			}()
		}
		time.Sleep(tick(100))
		synctest.Wait()
		mu.Lock()
		dead = true
		end := w.ended(start)
		if end != failedAt {
			r.Failf("a hook failed at %v and the connection was dropped at %v (-1ns: never)", failedAt, end)
		}
		if failedAt < 0 {
			if want := len(c.In) + 1; c.Recv && nr != want {
				r.Failf("the receive hook ran %d times for %d messages", nr, len(c.In))
			}
			if c.Send && ns < writes {
				r.Failf("the send hook ran %d times for %d writes", ns, writes)
			}
			want := len(c.Out)
			for _, f := range c.In {
				if f.K == "ping" || f.K == "request" {
					want++
				}
			}
			if len(w.fs) != want {
				r.Failf("%d frames were sent, want %d", len(w.fs), want)
			}
		} else {
			r.NonTrivial()
			if c.FailR > 0 && nr >= c.FailR {
				r.Class("recv-failed")
				if nr > c.FailR {
					r.Failf("the connection went on receiving after its receive hook failed")
				}
				n := 0
				for i, f := range c.In {
					if i < c.FailR-1 && (f.K == "async" || f.K == "sync" || f.K == "request") {
						n++
					}
				}
				if handled > n {
					r.Failf("%d messages were handled although the receive hook failed before message %d", handled, c.FailR)
				}
			}
			if c.FailS > 0 && ns >= c.FailS {
				r.Class("send-failed")
			}
		}
		mu.Unlock()
		if !waitOr(&wg, 2*time.Hour) {
			r.Failf("a call never ended")
		}
		e.stop()
		time.Sleep(time.Minute)
	})
}

func init() {
	vkit.Register("C28", "read", vkit.Opts{Quick: 15000, Rule: "more than one frame on a connection with a read timeout"}, genC28read, runC28read)
	vkit.Register("C28", "keepalive", vkit.Opts{Quick: 15000, Rule: "two or more pings against a read timeout"}, genC28keep, runC28keep)
	vkit.Register("C28", "write", vkit.Opts{Quick: 15000, Rule: "a write was under way while the connection could not be written to"}, genC28write, runC28write)
	vkit.Register("C28", "hooks", vkit.Opts{Quick: 15000, Rule: "a hook failed"}, genC28hook, runC28hook)
}
