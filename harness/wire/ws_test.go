package wire

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	gws "github.com/gorilla/websocket"
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/protocol/websocket"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

func TestVerif(t *testing.T) { vkit.Main(t) }

// C21, websocket: everything in memory (HTTP server included), fake clock.

type wsWorld struct {
	net *vkit.Net
	ln  net.Listener
	srv *http.Server
}

func newWS() *wsWorld {
	w := &wsWorld{net: vkit.NewNet("ws")}
	ln, err := websocket.Listen("127.0.0.1:8888", nil)
	if err != nil {
		panic(err)
	}
	w.ln = ln
	mux := http.NewServeMux()
	mux.HandleFunc("/ws", ln.(*websocket.Listener).Handler)
	w.srv = &http.Server{Handler: mux}
	go w.srv.Serve(w.net)
	return w
}

func (w *wsWorld) dialer() *gws.Dialer {
	return &gws.Dialer{NetDial: func(string, string) (net.Conn, error) { return w.net.Dial() }}
}

func (w *wsWorld) dial() (net.Conn, error) {
	return websocket.Dial("ws://fake/ws", w.dialer())
}

func (w *wsWorld) stop() {
	w.ln.Close()
	w.net.Close()
	for _, c := range w.net.Conns {
		c.Reset()
	}
	w.srv.Close()
	synctest.Wait()
}

// ---- byte stream ----

// A record of a writer: length u32 | writer u8 | number u32 | payload.
func record(writer, k, n int, seed int) []byte {
	b := make([]byte, 9+n)
	binary.LittleEndian.PutUint32(b, uint32(n))
	b[4] = byte(writer)
	binary.LittleEndian.PutUint32(b[5:], uint32(k))
	copy(b[9:], vkit.Blob{N: n, S: seed + 31*k + writer}.Bytes())
	return b
}

type wsSide struct {
	W     [][]int // per concurrent writer: payload sizes
	Reads []int   // sizes of the reads of this side (cyclic)
	Sleep []int   // delay before reads
}

type wsCase struct {
	Plan  vkit.ConnPlan
	A, B  wsSide // A dials
	Raw   string // "": both ends are the library's; else the dialing end is a bare websocket client: frag, text, empty, ping
	Close string // which side closes when it has written everything: a, b, "" (a after b has everything)
	Reset bool   // the connection breaks instead
}

func genWSSide(rt *rapid.T, l string) wsSide {
	var s wsSide
	for i := vkit.Int(rt, 0, 4, l+".writers"); i > 0; i-- {
		var sz []int
		for j := vkit.Int(rt, 1, 5, l+".n"); j > 0; j-- {
			sz = append(sz, vkit.Pick(rt, l+".size", 0, 1, 7, 100, 116, 117, 118, 1000, 4087, 4096, 4200, 65527, 70000))
		}
		s.W = append(s.W, sz)
	}
	for i := vkit.Int(rt, 1, 4, l+".nr"); i > 0; i-- {
		s.Reads = append(s.Reads, vkit.Pick(rt, l+".r", 1, 2, 9, 16, 100, 4096, 5000, 100000))
	}
	return s
}

func genWS(rt *rapid.T) wsCase {
	c := wsCase{A: genWSSide(rt, "a"), B: genWSSide(rt, "b"), Raw: vkit.Pick(rt, "raw", "", "", "", "frag", "text", "empty", "ping"), Close: vkit.Pick(rt, "close", "a", "b", ""), Reset: vkit.Chance(rt, 15, "reset")}
	dir := func(l string) vkit.DirPlan {
		d := vkit.GenDir(rt, l)
		d.DelayUs = nil // a writer may hold a lock while it waits
		if d.Chunk == 1 || d.Cap > 0 && d.Cap < 200 {
			d.Cap, d.Chunk = 200, 64
		}
		return d
	}
	c.Plan = vkit.ConnPlan{Up: dir("up"), Down: dir("down")}
	small := func(s *wsSide, d vkit.DirPlan) {
		if d.Cap > 0 || len(d.Reads) > 0 {
			for i := range s.W {
				for j := range s.W[i] {
					s.W[i][j] = s.W[i][j] % 5000
				}
			}
		}
	}
	small(&c.A, c.Plan.Up)
	small(&c.B, c.Plan.Down)
	// single bytes are slow
	small2 := func(s *wsSide, reads []int) {
		for _, n := range reads {
			if n < 16 {
				for i := range s.W {
					for j := range s.W[i] {
						s.W[i][j] = s.W[i][j] % 1500
					}
				}
			}
		}
	}
	small2(&c.A, c.B.Reads)
	small2(&c.B, c.A.Reads)
	return c
}

// readAll reads c in pieces of the given sizes until an error.
func readAll(r *vkit.R, who string, c net.Conn, sizes []int) ([]byte, error) {
	var out []byte
	zero := 0
	for i := 0; ; i++ {
		b := make([]byte, sizes[i%len(sizes)])
		n, err := c.Read(b)
		if n < 0 || n > len(b) {
			r.Failf("%s: Read returned %d for a buffer of %d", who, n, len(b))
			return out, errors.New("bad count")
		}
		out = append(out, b[:n]...)
		if err != nil {
			return out, err
		}
		if n == 0 {
			if zero++; zero >= 100 {
				r.Failf("%s: 100 reads in a row returned nothing and no error", who)
				return out, errors.New("no progress")
			}
		} else {
			zero = 0
		}
	}
}

// checkRecords judges what one side has read against what the other wrote.
func checkRecords(r *vkit.R, who string, got []byte, s wsSide, seed int, written []int, all bool) {
	next := make([]int, len(s.W))
	rest := got
	for len(rest) > 0 {
		if len(rest) < 9 {
			break
		}
		n := int(binary.LittleEndian.Uint32(rest))
		w := int(rest[4])
		k := int(binary.LittleEndian.Uint32(rest[5:]))
		if w >= len(s.W) || k >= len(s.W[w]) || s.W[w][k] != n {
			r.Failf("%s: the bytes at offset %d are not the start of a write", who, len(got)-len(rest))
			return
		}
		if k != next[w] {
			r.Failf("%s: write %d of writer %d comes where %d is due", who, k, w, next[w])
			return
		}
		want := record(w, k, n, seed)
		have := rest
		if len(have) > len(want) {
			have = have[:len(want)]
		}
		if !bytes.Equal(have, want[:len(have)]) {
			r.Failf("%s: write %d of writer %d (%d bytes) came out changed or mixed with another", who, k, w, len(want))
			return
		}
		if len(rest) < len(want) {
			break
		}
		rest = rest[len(want):]
		next[w]++
	}
	if all {
		if len(rest) > 0 {
			r.Failf("%s: the last %d bytes are part of a write only", who, len(rest))
		}
		for w := range next {
			if next[w] < written[w] {
				r.Failf("%s: writer %d wrote %d times before the close, %d came out", who, w, written[w], next[w])
			}
		}
	}
}

func runWS(r *vkit.R, c wsCase) {
	r.Bubble(func() {
		w := newWS()
		defer w.stop()
		w.net.Plan = func(int) vkit.ConnPlan { return c.Plan }
		var a, b net.Conn
		acc := make(chan net.Conn, 1)
		go func() {
			x, err := w.ln.Accept()
			if err != nil {
				r.Failf("accept: %v", err)
			}
			acc <- x
		}()
		var raw *gws.Conn
		if c.Raw == "" {
			x, err := w.dial()
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			a = x
		} else {
			x, _, err := w.dialer().Dial("ws://fake/ws", nil)
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			raw = x
		}
		b = <-acc
		if b == nil {
			return
		}
		type res struct {
			got []byte
			err error
		}
		ra, rb := make(chan res, 1), make(chan res, 1)
		go func() {
			g, e := readAll(r, "the accepting side", b, c.B.Reads)
			rb <- res{g, e}
		}()
		if raw == nil {
			go func() {
				g, e := readAll(r, "the dialing side", a, c.A.Reads)
				ra <- res{g, e}
			}()
		} else {
			go func() {
				var out []byte
				for {
					_, m, err := raw.ReadMessage()
					out = append(out, m...)
					if err != nil {
						ra <- res{out, err}
						return
					}
				}
			}()
		}
		var mu sync.Mutex
		write := func(who string, s wsSide, seed int, put func([]byte) error) ([]int, *sync.WaitGroup) {
			done := make([]int, len(s.W))
			wg := &sync.WaitGroup{}
			for i := range s.W {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							r.Failf("%s: writing panicked: %v", who, e)
						}
					}()
					for k, n := range s.W[i] {
						rec := record(i, k, n, seed)
						keep := append([]byte(nil), rec...)
						if err := put(rec); err != nil {
							if !c.Reset && c.Close == "" {
								r.Failf("%s: write failed: %v", who, err)
							}
							return
						}
						if !bytes.Equal(rec, keep) {
							r.Failf("%s: the written buffer was changed", who)
						}
						mu.Lock()
						done[i]++
						mu.Unlock()
					}
				}()
			}
			return done, wg
		}
		putB := func(x []byte) error {
			n, err := b.Write(x)
			if err == nil && n != len(x) {
				r.Failf("Write of %d bytes returned %d", len(x), n)
			}
			return err
		}
		putA := func(x []byte) error {
			n, err := a.Write(x)
			if err == nil && n != len(x) {
				r.Failf("Write of %d bytes returned %d", len(x), n)
			}
			return err
		}
		if raw != nil {
			var rmu sync.Mutex
			putA = func(x []byte) error {
				rmu.Lock()
				defer rmu.Unlock()
				switch c.Raw {
				case "text":
					return raw.WriteMessage(gws.TextMessage, x)
				case "empty":
					for i := 0; i < 120; i++ {
						raw.WriteMessage(gws.BinaryMessage, nil)
					}
				case "ping":
					raw.WriteControl(gws.PingMessage, []byte("p"), time.Now().Add(time.Hour))
				case "frag":
					wr, err := raw.NextWriter(gws.BinaryMessage)
					if err != nil {
						return err
					}
					for len(x) > 0 {
						n := 1 + len(x)/3
						wr.Write(x[:n])
						x = x[n:]
					}
					return wr.Close()
				}
				return raw.WriteMessage(gws.BinaryMessage, x)
			}
		}
		da, wga := write("the dialing side", c.A, 7, putA)
		db, wgb := write("the accepting side", c.B, 9000, putB)
		closeA := func() {
			if raw != nil {
				raw.Close()
			} else {
				a.Close()
			}
		}
		total := 0
		for _, s := range []wsSide{c.A, c.B} {
			for _, x := range s.W {
				total += len(x)
			}
		}
		if len(c.A.W) > 1 || len(c.B.W) > 1 {
			r.NonTrivial()
		}
		r.Class("raw=%s close=%s reset=%v", c.Raw, c.Close, c.Reset)
		switch {
		case c.Reset:
			w.net.Conns[0].Reset()
		case c.Close == "a":
			wga.Wait()
			closeA()
		case c.Close == "b":
			wgb.Wait()
			b.Close()
		default:
			wga.Wait()
			wgb.Wait()
			synctest.Wait()
			closeA()
		}
		get := func(ch chan res, who string) *res {
			select {
			case x := <-ch:
				return &x
			case <-time.After(time.Hour):
				r.Failf("%s: Read does not return after the connection was closed", who)
				return nil
			}
		}
		xb := get(rb, "the accepting side")
		xa := get(ra, "the dialing side")
		if xa == nil || xb == nil {
			closeA()
			b.Close()
			return
		}
		closeA()
		b.Close()
		wga.Wait()
		wgb.Wait()
		if xb.err == nil || xa.err == nil {
			r.Failf("no error after the close")
		}
		checkRecords(r, "the accepting side", xb.got, c.A, 7, da, !c.Reset && c.Close != "b")
		checkRecords(r, "the dialing side", xa.got, c.B, 9000, db, !c.Reset && c.Close != "a")
	})
}

// ---- listener ----

type wsLop struct {
	K string // dial, accept, close, race, burst, drain, bad
	N int
}

func genWSL(rt *rapid.T) []wsLop {
	var ops []wsLop
	for i := vkit.Int(rt, 1, 12, "ops"); i > 0; i-- {
		ops = append(ops, wsLop{K: vkit.Pick(rt, "k", "dial", "dial", "dial", "accept", "accept", "close", "race", "burst", "drain", "drain", "bad"), N: vkit.Int(rt, 1, 4, "n")})
	}
	return ops
}

func runWSL(r *vkit.R, ops []wsLop) {
	r.Bubble(func() {
		w := newWS()
		defer w.stop()
		var mu sync.Mutex
		var dialed []net.Conn
		var accepted []net.Conn
		refused := 0
		closed := false
		var accErrs []error
		waiting := 0
		accept := func() {
			mu.Lock()
			waiting++
			mu.Unlock()
			c, err := w.ln.Accept()
			mu.Lock()
			defer mu.Unlock()
			waiting--
			if err != nil {
				if !closed {
					r.Failf("Accept failed on an open listener: %v", err)
				}
				accErrs = append(accErrs, err)
				return
			}
			accepted = append(accepted, c)
		}
		dial := func() {
			c, err := w.dial()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if !closed {
					r.Failf("dial failed on an open listener: %v", err)
				}
				refused++
				return
			}
			dialed = append(dialed, c)
		}
		doClose := func() {
			mu.Lock()
			closed = true
			mu.Unlock()
			if err := w.ln.Close(); err != nil {
				r.Failf("Close: %v", err)
			}
		}
		for _, o := range ops {
			switch o.K {
			case "dial":
				for i := 0; i < o.N; i++ {
					dial()
				}
			case "accept":
				for i := 0; i < o.N; i++ {
					go accept()
				}
			case "burst":
				for i := 0; i < 8*o.N; i++ {
					go dial()
				}
				r.Class("burst closed=%v", closed)
			case "drain":
				// whatever waits is accepted, however late
				time.Sleep(time.Duration(o.N) * 20 * time.Second)
				if closed {
					break
				}
				mu.Lock()
				k := len(dialed) - len(accepted)
				idle := waiting
				mu.Unlock()
				for i := 0; i < k; i++ {
					go accept()
				}
				synctest.Wait()
				mu.Lock()
				if len(accepted) != len(dialed) {
					r.Failf("%d connections were made, Accept handed out %d", len(dialed), len(accepted))
				}
				if waiting > idle {
					r.Failf("%d Accept calls wait although as many connections are there", waiting-idle)
				}
				for i, c := range accepted {
					if _, err := c.Write(nil); err != nil {
						r.Failf("accepted connection %d is dead: %v", i, err)
					}
				}
				mu.Unlock()
				if k > 0 {
					r.Class("drained")
				}
			case "bad":
				// requests that are no upgrade
				for i := 0; i < o.N; i++ {
					c := w.net.DialConn()
					if c == nil {
						break
					}
					fmt.Fprintf(c, "%s", []string{
						"GET /ws HTTP/1.1\r\nHost: fake\r\n\r\n",
						"POST /ws HTTP/1.1\r\nHost: fake\r\nContent-Length: 3\r\n\r\nabc",
						"GET /ws HTTP/1.1\r\nHost: fake\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 12\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n",
						"GET /other HTTP/1.1\r\nHost: fake\r\n\r\n",
					}[i%4])
					b := make([]byte, 12)
					if _, err := io.ReadFull(c, b); err != nil || b[9] != '4' {
						r.Failf("a request that is no upgrade was answered with %q, %v", b, err)
					}
					c.Close()
				}
				r.Class("not an upgrade")
			case "close":
				doClose()
			case "race":
				// dials and accepts at the moment of the close
				for i := 0; i < o.N; i++ {
					go dial()
					go accept()
				}
				if o.N%2 == 0 {
					go doClose()
				}
			}
			synctest.Wait()
		}
		wasClosed := closed
		before := len(accepted)
		if !wasClosed {
			doClose()
			synctest.Wait()
		}
		if len(accepted) != before {
			r.Failf("Accept handed out a connection after the close")
		}
		// from now on: nothing is accepted
		go accept()
		go dial()
		synctest.Wait()
		time.Sleep(time.Minute)
		synctest.Wait()
		if len(accepted) != before {
			r.Failf("Accept handed out a connection after the listener was closed")
		}
		if waiting > 0 {
			r.Failf("%d Accept calls still wait after the listener was closed", waiting)
		}
		if len(accepted) > 0 && refused+len(dialed) > len(accepted) {
			r.NonTrivial()
		}
		// every connection that was made is either in the hands of the acceptor
		// or closed
		for _, c := range accepted {
			go c.Write([]byte("hello"))
		}
		synctest.Wait()
		open := 0
		for i, c := range dialed {
			type res struct {
				s   string
				err error
			}
			ch := make(chan res, 1)
			go func() {
				b := make([]byte, 5)
				_, err := io.ReadFull(c, b)
				ch <- res{string(b), err}
			}()
			select {
			case x := <-ch:
				if x.err == nil {
					open++
					if x.s != "hello" {
						r.Failf("connection %d: read %q", i, x.s)
					}
				}
			case <-time.After(time.Minute):
				r.Failf("connection %d is open but nobody will ever accept it: the listener is closed", i)
			}
		}
		if open != len(accepted) && !r.Failed() {
			r.Failf("%d connections accepted, %d of the dialed ones work", len(accepted), open)
		}
		r.Class("accepted=%d", len(accepted))
		for _, c := range dialed {
			c.Close()
		}
		for _, c := range accepted {
			c.Close()
		}
	})
}

// ---- deadlines ----

type wsDL struct {
	K string // both, read, write
	D int    // s from the beginning; 0: none
}

type wsDLCase struct {
	Dial   bool // which side
	Sets   []wsDL
	Data   int // s: something arrives then; 0: nothing
	Stall  bool
	During bool // the last set happens while the read waits
}

func genWSDL(rt *rapid.T) wsDLCase {
	c := wsDLCase{Dial: vkit.Bool(rt, "dial"), Stall: vkit.Bool(rt, "stall"), During: vkit.Bool(rt, "during")}
	for i := vkit.Int(rt, 1, 4, "sets"); i > 0; i-- {
		c.Sets = append(c.Sets, wsDL{K: vkit.Pick(rt, "k", "both", "both", "read", "write"), D: vkit.Pick(rt, "d", 0, 5, 10, 20, 40)})
	}
	if vkit.Bool(rt, "data") {
		c.Data = vkit.Pick(rt, "at", 3, 8, 15, 30, 50)
	}
	return c
}

func runWSDL(r *vkit.R, c wsDLCase) {
	r.Bubble(func() {
		w := newWS()
		defer w.stop()
		acc := make(chan net.Conn, 1)
		go func() { x, _ := w.ln.Accept(); acc <- x }()
		a, err := w.dial()
		if err != nil {
			r.Failf("dial: %v", err)
			return
		}
		b := <-acc
		x, y := a, b
		below := w.net.Conns[0]
		if !c.Dial {
			x, y = b, a
			below = below.Other()
		}
		start := time.Now()
		var rd, wd int
		set := func(d wsDL) {
			t := time.Time{}
			if d.D > 0 {
				t = start.Add(time.Duration(d.D) * time.Second)
			}
			var err error
			switch d.K {
			case "both":
				err = x.SetDeadline(t)
				rd, wd = d.D, d.D
			case "read":
				err = x.SetReadDeadline(t)
				rd = d.D
			case "write":
				err = x.SetWriteDeadline(t)
				wd = d.D
			}
			if err != nil {
				r.Failf("setting a deadline: %v", err)
			}
		}
		sets := c.Sets
		var last *wsDL
		if c.During && sets[len(sets)-1].K == "read" {
			last = &sets[len(sets)-1]
			sets = sets[:len(sets)-1]
		}
		for _, d := range sets {
			set(d)
		}
		below.StallWrites(c.Stall)
		type res struct {
			n   int
			err error
			at  time.Duration
		}
		rch, wch := make(chan res, 1), make(chan res, 1)
		go func() {
			n, err := x.Read(make([]byte, 10))
			rch <- res{n, err, time.Since(start)}
		}()
		go func() {
			n, err := x.Write([]byte("0123456789"))
			wch <- res{n, err, time.Since(start)}
		}()
		if c.Data > 0 {
			go func() {
				time.Sleep(time.Duration(c.Data) * time.Second)
				y.Write([]byte("hello"))
			}()
		}
		if last != nil {
			time.Sleep(time.Second)
			synctest.Wait()
			set(*last)
			r.Class("while reading")
		}
		time.Sleep(2 * time.Minute)
		synctest.Wait()
		judge := func(what string, ch chan res, dl int, ready int, n int) {
			// ready: when it can succeed, -1 never
			var g *res
			select {
			case x := <-ch:
				g = &x
			default:
			}
			switch {
			case ready >= 0 && (dl == 0 || ready < dl):
				if g == nil || g.err != nil || g.n != n || g.at != time.Duration(ready)*time.Second {
					r.Failf("%s with the deadline at %d s, possible at %d s: %+v", what, dl, ready, g)
				}
				if dl > 0 {
					r.Class("%s before the deadline", what)
				}
			case dl == 0:
				if g != nil {
					r.Failf("%s without a deadline ended: %+v", what, *g)
				}
			default:
				var ne net.Error
				if g == nil {
					r.Failf("%s did not end at its deadline of %d s", what, dl)
				} else if g.err == nil || !errors.As(g.err, &ne) || !ne.Timeout() {
					r.Failf("%s did not end with a timeout but with %v", what, g.err)
				} else if g.at != time.Duration(dl)*time.Second {
					r.Failf("%s with the deadline at %d s ended after %v", what, dl, g.at)
				}
				r.NonTrivial()
				r.Class("%s timed out", what)
			}
		}
		ready := -1
		if c.Data > 0 {
			ready = c.Data
		}
		judge("Read", rch, rd, ready, 5)
		ready = 0
		if c.Stall {
			ready = -1
		}
		judge("Write", wch, wd, ready, 10)
		below.StallWrites(false)
		a.Close()
		b.Close()
	})
}

// ---- RPC ----

type wsRPC struct {
	S, C  vkit.EP
	N     int
	Ops   []vkit.TOp
	Pings []int // which client, at successive moments
	Plan  vkit.ConnPlan
}

func genWSRPC(rt *rapid.T) wsRPC {
	c := wsRPC{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "n")}
	c.Ops = vkit.GenTOps(rt, 12, c.N, 3000, false)
	if c.S.SyncWrite || c.C.SyncWrite {
		// the writing goroutine may be the one that answers: no waiting there
		for i := range c.Ops {
			c.Ops[i].Late = false
		}
	}
	for i := vkit.Int(rt, 0, 6, "pings"); i > 0; i-- {
		c.Pings = append(c.Pings, vkit.Int(rt, 0, 2*c.N-1, "ping"))
	}
	c.Plan = vkit.ConnPlan{Up: vkit.DirPlan{Reads: genReads(rt, "up")}, Down: vkit.DirPlan{Reads: genReads(rt, "down")}}
	return c
}

func genReads(rt *rapid.T, l string) []int {
	if vkit.Bool(rt, l) {
		return nil
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 16, 100, 1000, 0}), 1, 4).Draw(rt, l+".reads")
}

func runWSRPC(r *vkit.R, c wsRPC) {
	r.Bubble(func() {
		w := newWS()
		defer w.stop()
		w.net.Plan = func(int) vkit.ConnPlan { return c.Plan }
		t := vkit.NewTraffic(r, c.Ops, "")
		srv := arpc.NewServer()
		srv.Handler = c.S.NewHandler()
		var mu sync.Mutex
		srv.Handler.HandleConnected(func(x *arpc.Client) {
			mu.Lock()
			t.Srvs = append(t.Srvs, x)
			mu.Unlock()
		})
		t.Setup(srv.Handler, false)
		t.Srv = srv
		done := make(chan error, 1)
		go func() { done <- srv.Serve(w.ln) }()
		for i := 0; i < c.N; i++ {
			h := c.C.NewHandler()
			t.Setup(h, true)
			x, err := arpc.NewClient(w.dial, h)
			if err != nil {
				r.Failf("client: %v", err)
				return
			}
			t.Clis = append(t.Clis, x)
			synctest.Wait()
		}
		if len(t.Srvs) != c.N {
			r.Failf("%d clients connected, the server sees %d", c.N, len(t.Srvs))
			return
		}
		for i, p := range c.Pings {
			go func() {
				time.Sleep(vkit.Us(20 * (i % 5)))
				if p < c.N {
					t.Clis[p].Ping()
				} else {
					t.Srvs[p-c.N].Ping()
				}
			}()
		}
		t.Run(time.Hour)
		synctest.Wait()
		time.Sleep(time.Second)
		synctest.Wait()
		t.Judge()
		if len(c.Ops) > 3 {
			r.NonTrivial()
		}
		for _, x := range t.Clis {
			x.Stop()
		}
		srv.Stop()
		select {
		case <-done:
		case <-time.After(time.Minute):
			r.Failf("Serve does not return after Stop")
		}
	})
}

func init() {
	vkit.Register("C21", "websocket", vkit.Opts{Quick: 6000, Rule: "two or more concurrent writers on a side"}, genWS, runWS)
	vkit.Register("C21", "listener", vkit.Opts{Quick: 6000, Rule: "some connections accepted, others not"}, genWSL, runWSL)
	vkit.Register("C21", "deadline", vkit.Opts{Quick: 3000, Rule: "a read or a write came to its deadline"}, genWSDL, runWSDL)
	vkit.Register("C21", "rpc", vkit.Opts{Quick: 6000, Rule: "four or more operations"}, genWSRPC, runWSRPC)
}

var _ = fmt.Sprint
