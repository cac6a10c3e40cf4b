package wire

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"io"
	"math/big"
	"net"
	"os"
	"sync"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/protocol/quic"
	qgo "github.com/quic-go/quic-go"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C21, QUIC: real UDP on the loopback, real time. Nothing here is judged by
// how long it takes, except that a wait of quicWait means "never".

const quicWait = 15 * time.Second

var (
	quicOnce sync.Once
	quicTLS  *tls.Config
	quicCli  = &tls.Config{InsecureSkipVerify: true, NextProtos: []string{"verif"}}
)

func quicServerTLS() *tls.Config {
	quicOnce.Do(func() {
		os.Setenv("QUIC_GO_DISABLE_RECEIVE_BUFFER_WARNING", "true")
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		tmpl := x509.Certificate{SerialNumber: big.NewInt(1)}
		der, err := x509.CreateCertificate(rand.Reader, &tmpl, &tmpl, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		quicTLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, NextProtos: []string{"verif"}}
	})
	return quicTLS
}

// quicKill releases the QUIC connection below c.
func quicKill(c net.Conn) {
	if k, ok := c.(interface {
		CloseWithError(qgo.ApplicationErrorCode, string) error
	}); ok && c != nil {
		k.CloseWithError(0, "")
	}
}

func within(f func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	select {
	case <-ch:
		return true
	case <-time.After(quicWait):
		return false
	}
}

func quicDial(ln net.Listener) (net.Conn, error) {
	return quic.Dial(ln.Addr().String(), quicCli, nil, quicWait)
}

// ---- byte stream ----

type quicCase struct {
	A, B  wsSide
	Close string // a, b, "": b has everything first; stalled: a stops reading and closes b while b is writing
}

func genQuic(rt *rapid.T) quicCase {
	c := quicCase{A: genWSSide(rt, "a"), B: genWSSide(rt, "b"), Close: vkit.Pick(rt, "close", "a", "b", "")}
	if vkit.Chance(rt, 15, "stalled") {
		c.Close = vkit.Pick(rt, "who", "stalled-a", "stalled-b")
	}
	return c
}

func runQuic(r *vkit.R, c quicCase) {
	ln, err := quic.Listen("127.0.0.1:0", quicServerTLS())
	if err != nil {
		r.Failf("listen: %v", err)
		return
	}
	defer ln.Close()
	type acc struct {
		c   net.Conn
		err error
	}
	ch := make(chan acc, 1)
	go func() {
		x, err := ln.Accept()
		ch <- acc{x, err}
	}()
	a, err := quicDial(ln)
	if err != nil {
		r.Failf("dial: %v", err)
		return
	}
	defer quicKill(a)
	// a QUIC stream exists for the peer once something was written on it
	if n, err := a.Write([]byte{'h'}); n != 1 || err != nil {
		r.Failf("the first write: %d, %v", n, err)
		return
	}
	var b net.Conn
	select {
	case x := <-ch:
		if x.err != nil {
			r.Failf("accept: %v", x.err)
			return
		}
		b = x.c
	case <-time.After(quicWait):
		r.Failf("Accept does not hand out a connection that was made and written to")
		return
	}
	defer quicKill(b)
	one := make([]byte, 1)
	if n, err := b.Read(one); n != 1 || one[0] != 'h' {
		r.Failf("the first read: %d, %v", n, err)
		return
	}
	r.Class("close=%s", c.Close)
	if len(c.A.W) > 1 || len(c.B.W) > 1 {
		r.NonTrivial()
	}
	if c.Close == "stalled-a" || c.Close == "stalled-b" {
		// the peer does not read; the writer is closed while it waits for room
		w := a
		if c.Close == "stalled-b" {
			w = b
		}
		done := make(chan error, 1)
		started := make(chan struct{})
		go func() {
			big := make([]byte, 32<<20)
			close(started)
			_, err := w.Write(big)
			done <- err
		}()
		<-started
		time.Sleep(5 * time.Millisecond)
		rd := make(chan error, 1)
		go func() {
			_, err := w.Read(make([]byte, 10))
			rd <- err
		}()
		if !within(func() { w.Close() }) {
			r.Failf("Close does not return while a Write waits")
			return
		}
		select {
		case err := <-done:
			if err == nil {
				r.Failf("32 MB were written to a peer that does not read")
			}
		case <-time.After(quicWait):
			r.Failf("a Write in progress does not end when its own connection is closed")
		}
		select {
		case err := <-rd:
			if err == nil {
				r.Failf("Read returned no error after Close")
			}
		case <-time.After(quicWait):
			r.Failf("a Read in progress does not end when its own connection is closed")
		}
		return
	}
	type res struct {
		got []byte
		err error
	}
	ra, rb := make(chan res, 1), make(chan res, 1)
	go func() {
		g, e := readAll(r, "the accepting side", b, c.B.Reads)
		rb <- res{g, e}
	}()
	go func() {
		g, e := readAll(r, "the dialing side", a, c.A.Reads)
		ra <- res{g, e}
	}()
	var mu sync.Mutex
	write := func(who string, x net.Conn, s wsSide, seed int) ([]int, *sync.WaitGroup) {
		done := make([]int, len(s.W))
		wg := &sync.WaitGroup{}
		for i := range s.W {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, n := range s.W[i] {
					rec := record(i, k, n, seed)
					keep := append([]byte(nil), rec...)
					n, err := x.Write(rec)
					if err != nil {
						if c.Close == "" {
							r.Failf("%s: write failed: %v", who, err)
						}
						return
					}
					if n != len(rec) {
						r.Failf("Write of %d bytes returned %d", len(rec), n)
					}
					if !bytes.Equal(rec, keep) {
						r.Failf("%s: the written buffer was changed", who)
					}
					mu.Lock()
					done[i]++
					mu.Unlock()
				}
			}()
		}
		return done, wg
	}
	da, wga := write("the dialing side", a, c.A, 7)
	db, wgb := write("the accepting side", b, c.B, 9000)
	switch c.Close {
	case "a":
		wga.Wait()
		a.Close()
	case "b":
		wgb.Wait()
		b.Close()
	default:
		wga.Wait()
		wgb.Wait()
		a.Close()
	}
	get := func(ch chan res, who string) *res {
		select {
		case x := <-ch:
			return &x
		case <-time.After(quicWait):
			r.Failf("%s: Read does not return after the connection was closed", who)
			return nil
		}
	}
	xb := get(rb, "the accepting side")
	xa := get(ra, "the dialing side")
	a.Close()
	b.Close()
	if xa == nil || xb == nil {
		return
	}
	wga.Wait()
	wgb.Wait()
	mu.Lock()
	defer mu.Unlock()
	checkRecords(r, "the accepting side", xb.got, c.A, 7, da, c.Close != "b")
	checkRecords(r, "the dialing side", xa.got, c.B, 9000, db, c.Close == "b")
}

// ---- listener ----

func genQuicL(rt *rapid.T) []string {
	return rapid.SliceOfN(rapid.SampledFrom([]string{"good", "good", "good", "silent", "gone", "streamgone"}), 1, 8).Draw(rt, "ops")
}

func runQuicL(r *vkit.R, ops []string) {
	ln, err := quic.Listen("127.0.0.1:0", quicServerTLS())
	if err != nil {
		r.Failf("listen: %v", err)
		return
	}
	end := make(chan struct{})
	var mu sync.Mutex
	closed := false
	go func() {
		defer close(end)
		for {
			c, err := ln.Accept()
			if err != nil {
				mu.Lock()
				if !closed {
					r.Failf("Accept failed on an open listener: %v", err)
				}
				mu.Unlock()
				return
			}
			go func() {
				io.Copy(c, c)
				c.Close()
			}()
		}
	}()
	var clean []func()
	good, bad := 0, 0
	for i, o := range ops {
		switch o {
		case "good":
			good++
			c, err := quicDial(ln)
			if err != nil {
				r.Failf("client %d: dial: %v", i, err)
				break
			}
			clean = append(clean, func() { quicKill(c) })
			got := make([]byte, 3)
			var e error
			if !within(func() {
				if _, e = c.Write([]byte{1, 2, byte(i)}); e == nil {
					_, e = io.ReadFull(c, got)
				}
			}) {
				r.Failf("client %d connected and wrote, but is not served (after %v)", i, ops[:i])
			} else if e != nil || !bytes.Equal(got, []byte{1, 2, byte(i)}) {
				r.Failf("client %d: echo %v, %v", i, got, e)
			}
		default:
			bad++
			ctx, cancel := context.WithTimeout(context.Background(), quicWait)
			q, err := qgo.DialAddr(ctx, ln.Addr().String(), quicCli, nil)
			cancel()
			if err != nil {
				r.Failf("client %d: dial: %v", i, err)
				break
			}
			switch o {
			case "silent":
				clean = append(clean, func() { q.CloseWithError(0, "") })
			case "gone":
				q.CloseWithError(3, "bye")
			case "streamgone":
				if s, err := q.OpenStreamSync(context.Background()); err == nil {
					s.Write([]byte("x"))
				}
				q.CloseWithError(3, "bye")
			}
			time.Sleep(3 * time.Millisecond)
		}
		if r.Failed() {
			break
		}
	}
	if good > 0 && bad > 0 {
		r.NonTrivial()
	}
	r.Class("good=%d bad=%d", good, bad)
	mu.Lock()
	closed = true
	mu.Unlock()
	ln.Close()
	select {
	case <-end:
	case <-time.After(quicWait):
		r.Failf("Accept does not return after the listener was closed")
	}
	for _, f := range clean {
		f()
	}
}

// ---- RPC ----

type quicRPC struct {
	S, C vkit.EP
	N    int
	Ops  []vkit.TOp
}

func genQuicRPC(rt *rapid.T) quicRPC {
	c := quicRPC{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 2, "n")}
	c.Ops = vkit.GenTOps(rt, 12, c.N, 20000, false)
	for i := range c.Ops {
		c.Ops[i].Late = false // real time
	}
	return c
}

func runQuicRPC(r *vkit.R, c quicRPC) {
	ln, err := quic.Listen("127.0.0.1:0", quicServerTLS())
	if err != nil {
		r.Failf("listen: %v", err)
		return
	}
	t := vkit.NewTraffic(r, c.Ops, "")
	srv := arpc.NewServer()
	srv.Handler = c.S.NewHandler()
	srv.Handler.Handle("/hello", func(x *arpc.Context) {
		t.Srvs = append(t.Srvs, x.Client) // clients come one after the other
		x.Write("hi")
	})
	t.Setup(srv.Handler, false)
	t.Srv = srv
	done := make(chan error, 1)
	go func() { done <- srv.Serve(ln) }()
	var conns []net.Conn
	defer func() {
		for _, x := range conns {
			quicKill(x)
		}
	}()
	for i := 0; i < c.N; i++ {
		h := c.C.NewHandler()
		t.Setup(h, true)
		x, err := arpc.NewClient(func() (net.Conn, error) {
			k, err := quicDial(ln)
			if err == nil {
				conns = append(conns, k)
			}
			return k, err
		}, h)
		if err != nil {
			r.Failf("client: %v", err)
			return
		}
		t.Clis = append(t.Clis, x)
		hi := ""
		if err := x.Call("/hello", "", &hi, quicWait); err != nil || hi != "hi" {
			r.Failf("the first call: %q, %v", hi, err)
			return
		}
	}
	t.Run(quicWait)
	for end := time.Now().Add(quicWait); !t.Settled() && !r.Failed() && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	t.Judge()
	if len(c.Ops) > 3 {
		r.NonTrivial()
	}
	for _, x := range t.Clis {
		x.Stop()
	}
	srv.Stop()
	select {
	case <-done:
	case <-time.After(quicWait):
		r.Failf("Serve does not return after Stop")
	}
}

func init() {
	vkit.Register("C21", "quic", vkit.Opts{Quick: 400, Thorough: 8000, Rule: "two or more concurrent writers on a side"}, genQuic, runQuic)
	vkit.Register("C21", "quic-listener", vkit.Opts{Quick: 160, Thorough: 3000, Rule: "well-behaved clients next to ones that never open a stream"}, genQuicL, runQuicL)
	vkit.Register("C21", "quic-rpc", vkit.Opts{Quick: 400, Thorough: 8000, Rule: "four or more operations"}, genQuicRPC, runQuicRPC)
}
