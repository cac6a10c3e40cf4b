package core

import (
	"encoding/binary"
	"fmt"
	"io"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"

	"verif/harness/vkit"
)

func TestVerif(t *testing.T) { vkit.Main(t) }

// long is a fake time far beyond anything a case does
func long() time.Duration { return vkit.Tail(time.Hour) }

// server is an arpc server on an in-memory network.
type server struct {
	net  *vkit.Net
	srv  *arpc.Server
	done chan error

	mu      sync.Mutex
	clients []*arpc.Client // in order of connection
}

func newServer(ep vkit.EP, setup func(h arpc.Handler)) *server {
	w := &server{net: vkit.NewNet("s"), srv: arpc.NewServer(), done: make(chan error, 1)}
	w.srv.Handler = ep.NewHandler()
	w.srv.Handler.SetLogTag("[S]")
	w.srv.Handler.HandleConnected(func(c *arpc.Client) {
		w.mu.Lock()
		w.clients = append(w.clients, c)
		w.mu.Unlock()
	})
	if setup != nil {
		setup(w.srv.Handler)
	}
	return w
}

func (w *server) start() *server {
	go func() { w.done <- w.srv.Serve(w.net) }()
	synctest.Wait()
	return w
}

func (w *server) client(i int) *arpc.Client {
	w.mu.Lock()
	defer w.mu.Unlock()
	if i < len(w.clients) {
		return w.clients[i]
	}
	return nil
}

func (w *server) stop() {
	w.srv.Stop()
	synctest.Wait()
	w.mu.Lock()
	cs := append([]*arpc.Client(nil), w.clients...)
	w.mu.Unlock()
	for _, c := range cs {
		c.Stop()
	}
	synctest.Wait()
}

// dial makes an arpc client on n.
func dial(n *vkit.Net, ep vkit.EP, setup func(h arpc.Handler)) (*arpc.Client, error) {
	h := ep.NewHandler()
	if setup != nil {
		setup(h)
	}
	return arpc.NewClient(n.Dial, h)
}

// endpoint is an arpc client (dialed, or accepted by a server) whose peer is
// the test itself, holding the raw end of the connection.
type endpoint struct {
	cli  *arpc.Client
	raw  *vkit.Conn // the test's end
	own  *vkit.Conn // the library's end
	srv  *server
	net  *vkit.Net
	accs chan *vkit.Conn // further connections of a dialed endpoint
}

// newEndpoint makes an endpoint with role "dial" or "accept". The plan's Up
// direction always means library -> test.
func newEndpoint(role string, ep vkit.EP, plan vkit.ConnPlan, setup func(h arpc.Handler)) *endpoint {
	e := &endpoint{}
	if role == "accept" {
		e.srv = newServer(ep, setup)
		got := make(chan *arpc.Client, 1)
		prev := e.srv.srv.Handler
		prev.HandleConnected(func(c *arpc.Client) { got <- c })
		e.srv.start()
		e.srv.net.Plan = func(int) vkit.ConnPlan { return vkit.ConnPlan{Up: plan.Down, Down: plan.Up} }
		e.raw = e.srv.net.DialConn()
		e.own = e.raw.Other()
		e.cli = <-got
		e.net = e.srv.net
		return e
	}
	n := vkit.NewNet("raw")
	e.net = n
	n.Plan = func(i int) vkit.ConnPlan {
		if i == 0 {
			return plan
		}
		return vkit.ConnPlan{}
	}
	c, err := dial(n, ep, setup)
	if err != nil {
		panic(err)
	}
	e.cli = c
	e.own = n.Conns[0]
	e.raw = e.own.Other()
	synctest.Wait()
	return e
}

func (e *endpoint) stop() {
	e.cli.Stop()
	if e.srv != nil {
		e.srv.stop()
	} else {
		e.net.Close()
	}
	e.raw.Close()
	synctest.Wait()
}

func isStopErr(err error) bool {
	return err == arpc.ErrClientReconnecting || err == arpc.ErrClientStopped
}

func us(n int) time.Duration { return vkit.Us(n) }

// waitOr waits for wg in fake time.
func waitOr(wg *sync.WaitGroup, d time.Duration) bool {
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

// readRawFrame reads the bytes of one frame, trusting only the length.
func readRawFrame(c *vkit.Conn) ([]byte, error) {
	b := make([]byte, 16)
	if _, err := io.ReadFull(c, b); err != nil {
		return nil, err
	}
	n := int(binary.LittleEndian.Uint32(b))
	if n < 0 || n > 1<<28 {
		return nil, fmt.Errorf("absurd body length %d", n)
	}
	b = append(b, make([]byte, n)...)
	_, err := io.ReadFull(c, b[16:])
	return b, err
}
