package core

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/lesismal/arpc/extension/listener"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// ---- emfile: a temporary accept error (no descriptor left) only delays connections ----

type c20fd struct {
	Max    int
	Before int // connections before
	N      int // connections that arrive while no descriptor is left
	Ms     int // how long that lasts
	Times  int
}

func genC20fd(rt *rapid.T) c20fd {
	return c20fd{Max: vkit.Pick(rt, "max", 0, 1, 2), Before: vkit.Int(rt, 0, 2, "before"), N: vkit.Int(rt, 1, 4, "n"), Ms: vkit.Pick(rt, "ms", 1, 30, 300, 1500, 2500), Times: vkit.Pick(rt, "times", 1, 1, 2)}
}

func openFds() int {
	top := 2
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if n, err := strconv.Atoi(d.Name()); err == nil && n > top {
			top = n
		}
	}
	return top
}

func runC20fd(r *vkit.R, c c20fd) {
	addr := fmt.Sprintf("@verif-c20fd-%d-%d", os.Getpid(), atomic.AddInt64(&c20n, 1))
	l, err := listener.Listen("unix", addr, c.Max, "")
	if err != nil {
		r.Failf("listen: %v", err)
		return
	}
	a, b := l.Listeners()
	runDone := make(chan struct{})
	go func() { l.Run(); close(runDone) }()
	got := make(chan c20got, 1000)
	for i, x := range []net.Listener{a, b} {
		go func() {
			for {
				cn, err := x.Accept()
				if err != nil {
					return
				}
				got <- c20got{side: i, conn: cn}
			}
		}()
	}
	var socks []int
	var conns []net.Conn
	defer func() {
		l.Close()
		for _, s := range socks {
			syscall.Close(s)
		}
		for _, x := range conns {
			x.Close()
		}
	}()
	total := 0
	expect := func(what string, n int) bool {
		for i := 0; i < n; i++ {
			select {
			case g := <-got:
				conns = append(conns, g.conn)
				total++
			case <-runDone:
				r.Failf("%s: Run ended although the listener is open", what)
				return false
			case <-time.After(c20patience):
				r.Failf("%s: %d of %d connections were never returned by either side", what, n-i, n)
				return false
			}
		}
		return true
	}
	sa := &syscall.SockaddrUnix{Name: addr}
	open := func(n int) bool {
		for i := 0; i < n; i++ {
			s, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
			if err != nil {
				r.Failf("socket: %v", err)
				return false
			}
			socks = append(socks, s)
		}
		return true
	}
	connect := func(n int) bool {
		for _, s := range socks[len(socks)-n:] {
			if err := syscall.Connect(s, sa); err != nil {
				r.Failf("connect: %v", err)
				return false
			}
		}
		return true
	}
	if c.Before > 0 && !(open(c.Before) && connect(c.Before) && expect("before", c.Before)) {
		return
	}
	for k := 0; k < c.Times; k++ {
		if !open(c.N) {
			return
		}
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			return
		}
		low := old
		low.Cur = uint64(openFds()) // the directory listing's own descriptor is gone again
		var plug []int
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
			return
		}
		// fill the holes below the limit
		for {
			fd, err := syscall.Dup(2)
			if err != nil {
				break
			}
			plug = append(plug, fd)
		}
		ok := connect(c.N)
		time.Sleep(time.Duration(c.Ms) * time.Millisecond)
		for _, fd := range plug {
			syscall.Close(fd)
		}
		syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
		if !ok || !expect(fmt.Sprintf("after %d ms without descriptors", c.Ms), c.N) {
			return
		}
		r.NonTrivial()
	}
	r.Class("ms=%d", c.Ms)
}

func init() {
	vkit.Register("C20", "emfile", vkit.Opts{Quick: 48, Thorough: 400, Budget: 20 * time.Second, Rule: "connections arrived while accepting failed for lack of descriptors"}, genC20fd, runC20fd)
}
