package core

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro/redis"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C24: registrations, discoveries and outages against an in-process redis
// server. The server's goroutines live outside the bubble and speak over
// loopback sockets; the fake clock stands still while a command is under way.

// ---- the registry ----

type redisSnap struct {
	// the server does not know the fake time: the listing was made between
	// lo and hi, filled in by the case
	lo, hi time.Time
	kv     map[string]string
}

type fakeRedis struct {
	addr string
	mu   sync.Mutex
	gen  int
	con  map[net.Conn]bool
	hash map[string]string
	mode string // "", refuse, err, lost, garbage, cut, nodel, noset
	// set by the case
	onSet func(field, val string)
	hold  int // hold the next renewal until another command arrives (or a few ms)
	held  chan struct{}
	snaps map[string][]redisSnap // namespace -> successful listings
	cmds  int
}

var (
	redisWant = make(chan struct{}, 1)
	redisGot  = make(chan *fakeRedis)
	theRedis  *fakeRedis

	redisQuiet = make(chan redisQ)
	redisOpen  = make(chan int)
)

type redisQ struct {
	f   *fakeRedis
	n   int
	got chan int
}

func (f *fakeRedis) open() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.con)
}

// quiet waits, in real time, until at most n connections are open.
func (f *fakeRedis) quiet(n int) int {
	redisQuiet <- redisQ{f, n, redisOpen}
	return <-redisOpen
}

func init() {
	// outside of every bubble
	go func() {
		for q := range redisQuiet {
			t := time.Now()
			for q.f.open() > q.n && time.Since(t) < 20*time.Second {
				time.Sleep(50 * time.Microsecond)
			}
			q.got <- q.f.open()
		}
	}()
	go func() {
		<-redisWant
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		f := &fakeRedis{addr: l.Addr().String(), con: map[net.Conn]bool{}}
		redisGot <- f
		for {
			c, err := l.Accept()
			if err != nil {
				panic(err)
			}
			c.(*net.TCPConn).SetLinger(0)
			c.(*net.TCPConn).SetNoDelay(true)
			f.mu.Lock()
			f.con[c] = true
			g := f.gen
			f.mu.Unlock()
			go f.serve(c, g)
		}
	}()
}

func getRedis() *fakeRedis {
	if theRedis == nil {
		redisWant <- struct{}{}
		theRedis = <-redisGot
	}
	return theRedis
}

func (f *fakeRedis) reset() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.gen++
	for c := range f.con {
		c.Close()
	}
	f.hash, f.mode, f.onSet, f.hold, f.held = map[string]string{}, "", nil, 0, nil
	f.snaps, f.cmds = map[string][]redisSnap{}, 0
}

func (f *fakeRedis) setMode(m string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.mode = m
	if m == "refuse" {
		for c := range f.con {
			c.Close()
		}
	}
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (f *fakeRedis) serve(c net.Conn, gen int) {
	defer func() {
		f.mu.Lock()
		delete(f.con, c)
		f.mu.Unlock()
		c.Close()
	}()
	rd := bufio.NewReader(c)
	line := func() (string, error) {
		s, err := rd.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		s, err := line()
		if err != nil || len(s) < 2 || s[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(s[1:])
		args := make([]string, n)
		for i := range args {
			if s, err = line(); err != nil || len(s) < 2 || s[0] != '$' {
				return
			}
			k, _ := strconv.Atoi(s[1:])
			b := make([]byte, k+2)
			if _, err = io.ReadFull(rd, b); err != nil {
				return
			}
			args[i] = string(b[:k])
		}
		f.mu.Lock()
		if f.held != nil {
			close(f.held)
			f.held = nil
		}
		cmd := strings.ToLower(args[0])
		if cmd == "hset" && f.hold > 0 && f.gen == gen {
			f.hold--
			ch := make(chan struct{})
			f.held = ch
			f.mu.Unlock()
			select {
			case <-ch:
				// let the other command overtake
				time.Sleep(200 * time.Microsecond)
			case <-time.After(2 * time.Millisecond):
			}
			f.mu.Lock()
			if f.held == ch {
				f.held = nil
			}
		}
		if f.gen != gen {
			f.mu.Unlock()
			return
		}
		rep, drop := f.do(cmd, args)
		f.mu.Unlock()
		if rep != "" {
			if _, err := io.WriteString(c, rep); err != nil {
				return
			}
		}
		if drop {
			return
		}
	}
}

// do runs a command with the lock held; drop closes the connection.
func (f *fakeRedis) do(cmd string, args []string) (rep string, drop bool) {
	f.cmds++
	switch {
	case f.mode == "refuse":
		return "", true
	case f.mode == "err":
		return "-ERR injected failure\r\n", false
	case f.mode == "nodel" && cmd == "hdel", f.mode == "noset" && (cmd == "hset" || cmd == "hsetnx"), f.mode == "noget" && cmd == "hgetall":
		return "-ERR injected failure\r\n", false
	case f.mode == "garbage" && cmd == "hgetall":
		return ":7\r\n", false
	}
	if len(args) < 2 {
		return "-ERR wrong number of arguments\r\n", false
	}
	key := func(x string) string { return args[1] + "|" + x }
	switch cmd {
	case "hset", "hsetnx":
		if len(args) < 4 || len(args)%2 != 0 {
			return "-ERR wrong number of arguments\r\n", false
		}
		n := 0
		for i := 2; i+1 < len(args); i += 2 {
			_, ok := f.hash[key(args[i])]
			if !ok {
				n++
			}
			if !ok || cmd == "hset" {
				f.hash[key(args[i])] = args[i+1]
			}
			if f.onSet != nil {
				f.onSet(args[i], args[i+1])
			}
		}
		rep = fmt.Sprintf(":%d\r\n", n)
	case "hdel":
		n := 0
		for _, x := range args[2:] {
			if _, ok := f.hash[key(x)]; ok {
				n++
				delete(f.hash, key(x))
			}
		}
		rep = fmt.Sprintf(":%d\r\n", n)
	case "hgetall":
		kv := map[string]string{}
		var ks []string
		for k, v := range f.hash {
			if strings.HasPrefix(k, args[1]+"|") {
				kv[k[len(args[1])+1:]] = v
				ks = append(ks, k[len(args[1])+1:])
			}
		}
		sort.Strings(ks)
		rep = fmt.Sprintf("*%d\r\n", 2*len(ks))
		for _, k := range ks {
			rep += bulk(k) + bulk(kv[k])
		}
		if f.mode == "cut" {
			return rep[:len(rep)/2], true
		}
		if f.mode != "lost" {
			f.snaps[args[1]] = append(f.snaps[args[1]], redisSnap{kv: kv})
		}
	case "ping":
		rep = "+PONG\r\n"
	default:
		return "-ERR unknown command\r\n", false
	}
	if f.mode == "lost" {
		// done, but the answer never arrives
		return "", true
	}
	return rep, false
}

// ---- the case ----

type c24op struct {
	K    string // reg, stop, disc, dstop, raw, bad, mode, sleep
	I    int    // which registration / discovery
	A    int    // address
	W    int
	Int  int // ms
	Exp  int // ms
	D    int // ms
	M    string
	Hold bool // a renewal is under way
}

type c24case struct {
	Phase int // ms of the second at which the case begins
	Ops   []c24op
}

func genC24(rt *rapid.T) c24case {
	c := c24case{Phase: vkit.Int(rt, 0, 999, "phase")}
	c.Ops = append(c.Ops, c24op{K: "disc", Int: vkit.Pick(rt, "dint", 700, 1000, 1500, 3000)})
	out := false
	for i := vkit.Int(rt, 1, 14, "ops"); i > 0; i-- {
		ks := []string{"reg", "reg", "reg", "stop", "stop", "disc", "dstop", "raw", "bad", "mode", "sleep", "sleep", "sleep"}
		o := c24op{K: vkit.Pick(rt, "k", ks...), I: vkit.Int(rt, 0, 3, "i"), A: vkit.Int(rt, 0, 2, "a"), W: vkit.Pick(rt, "w", 0, 1, 1, 2, 3, 5, -1)}
		switch o.K {
		case "reg":
			o.Int = vkit.Pick(rt, "int", 0, 1000, 1500, 2000, 4000)
			o.Exp = vkit.Pick(rt, "exp", 0, 2000, 3000, 5500, 9000)
		case "disc":
			o.Int = vkit.Pick(rt, "dint", 700, 1000, 1500, 3000)
		case "raw":
			o.Exp = vkit.Pick(rt, "rexp", -5000, -1000, 500, 1500, 3000, 6000, 30000)
		case "bad":
			o.M = vkit.Pick(rt, "badk", "x", "svc/addr", "svc/addr/1/2", "", "svc/a0/2=abc", "svc/a1/1=", "svc/a1/1=-5", "svc/a2/3=0", "/=", "a/b=99999999999")
		case "mode":
			if out {
				o.M = ""
			} else {
				o.M = vkit.Pick(rt, "mode", "refuse", "err", "lost", "garbage", "cut", "nodel", "noset", "noget")
			}
			out = !out
		case "sleep":
			o.D = vkit.Pick(rt, "d", 0, 1, 500, 699, 700, 701, 1000, 1500, 2000, 3000, 3001, 4000, 5000, 8000, 12000)
		case "stop":
			o.Hold = vkit.Chance(rt, 30, "hold")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

const (
	c24ns    = "app"
	c24slack = 4 * time.Second
)

// c24entry tells what a registry entry means at time t.
func c24entry(k, v string, t time.Time) (path, weight string, state string) {
	p := strings.Split(k, "/")
	e, err := strconv.ParseInt(v, 10, 64)
	if len(p) != 3 || err != nil || e <= 0 {
		return "", "", "bad"
	}
	if t.Unix() > e {
		return "", "", "expired"
	}
	return c24ns + "/" + p[0] + "/" + p[1], p[2], "ok"
}

type c24disc struct {
	d       *redis.Discovery
	ival    time.Duration
	known   map[string]string
	created time.Time
	stopped bool
	stopAt  time.Time
	events  int // changes after it was stopped (a refresh under way may end)
}

func (d *c24disc) event() {
	if d.stopped && time.Since(d.stopAt) > c24slack {
		d.events++
	}
}

type c24mgr struct {
	r  *vkit.R
	mu *sync.Mutex
	d  *c24disc
	id int
}

func (m *c24mgr) AddServiceNodes(path string, value string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.d.event()
	// like the real manager, a known node is not added again
	if _, ok := m.d.known[path]; !ok {
		m.d.known[path] = value
	}
}

func (m *c24mgr) DeleteServiceNodes(path string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.d.event()
	delete(m.d.known, path)
}

func (m *c24mgr) ClientBy(string) (*arpc.Client, error) { return nil, fmt.Errorf("not used") }

type c24reg struct {
	r        *redis.Register
	field    string
	ival     time.Duration
	exp      time.Duration
	at       time.Time
	stopped  bool
	stopping bool
	failed   bool      // its Stop failed, it may be tried again
	disturb  time.Time // the entry may have been removed by something else then
}

func runC24(r *vkit.R, c c24case) {
	r.LeftOver = true // the redis client of a registration whose removal failed stays open
	f := getRedis()
	r.Bubble(func() {
		time.Sleep(time.Duration(c.Phase) * time.Millisecond)
		f.reset()
		last := time.Now() // time of the last judgement
		var mu sync.Mutex
		var discs []*c24disc
		var regs []*c24reg
		// what an outage keeps from working, and since when it does again
		noList, noSet, noDel := false, false, false
		lists, sets := time.Now().Add(-time.Hour), time.Now().Add(-time.Hour)
		setMode := func(m string) {
			f.setMode(m)
			all := m != "" && m != "nodel" && m != "noset" && m != "noget"
			l, st := noList, noSet
			noList, noSet, noDel = all || m == "noget", all || m == "noset", all || m == "nodel"
			if l || noList {
				lists = time.Now()
			}
			if st || noSet {
				sets = time.Now()
			}
		}
		lastRaw := time.Now().Add(-time.Hour)
		owners := func(field string) (live int) {
			for _, g := range regs {
				if g.field == field && !g.stopped {
					live++
				}
			}
			return
		}
		pendingReg := ""
		f.onSet = func(field, val string) {
			// runs on a goroutine outside the bubble
			mu.Lock()
			defer mu.Unlock()
			if field == pendingReg {
				return
			}
			if owners(field) == 0 {
				r.Failf("entry %q was renewed although its registration has been stopped (or was never made)", field)
			}
		}
		hash := func() map[string]string {
			f.mu.Lock()
			defer f.mu.Unlock()
			kv := map[string]string{}
			for k, v := range f.hash {
				kv[strings.TrimPrefix(k, c24ns+"|")] = v
			}
			return kv
		}
		snaps := func() []redisSnap {
			f.mu.Lock()
			defer f.mu.Unlock()
			sn := f.snaps[c24ns]
			for i := len(sn) - 1; i >= 0 && sn[i].hi.IsZero(); i-- {
				sn[i].lo, sn[i].hi = last, time.Now()
			}
			last = time.Now()
			return sn
		}
		// match: is what d knows what the listing said?
		match := func(d *c24disc, s redisSnap) string {
			want := map[string][]string{}
			sure := map[string]bool{}
			for k, v := range s.kv {
				if p, w, st := c24entry(k, v, s.lo); st == "ok" {
					want[p] = append(want[p], w)
					if _, _, st := c24entry(k, v, s.hi); st == "ok" {
						sure[p] = true
					}
				}
			}
			for p, ws := range want {
				w, ok := d.known[p]
				if !ok && !sure[p] {
					continue
				}
				if !ok {
					return fmt.Sprintf("%s is registered (weights %v) but not known", p, ws)
				}
				found := false
				for _, x := range ws {
					if x == w {
						found = true
					}
				}
				if !found {
					return fmt.Sprintf("%s is known with weight %s, registered with %v", p, w, ws)
				}
			}
			for p := range d.known {
				if _, ok := want[p]; !ok {
					return fmt.Sprintf("%s is known but not registered", p)
				}
			}
			return ""
		}
		judge := func() {
			synctest.Wait()
			now := time.Now()
			mu.Lock()
			defer mu.Unlock()
			sn := snaps()
			for i, d := range discs {
				if d.stopped {
					continue
				}
				// each discovery reflects one of the listings made in its last interval
				why, ok, age := "", false, d.ival+c24slack
				if noList || now.Sub(lists) < age {
					// during an outage the last listing may be old
					age = time.Hour
				}
				n := 0
				for j := len(sn) - 1; j >= 0 && now.Sub(sn[j].hi) <= age; j-- {
					n++
					m := match(d, sn[j])
					if m == "" {
						ok = true
						break
					}
					if why == "" {
						why = m
					}
				}
				if !ok && n == 0 {
					r.Failf("discovery %d has not listed the registry for %v (interval %v)", i, age, d.ival)
				} else if !ok {
					r.Failf("discovery %d after a successful listing: %s (known %v, %d listings)", i, why, d.known, n)
				}
			}
			kv := hash()
			for i, g := range regs {
				if g.stopped || noSet || now.Sub(sets) < 2*g.ival+c24slack {
					continue
				}
				if now.Sub(g.disturb) < 2*g.ival+c24slack {
					continue
				}
				v, ok := kv[g.field]
				if !ok {
					r.Failf("registration %d (%s) is active but has no entry", i, g.field)
					continue
				}
				if _, _, st := c24entry(g.field, v, now); st != "ok" {
					r.Failf("registration %d (%s) is active but its entry is %s (%s, now %d)", i, g.field, st, v, now.Unix())
				}
			}
		}
		sleep := func(d time.Duration) {
			for d > 0 {
				x := 250 * time.Millisecond
				if x > d {
					x = d
				}
				time.Sleep(x)
				d -= x
				judge()
				if r.Failed() {
					return
				}
			}
		}
		regSleep := func(d time.Duration) { sleep(d) }
		outages := 0
		for _, o := range c.Ops {
			switch o.K {
			case "reg":
				w := o.W
				if w <= 0 {
					w = 1
				}
				field := fmt.Sprintf("svc/a%d/%d", o.A, w)
				ival, exp := time.Duration(o.Int)*time.Millisecond, time.Duration(o.Exp)*time.Millisecond
				g := &c24reg{field: field, ival: ival, exp: exp}
				if ival <= 0 {
					g.ival = 5 * time.Second
				}
				if exp <= g.ival {
					g.exp = g.ival + 5*time.Second
				}
				kv := hash()
				mu.Lock()
				pendingReg = field
				g.disturb = time.Now().Add(-time.Hour)
				if v, ok := kv[field]; ok {
					if _, _, st := c24entry(field, v, time.Now()); st != "ok" {
						// a discovery may be about to remove the old entry (until the next renewal)
						g.disturb = time.Now()
					}
				}
				mu.Unlock()
				x, err := redis.NewRegister(f.addr, c24ns, "svc", fmt.Sprintf("a%d", o.A), o.W, ival, exp)
				mu.Lock()
				pendingReg = ""
				mu.Unlock()
				if err != nil {
					if !noSet {
						r.Failf("NewRegister failed although the registry works: %v", err)
					}
					r.Class("register in outage")
					break
				}
				g.r, g.at = x, time.Now()
				mu.Lock()
				regs = append(regs, g)
				mu.Unlock()
				r.Class("register")
			case "stop":
				if len(regs) == 0 {
					break
				}
				g := regs[o.I%len(regs)]
				if g.stopped {
					if !noDel && o.Hold {
						// again
						if err := g.r.Stop(); err != nil {
							r.Failf("a second Register.Stop failed although the registry works: %v", err)
						}
						g.failed = false
						mu.Lock()
						for _, q := range regs {
							if q.field == g.field {
								q.disturb = time.Now()
							}
						}
						mu.Unlock()
						r.Class("stop again")
					}
					break
				}
				if o.Hold {
					// stop at the moment of a renewal
					f.mu.Lock()
					f.hold = 1
					f.mu.Unlock()
					left := g.ival - time.Since(g.at)%g.ival
					regSleep(left - time.Millisecond)
					time.Sleep(time.Millisecond)
					f.mu.Lock()
					f.hold = 0
					f.mu.Unlock()
					r.Class("stop during renewal")
				}
				if r.Failed() {
					break
				}
				err := g.r.Stop()
				mu.Lock()
				g.stopped = true
				for _, q := range regs {
					if q.field == g.field {
						q.disturb = time.Now()
					}
				}
				left := owners(g.field)
				mu.Unlock()
				if err != nil && !noDel {
					r.Failf("Register.Stop failed although the registry works: %v", err)
				}
				if err == nil && left == 0 {
					if _, ok := hash()[g.field]; ok {
						r.Failf("the entry %s is still there after its registration was stopped", g.field)
					}
				}
				g.failed = err != nil
				r.Class("stop ok=%v", err == nil)
				r.NonTrivial()
			case "disc":
				if len(discs) >= 3 {
					break
				}
				d := &c24disc{ival: time.Duration(o.Int) * time.Millisecond, known: map[string]string{}, created: time.Now()}
				x, err := redis.NewDiscovery(f.addr, c24ns, d.ival, &c24mgr{r: r, mu: &mu, d: d, id: len(discs)})
				if err != nil {
					if !noList {
						r.Failf("NewDiscovery failed although the registry works: %v", err)
					}
					r.Class("discovery in outage")
					break
				}
				d.d = x
				mu.Lock()
				discs = append(discs, d)
				mu.Unlock()
			case "dstop":
				if len(discs) < 2 {
					break
				}
				d := discs[o.I%len(discs)]
				if !d.stopped {
					d.d.Stop()
					synctest.Wait()
					mu.Lock()
					d.stopped, d.stopAt = true, time.Now()
					mu.Unlock()
				}
			case "raw":
				w := o.W
				if w <= 0 {
					w = 1
				}
				field := fmt.Sprintf("svc/a%d/%d", o.A, w)
				mu.Lock()
				n := owners(field)
				mu.Unlock()
				if n > 0 {
					break // would replace a live entry
				}
				f.mu.Lock()
				f.hash[c24ns+"|"+field] = fmt.Sprint(time.Now().Add(time.Duration(o.Exp) * time.Millisecond).Unix())
				f.mu.Unlock()
				lastRaw = time.Now()
				r.Class("left-over entry")
				r.NonTrivial()
			case "bad":
				k, v, ok := strings.Cut(o.M, "=")
				if !ok {
					v = fmt.Sprint(time.Now().Unix() + 1000)
				}
				mu.Lock()
				n := owners(k)
				mu.Unlock()
				if n > 0 {
					break
				}
				f.mu.Lock()
				f.hash[c24ns+"|"+k] = v
				f.mu.Unlock()
				lastRaw = time.Now()
				r.Class("malformed entry")
			case "mode":
				setMode(o.M)
				if o.M != "" {
					outages++
					r.Class("outage %s", o.M)
					r.NonTrivial()
				}
			case "sleep":
				sleep(time.Duration(o.D) * time.Millisecond)
			}
			if r.Failed() {
				break
			}
			judge()
		}
		setMode("")
		_ = lastRaw
		if !r.Failed() {
			sleep(15 * time.Second)
		}
		// all stopped: nothing may be left after the leases
		if !r.Failed() {
			kv := hash()
			act := false
			for _, d := range discs {
				act = act || !d.stopped
			}
			for k, v := range kv {
				if _, _, st := c24entry(k, v, time.Now().Add(-6*time.Second)); st != "ok" && act {
					r.Failf("the %s entry %q=%q is still in the registry", st, k, v)
				}
			}
			for _, g := range regs {
				if !g.stopped {
					if err := g.r.Stop(); err != nil {
						r.Failf("Register.Stop failed although the registry works: %v", err)
					}
					mu.Lock()
					g.stopped = true
					mu.Unlock()
				}
			}
			sleep(6 * time.Second)
			for _, d := range discs {
				if d.stopped && d.events > 0 {
					r.Failf("a stopped discovery still changed the services (%d times)", d.events)
				}
			}
		}
		for _, d := range discs {
			again := d.stopped
			if err := d.d.Stop(); err != nil && !r.Failed() {
				r.Failf("Discovery.Stop (stopped before: %v): %v", again, err)
			}
			d.stopped = true
		}
		for _, g := range regs {
			if !g.stopped || g.failed {
				if err := g.r.Stop(); err != nil && !r.Failed() {
					r.Failf("Register.Stop failed although the registry works: %v", err)
				}
			}
		}
		if !r.Failed() {
			if n := f.quiet(0); n > 0 {
				r.Failf("%d connections to the registry are open after everything was stopped", n)
			}
		}
		// the clients' idle connections are closed by their own timers
		f.mu.Lock()
		f.onSet = nil
		f.gen++
		for c := range f.con {
			c.Close()
		}
		f.mu.Unlock()
		time.Sleep(8 * time.Minute)
	})
}

func init() {
	vkit.Register("C24", "registry", vkit.Opts{Quick: 20000, Rule: "a registration stopped, an outage or left-over entries"}, genC24, runC24)
}
