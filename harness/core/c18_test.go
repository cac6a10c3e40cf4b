package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C18 and C19: publish/subscribe against a model of the subscriptions. A case
// is a sequence of slots; the operations of a slot run concurrently, and the
// system is quiet between slots, so that the model knows the subscriptions
// exactly except for what changes within the very slot.

type psOp struct {
	Slot, At int
	K        string // sub, unsub, pub, one, spub, sone, drop, stop, auth, restart
	C, T     int
	VK       string `json:",omitempty"` // bytes, str, pbytes, obj, nil
	N        int    `json:",omitempty"`
	Mut      bool   `json:",omitempty"`
}

// psAct is done by the callback of topic T on client C, the first time.
type psAct struct {
	C, T int
	K    string // sub, unsub, pub, one, spub, panic
	T2   int
	Go   bool `json:",omitempty"`
}

type psCase struct {
	Pw     string
	S, C   vkit.EP
	N      int
	OnPub  []bool // client uses the catch-all callback
	Topics []string
	Ops    []psOp
	Acts   []psAct         `json:",omitempty"`
	Plans  []vkit.ConnPlan `json:",omitempty"`
	Poison bool            `json:",omitempty"`
	Small  int             `json:",omitempty"`
	Big    int             `json:",omitempty"`
	// a new connection's first Refuse subscribe requests are answered with an error
	Refuse int `json:",omitempty"`
}

func psTopics(rt *rapid.T, n int) []string {
	var ts []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		s := vkit.Pick(rt, "topic", "a", "b", "aa", "topic", "topic/1", "\x00", "ünï", strings.Repeat("n", 255), strings.Repeat("m", 256), strings.Repeat("x", 1023), strings.Repeat("y", 1024))
		if seen[s] {
			s = fmt.Sprintf("t%d", i)
		}
		seen[s] = true
		ts = append(ts, s)
	}
	return ts
}

func genPS(rt *rapid.T, kind string) psCase {
	c := psCase{Pw: vkit.Pick(rt, "pw", "", "p", "pässwörd", strings.Repeat("q", 300)), S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 4, "clients")}
	if kind == "pool" {
		c.S.Pool = vkit.Chance(rt, 80, "spool")
		c.C.Pool = vkit.Chance(rt, 60, "cpool")
		c.Poison = vkit.Bool(rt, "poison")
		c.Small, c.Big = vkit.Pick(rt, "small", 64, 64, 16, 1), vkit.Pick(rt, "big", 64, 64, 128, 1024)
	}
	if vkit.Chance(rt, 40, "coded") {
		c.S.Coders = c16coders[vkit.Int(rt, 0, len(c16coders)-1, "coders")]
		c.C.Coders = c.S.Coders
	}
	nt := vkit.Int(rt, 1, 3, "topics")
	c.Topics = psTopics(rt, nt)
	for i := 0; i < c.N; i++ {
		c.OnPub = append(c.OnPub, vkit.Chance(rt, 20, "onpub"))
	}
	kinds := []string{"sub", "sub", "sub", "unsub", "pub", "pub", "pub", "spub", "spub", "one", "sone", "auth", "stop"}
	if kind == "reconnect" {
		kinds = []string{"sub", "sub", "sub", "unsub", "pub", "pub", "spub", "sone", "one", "drop", "drop", "drop", "auth", "auth", "stop", "restart"}
	}
	if kind == "reconnect" && vkit.Chance(rt, 25, "refusing") {
		c.Refuse = vkit.Int(rt, 1, 3, "refuse")
	}
	slots := vkit.Int(rt, 1, 7, "slots")
	for s := 0; s < slots; s++ {
		for i := vkit.Int(rt, 1, 5, "ops"); i > 0; i-- {
			o := psOp{Slot: s, At: vkit.Pick(rt, "at", 0, 0, 0, 1, 3), K: vkit.Pick(rt, "k", kinds...), C: vkit.Int(rt, 0, c.N-1, "client"), T: vkit.Int(rt, 0, nt-1, "t")}
			switch o.K {
			case "pub", "one", "spub", "sone":
				o.VK = vkit.Pick(rt, "vk", "bytes", "bytes", "str", "pbytes", "obj", "nil")
				o.N = vkit.Size(rt, 3000, "n")
				o.Mut = vkit.Chance(rt, 50, "mut")
			}
			c.Ops = append(c.Ops, o)
		}
	}
	if vkit.Chance(rt, 40, "acts") {
		for i := vkit.Int(rt, 1, 3, "nacts"); i > 0; i-- {
			a := psAct{C: vkit.Int(rt, 0, c.N-1, "ac"), T: vkit.Int(rt, 0, nt-1, "at"), K: vkit.Pick(rt, "ak", "sub", "unsub", "pub", "one", "spub", "panic"), T2: vkit.Int(rt, 0, nt-1, "at2"), Go: vkit.Chance(rt, 25, "ago")}
			if a.T2 == a.T && (a.K == "pub" || a.K == "one" || a.K == "spub") && vkit.Bool(rt, "other") {
				a.T2 = (a.T + 1) % nt
			}
			if c.C.SyncResp {
				a.Go = true // a synchronous handler cannot wait for an answer
			}
			c.Acts = append(c.Acts, a)
		}
	} else if !c.S.SyncWrite && !c.C.SyncWrite {
		for i := 0; i < c.N; i++ {
			p := vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
			c.Plans = append(c.Plans, p)
		}
	}
	return c
}

type psPub struct {
	id     int
	from   int // -1: the server
	topic  int
	one    bool
	slot   int
	wire   []byte
	t0, t1 time.Time
	err    error
	ts     map[int64]int
	got    []int // per client
}

type psEvent struct {
	slot, c, t int
	k          string
	err        error
}

type psWorld struct {
	r    *vkit.R
	c    psCase
	mu   sync.Mutex
	net  *vkit.Net
	srv  *pubsub.Server
	clis []*pubsub.Client
	conn []*vkit.Conn // current connection of each client
	pubs []*psPub
	evs  []psEvent
	acts []bool // done
	slot int
	nilP bool
	busy int // operations under way
	// what a publication in progress to client i must find
	late string
}

func (w *psWorld) dial(i int) (net.Conn, error) {
	w.mu.Lock()
	n := w.net
	again := w.conn[i] != nil
	w.mu.Unlock()
	if again {
		time.Sleep(us(1))
	}
	c, err := n.Dial()
	if err != nil {
		return nil, err
	}
	w.mu.Lock()
	w.conn[i] = c.(*vkit.Conn)
	w.mu.Unlock()
	return c, nil
}

func (w *psWorld) spawn(f func()) {
	w.mu.Lock()
	w.busy++
	w.mu.Unlock()
	go func() {
		f()
		w.mu.Lock()
		w.busy--
		w.mu.Unlock()
	}()
}

func (w *psWorld) active() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.busy > 0 }

func (w *psWorld) startServer() {
	s := pubsub.NewServer()
	s.Password = w.c.Pw
	if w.c.Refuse > 0 {
		// in front of the other coders: decodes last
		s.Handler.UseCoder(&psRefuse{w: w, conns: map[*arpc.Client]*[2]int{}})
	}
	w.c.S.Apply(s.Handler)
	n := vkit.NewNet("ps")
	n.Plan = func(i int) vkit.ConnPlan {
		if len(w.c.Plans) == 0 {
			return vkit.ConnPlan{}
		}
		return w.c.Plans[i%len(w.c.Plans)]
	}
	w.mu.Lock()
	w.net, w.srv = n, s
	w.mu.Unlock()
	go s.Serve(n)
}

// psRefuse spoils the first subscribe requests of a connection made after the
// beginning, so that the server refuses them.
type psRefuse struct {
	w     *psWorld
	mu    sync.Mutex
	conns map[*arpc.Client]*[2]int // slot of the first message, requests refused
}

func (c *psRefuse) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message { return m }

func (c *psRefuse) Decode(cl *arpc.Client, m *arpc.Message) *arpc.Message {
	c.w.mu.Lock()
	slot := c.w.slot
	c.w.mu.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	x := c.conns[cl]
	if x == nil {
		x = &[2]int{slot, 0}
		c.conns[cl] = x
	}
	if m.Cmd() != arpc.CmdRequest || m.Method() != "in_S" || slot < 0 || x[0] != slot || x[1] >= c.w.c.Refuse {
		return m
	}
	x[1]++
	c.w.r.Class("resubscribe-refused")
	b := m.Buffer
	for i := len(b) - 10; i < len(b); i++ {
		b[i] = 0
	}
	return m
}

type psObj struct {
	ID int
	S  []byte
}

// payload makes the value of a new publication; check tells afterwards whether
// the library touched the caller's memory.
func (w *psWorld) payload(p *psPub, vk string, n int) (v interface{}, check func() bool) {
	head := fmt.Sprintf("%d|", p.id)
	body := append([]byte(head), vkit.Blob{N: n, S: p.id}.Bytes()...)
	none := func() bool { return true }
	if vk == "nil" {
		dup := w.nilP
		w.nilP = true
		if !dup {
			p.wire = nil
			return nil, none
		}
		vk = "str"
	}
	p.wire = body
	switch vk {
	case "str":
		return string(body), none
	case "obj":
		o := &psObj{ID: p.id, S: body}
		p.wire, _ = json.Marshal(o)
		return o, none
	}
	// spare capacity that belongs to the caller
	buf := make([]byte, len(body)+1500)
	copy(buf, body)
	for i := len(body); i < len(buf); i++ {
		buf[i] = 0x5A
	}
	orig := append([]byte(nil), buf...)
	b := buf[:len(body)]
	check = func() bool { return bytes.Equal(buf, orig) }
	if vk == "pbytes" {
		return &b, check
	}
	return b, check
}

func (w *psWorld) publish(from, topic int, one bool, vk string, n int, mut bool) {
	w.mu.Lock()
	p := &psPub{id: len(w.pubs), from: from, topic: topic, one: one, slot: w.slot, got: make([]int, w.c.N), ts: map[int64]int{}, t0: time.Now()}
	w.pubs = append(w.pubs, p)
	srv := w.srv
	v, check := w.payload(p, vk, n)
	w.mu.Unlock()
	name := w.c.Topics[topic]
	var err error
	switch {
	case from < 0 && one:
		err = srv.PublishToOne(name, v)
	case from < 0:
		err = srv.Publish(name, v)
	case one:
		err = w.clis[from].PublishToOne(name, v, long())
	default:
		err = w.clis[from].Publish(name, v, long())
	}
	if !check() {
		w.r.Failf("publication %d changed the caller's memory", p.id)
	}
	if mut {
		vkit.Scramble(v)
	}
	w.mu.Lock()
	p.err = err
	p.t1 = time.Now()
	w.mu.Unlock()
}

func (w *psWorld) subscribe(i, t int, act bool) {
	w.mu.Lock()
	slot := w.slot
	w.mu.Unlock()
	h := w.onTopic(i)
	if w.c.OnPub[i] {
		h = func(*pubsub.Topic) {
			w.r.Failf("client %d: the topic's own callback ran although a catch-all is set", i)
		}
	}
	err := w.clis[i].Subscribe(w.c.Topics[t], h, long())
	w.mu.Lock()
	w.evs = append(w.evs, psEvent{slot, i, t, "sub", err})
	w.mu.Unlock()
}

func (w *psWorld) unsubscribe(i, t int) {
	w.mu.Lock()
	slot := w.slot
	w.mu.Unlock()
	err := w.clis[i].Unsubscribe(w.c.Topics[t], long())
	w.mu.Lock()
	w.evs = append(w.evs, psEvent{slot, i, t, "unsub", err})
	w.mu.Unlock()
}

func (w *psWorld) onTopic(i int) pubsub.TopicHandler {
	return func(tp *pubsub.Topic) {
		data := append([]byte(nil), tp.Data...)
		w.mu.Lock()
		var p *psPub
		for _, q := range w.pubs {
			if bytes.Equal(q.wire, data) {
				p = q
			}
		}
		if p == nil {
			w.mu.Unlock()
			w.r.Failf("client %d: got data nobody published, topic %q: %s", i, tp.Name, vkit.Short(string(data)))
			return
		}
		if tp.Name != w.c.Topics[p.topic] {
			w.mu.Unlock()
			w.r.Failf("client %d: publication %d has topic %s, want %s", i, p.id, vkit.Short(tp.Name), vkit.Short(w.c.Topics[p.topic]))
			return
		}
		p.got[i]++
		p.ts[tp.Timestamp]++
		if p.slot != w.slot {
			w.late = fmt.Sprintf("publication %d of slot %d reached client %d in slot %d", p.id, p.slot, i, w.slot)
		}
		var todo []psAct
		for k, a := range w.c.Acts {
			if a.C == i && a.T == p.topic && !w.acts[k] {
				w.acts[k] = true
				todo = append(todo, a)
			}
		}
		w.mu.Unlock()
		var boom bool
		for _, a := range todo {
			if a.K == "panic" {
				boom = true
				continue
			}
			w.r.Class("act-%s", a.K)
			do := func() {
				switch a.K {
				case "sub":
					w.subscribe(i, a.T2, true)
				case "unsub":
					w.unsubscribe(i, a.T2)
				case "pub", "one":
					w.publish(i, a.T2, a.K == "one", "bytes", 10, true)
				case "spub":
					w.publish(-1, a.T2, false, "bytes", 10, true)
				}
			}
			if a.Go {
				w.spawn(do)
			} else {
				do()
			}
		}
		if boom {
			panic("a callback's panic")
		}
	}
}

func runPS(r *vkit.R, c psCase) {
	r.Bubble(func() {
		var poison *vkit.Poison
		if c.Poison {
			poison = vkit.NewPoison()
			arpc.DefaultAllocator = poison
		} else if c.Big > 0 {
			arpc.DefaultAllocator = arpc.New(c.Small, c.Big)
		}
		w := &psWorld{r: r, c: c, conn: make([]*vkit.Conn, c.N), acts: make([]bool, len(c.Acts)), slot: -1}
		w.startServer()
		synctest.Wait()
		for i := 0; i < c.N; i++ {
			cl, err := pubsub.NewClient(func() (net.Conn, error) { return w.dial(i) }, c.C.NewHandler())
			if err != nil {
				r.Failf("new client: %v", err)
				return
			}
			cl.Password = c.Pw
			if c.OnPub[i] {
				cl.OnPublish(w.onTopic(i))
			}
			w.clis = append(w.clis, cl)
			if err := cl.Authenticate(); err != nil {
				r.Failf("client %d: authentication with the right password failed: %v", i, err)
				return
			}
		}
		settle := func() { time.Sleep(us(1000000) + 3*time.Minute); synctest.Wait() }
		settle()
		time.Sleep(789) // no round instant
		slots := 0
		for _, o := range c.Ops {
			slots = max(slots, o.Slot+1)
		}
		stopped := make([]bool, c.N)
		// upset[slot][client]: the client's connection was touched in that slot
		upset := make([][]bool, slots)
		for s := 0; s < slots; s++ {
			upset[s] = make([]bool, c.N)
			for _, o := range c.Ops {
				if o.Slot != s {
					continue
				}
				switch o.K {
				case "drop", "stop":
					upset[s][o.C] = true
				case "restart":
					for i := range upset[s] {
						upset[s][i] = true
					}
				}
			}
		}
		for s := 0; s < slots && !r.Failed(); s++ {
			w.mu.Lock()
			w.slot = s
			w.mu.Unlock()
			start := time.Now()
			restarts := 0
			for _, o := range c.Ops {
				if o.Slot != s {
					continue
				}
				if o.K == "restart" {
					if restarts++; restarts > 1 {
						continue
					}
				}
				if stopped[o.C] && o.K != "spub" && o.K != "sone" && o.K != "restart" {
					continue
				}
				w.spawn(func() {
					if o.At > 0 {
						time.Sleep(time.Until(start.Add(us(o.At))))
					}
					switch o.K {
					case "sub":
						w.subscribe(o.C, o.T, false)
					case "unsub":
						w.unsubscribe(o.C, o.T)
					case "pub", "one":
						w.publish(o.C, o.T, o.K == "one", o.VK, o.N, o.Mut)
					case "spub", "sone":
						w.publish(-1, o.T, o.K == "sone", o.VK, o.N, o.Mut)
					case "auth":
						if err := w.clis[o.C].Authenticate(); err != nil && !upset[s][o.C] {
							r.Failf("slot %d: client %d: authenticating again failed: %v", s, o.C, err)
						}
					case "drop":
						w.mu.Lock()
						cn := w.conn[o.C]
						w.mu.Unlock()
						cn.Reset()
					case "stop":
						w.clis[o.C].Stop()
					case "restart":
						w.mu.Lock()
						old, on := w.srv, w.net
						w.mu.Unlock()
						w.startServer()
						old.Stop()
						on.Close()
						// closed: no connection is added any more
						for _, cn := range on.Conns {
							cn.Reset()
						}
					}
					r.Class("op-%s", o.K)
				})
			}
			for k := 0; w.active(); k++ {
				if k == 100 {
					r.Failf("slot %d: an operation never ended", s)
					return
				}
				settle()
			}
			settle()
			if w.late != "" {
				r.Failf("%s", w.late)
			}
			for _, o := range c.Ops {
				if o.Slot == s && o.K == "stop" {
					stopped[o.C] = true
				}
			}
		}
		if !r.Failed() {
			w.judge(slots, upset)
		}
		for _, cl := range w.clis {
			cl.Stop()
		}
		w.srv.Stop()
		for _, cn := range w.conn {
			cn.Reset()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		if poison != nil {
			if e := poison.Check(); e != "" {
				r.Failf("%s", e)
			}
		}
	})
}

// judge replays the history against the model.
func (w *psWorld) judge(slots int, upset [][]bool) {
	c, r := w.c, w.r
	const (
		out = iota
		in
		may
	)
	st := make([][]int, c.N)
	gone := make([]bool, c.N)
	for i := range st {
		st[i] = make([]int, len(c.Topics))
	}
	total := 0
	for s := 0; s < slots; s++ {
		eff := make([][]int, c.N) // what a publication of this slot finds
		next := make([][]int, c.N)
		for i := range st {
			eff[i] = append([]int(nil), st[i]...)
			next[i] = append([]int(nil), st[i]...)
			for t := range c.Topics {
				subs, unsubs, bad := 0, 0, false
				for _, e := range w.evs {
					if e.slot != s || e.c != i || e.t != t {
						continue
					}
					if e.err != nil && !upset[s][i] {
						r.Failf("slot %d: client %d: %s of %s failed: %v", s, i, e.k, vkit.Short(c.Topics[t]), e.err)
						return
					}
					if e.err != nil && !(e.k == "sub" && st[i][t] == in) {
						bad = true
					}
					if e.k == "sub" {
						subs++
					} else {
						unsubs++
					}
				}
				switch {
				case bad:
					eff[i][t], next[i][t] = may, may
				case subs > 0 && unsubs > 0:
					eff[i][t], next[i][t] = may, may
				case subs > 0:
					if st[i][t] != in {
						eff[i][t] = may
					}
					next[i][t] = in
				case unsubs > 0:
					if st[i][t] != out {
						eff[i][t] = may
					}
					next[i][t] = out
					if upset[s][i] {
						// a renewed subscription may come after it
						next[i][t] = may
					}
				}
				if upset[s][i] && eff[i][t] == in {
					eff[i][t] = may
				}
			}
			for _, o := range c.Ops {
				if o.Slot == s && o.K == "stop" && o.C == i {
					gone[i] = true
				}
			}
			if gone[i] {
				for t := range next[i] {
					next[i][t] = out
				}
			}
		}
		restarted := false
		for _, o := range c.Ops {
			restarted = restarted || o.Slot == s && o.K == "restart"
		}
		for _, p := range w.pubs {
			if p.slot != s {
				continue
			}
			if p.err != nil && (p.from < 0 || !upset[s][p.from]) {
				r.Failf("slot %d: publication %d failed: %v", s, p.id, p.err)
				return
			}
			sum, mays, ins := 0, 0, 0
			for i := range st {
				g := p.got[i]
				sum += g
				e := eff[i][p.topic]
				if e == in {
					ins++
				}
				if e == may {
					mays++
				}
				sure := p.err == nil && !restarted
				switch {
				case g > 1:
					r.Failf("slot %d: client %d got publication %d %d times", s, i, p.id, g)
				case g == 1 && e == out:
					r.Failf("slot %d: client %d, not subscribed to %s, got publication %d", s, i, vkit.Short(c.Topics[p.topic]), p.id)
				case g == 0 && e == in && sure && !p.one:
					r.Failf("slot %d: client %d, subscribed to %s, did not get publication %d", s, i, vkit.Short(c.Topics[p.topic]), p.id)
				}
			}
			if p.one {
				if sum > 1 {
					r.Failf("slot %d: publish-to-one %d reached %d clients", s, p.id, sum)
				}
				if sum == 0 && mays == 0 && ins > 0 && p.err == nil && !restarted {
					r.Failf("slot %d: publish-to-one %d reached nobody although %d clients are subscribed", s, p.id, ins)
				}
				if ins > 1 {
					r.Class("one-of-many")
				}
			}
			if len(p.ts) > 1 {
				r.Failf("slot %d: publication %d came with different timestamps %v", s, p.id, p.ts)
			}
			for ts := range p.ts {
				if ts < p.t0.UnixNano() || ts > p.t1.UnixNano() {
					r.Failf("slot %d: publication %d has timestamp %d, published between %d and %d", s, p.id, ts, p.t0.UnixNano(), p.t1.UnixNano())
				}
			}
			total += sum
			if ins > 1 && !p.one {
				r.Class("to-many")
			}
			if p.wire == nil && sum > 0 {
				r.Class("empty-data")
			}
		}
		st = next
	}
	if total > 0 {
		r.NonTrivial()
		r.Class("delivered")
	}
}

// ---- churn: subscribing and unsubscribing at the same time leaves no trace ----

type psChurn struct {
	S, C   vkit.EP
	N      int
	Rounds []psRound
}

type psRound struct {
	Subs, Unsubs []int // calls at once per client
	Last         []bool
	One          bool
}

func genPSchurn(rt *rapid.T) psChurn {
	c := psChurn{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "clients")}
	for i := vkit.Int(rt, 1, 8, "rounds"); i > 0; i-- {
		var x psRound
		for k := 0; k < c.N; k++ {
			x.Subs = append(x.Subs, vkit.Int(rt, 0, 4, "subs"))
			x.Unsubs = append(x.Unsubs, vkit.Int(rt, 0, 4, "unsubs"))
			x.Last = append(x.Last, vkit.Bool(rt, "last"))
		}
		x.One = vkit.Chance(rt, 30, "one")
		c.Rounds = append(c.Rounds, x)
	}
	return c
}

func runPSchurn(r *vkit.R, c psChurn) {
	r.Bubble(func() {
		s := pubsub.NewServer()
		s.Password = "pw"
		c.S.Apply(s.Handler)
		n := vkit.NewNet("ps")
		go s.Serve(n)
		synctest.Wait()
		var mu sync.Mutex
		got := make([]int, c.N)
		var clis []*pubsub.Client
		for i := 0; i < c.N; i++ {
			cl, err := pubsub.NewClient(n.Dial, c.C.NewHandler())
			if err != nil {
				r.Failf("new client: %v", err)
				return
			}
			cl.Password = "pw"
			cl.OnPublish(func(*pubsub.Topic) { mu.Lock(); got[i]++; mu.Unlock() })
			if err := cl.Authenticate(); err != nil {
				r.Failf("authenticate: %v", err)
				return
			}
			clis = append(clis, cl)
		}
		nop := func(*pubsub.Topic) {}
		for k, x := range c.Rounds {
			var wg sync.WaitGroup
			for i, cl := range clis {
				for j := 0; j < x.Subs[i]+x.Unsubs[i]; j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						var err error
						if j < x.Subs[i] {
							err = cl.Subscribe("t", nop, long())
						} else {
							err = cl.Unsubscribe("t", long())
						}
						if err != nil {
							r.Failf("round %d: %v", k, err)
						}
					}()
				}
				if x.Subs[i] > 0 && x.Unsubs[i] > 0 {
					r.NonTrivial()
				}
			}
			if !waitOr(&wg, long()*2) {
				r.Failf("round %d: an operation never ended", k)
				return
			}
			want := 0
			for i, cl := range clis {
				var err error
				if x.Last[i] {
					want++
					err = cl.Subscribe("t", nop, long())
				} else {
					err = cl.Unsubscribe("t", long())
				}
				if err != nil {
					r.Failf("round %d: %v", k, err)
				}
			}
			synctest.Wait()
			mu.Lock()
			for i := range got {
				got[i] = 0
			}
			mu.Unlock()
			if x.One {
				s.PublishToOne("t", "x")
			} else {
				s.Publish("t", "x")
			}
			synctest.Wait()
			mu.Lock()
			sum := 0
			for i := range got {
				sum += got[i]
				if got[i] > 0 && !x.Last[i] {
					r.Failf("round %d: client %d got a publication although it had unsubscribed", k, i)
				}
				if got[i] != 1 && x.Last[i] && !x.One {
					r.Failf("round %d: client %d, subscribed, got a publication %d times", k, i, got[i])
				}
			}
			if x.One && sum != min(want, 1) {
				r.Failf("round %d: publish-to-one reached %d clients, %d are subscribed", k, sum, want)
			}
			mu.Unlock()
		}
		for _, cl := range clis {
			cl.Stop()
		}
		s.Stop()
		for _, cn := range n.Conns {
			cn.Reset()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
	})
}

func init() {
	vkit.Register("C18", "churn", vkit.Opts{Quick: 30000, Rule: "a client subscribes and unsubscribes at the same time"}, genPSchurn, runPSchurn)
	vkit.Register("C18", "model", vkit.Opts{Quick: 24000, Rule: "at least one publication was delivered"}, func(rt *rapid.T) psCase { return genPS(rt, "") }, runPS)
	vkit.Register("C19", "reconnect", vkit.Opts{Quick: 15000, Rule: "at least one publication was delivered"}, func(rt *rapid.T) psCase { return genPS(rt, "reconnect") }, runPS)
	vkit.Register("C16", "publish", vkit.Opts{Quick: 6000, Rule: "at least one publication was delivered"}, func(rt *rapid.T) psCase { return genPS(rt, "pool") }, runPS)
}
