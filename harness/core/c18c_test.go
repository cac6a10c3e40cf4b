package core

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C18 client: the client against a scripted server, which answers subscribe
// and unsubscribe requests as the case says and sends publications in the same
// write, before and behind the answer.

type pcOp struct {
	K      string // sub, unsub, pub
	T      int
	Ans    string // ok, err, none
	Before []pcPub
	After  []pcPub
}

type pcPub struct {
	T   int
	N   int
	Bad string // "", short, empty, biglen, overlen, noname, errflag
}

type pcCase struct {
	C     vkit.EP
	Names []string
	Catch bool
	Down  vkit.DirPlan
	Ops   []pcOp
}

func genPC(rt *rapid.T) pcCase {
	c := pcCase{C: vkit.GenEP(rt, "c"), Catch: vkit.Chance(rt, 15, "catch")}
	c.C.Pool = vkit.Chance(rt, 30, "pool")
	nt := vkit.Int(rt, 1, 3, "topics")
	c.Names = psTopics(rt, nt)
	if vkit.Chance(rt, 40, "plan") {
		c.Down = vkit.GenDir(rt, "down")
	}
	pubs := func(label string, p int) (ps []pcPub) {
		if !vkit.Chance(rt, p, label) {
			return nil
		}
		for i := vkit.Int(rt, 1, 3, label+".n"); i > 0; i-- {
			x := pcPub{T: vkit.Int(rt, 0, nt-1, label+".t"), N: vkit.Size(rt, 2000, label+".size")}
			if vkit.Chance(rt, 15, label+".bad") {
				x.Bad = vkit.Pick(rt, label+".badk", "short", "empty", "biglen", "overlen", "noname", "errflag")
			}
			ps = append(ps, x)
		}
		return
	}
	for i := vkit.Int(rt, 1, 9, "ops"); i > 0; i-- {
		o := pcOp{K: vkit.Pick(rt, "k", "sub", "sub", "sub", "unsub", "pub", "pub"), T: vkit.Int(rt, 0, nt-1, "t")}
		if o.K == "pub" {
			o.After = pubs("pub", 100)
		} else {
			o.Ans = vkit.Pick(rt, "ans", "ok", "ok", "ok", "err", "err", "none")
			o.Before = pubs("before", 30)
			o.After = pubs("after", 50)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type pcGot struct{ h, pub int }

func runPC(r *vkit.R, c pcCase) {
	r.Bubble(func() {
		n := vkit.NewNet("pc")
		n.Plan = func(int) vkit.ConnPlan { return vkit.ConnPlan{Down: c.Down} }
		var mu sync.Mutex
		var cur *pcOp // answered next
		npub := 0
		type sent struct {
			pcPub
			id     int
			before bool // in front of the answer
			op     int
		}
		var pubs []sent
		encode := func(p pcPub, id int) []byte {
			body := append([]byte(fmt.Sprintf("%d|", id)), vkit.Blob{N: p.N, S: id}.Bytes()...)
			f := vkit.Frame{Cmd: vkit.CNotify, Seq: uint64(9000 + id), Method: "in_P"}
			b := topicBytes(c.Names[p.T], body, int64(id))
			switch p.Bad {
			case "short":
				b = b[len(b)-9:]
			case "empty":
				b = nil
			case "biglen":
				binary.LittleEndian.PutUint16(b[len(b)-10:], uint16(len(b)-10+1))
			case "overlen":
				b = topicBytes(strings.Repeat("z", 1025), body, int64(id))
			case "noname":
				b = topicBytes("", body, int64(id))
			case "errflag":
				f.Flag = vkit.FlagError
			}
			f.Data = b
			return f.Encode()
		}
		opIdx := -1
		build := func(o *pcOp, seq uint64, method string) []byte {
			var out []byte
			add := func(ps []pcPub, before bool) {
				for _, p := range ps {
					pubs = append(pubs, sent{pcPub: p, id: npub, before: before, op: opIdx})
					out = append(out, encode(p, npub)...)
					npub++
				}
			}
			add(o.Before, true)
			switch o.Ans {
			case "ok":
				out = append(out, vkit.Frame{Cmd: vkit.CResponse, Seq: seq, Method: method}.Encode()...)
			case "err":
				out = append(out, vkit.Frame{Cmd: vkit.CResponse, Seq: seq, Flag: vkit.FlagError, Method: method, Data: []byte("refused")}.Encode()...)
			}
			add(o.After, false)
			return out
		}
		go func() {
			conn, err := n.Accept()
			if err != nil {
				return
			}
			for {
				f, err := vkit.ReadFrame(conn)
				if err != nil {
					return
				}
				if f.Cmd != vkit.CRequest {
					continue
				}
				mu.Lock()
				var out []byte
				if f.Method == "in_A" {
					out = vkit.Frame{Cmd: vkit.CResponse, Seq: f.Seq, Method: f.Method}.Encode()
				} else if cur != nil {
					out = build(cur, f.Seq, f.Method)
					cur = nil
				} else {
					r.Failf("the client sent a request of its own: %v", f)
				}
				mu.Unlock()
				conn.Write(out)
			}
		}()
		synctest.Wait()
		cl, err := pubsub.NewClient(n.Dial, c.C.NewHandler())
		if err != nil {
			r.Failf("new client: %v", err)
			return
		}
		raw := n.Conns[0].Other()
		if err := cl.Authenticate(); err != nil {
			r.Failf("authenticate: %v", err)
			return
		}
		var got []pcGot
		handler := func(h int) pubsub.TopicHandler {
			return func(tp *pubsub.Topic) {
				id := -1
				fmt.Sscanf(string(tp.Data), "%d|", &id)
				mu.Lock()
				defer mu.Unlock()
				if id < 0 || id >= len(pubs) {
					r.Failf("a callback got something never sent: %s", vkit.Short(string(tp.Data)))
					return
				}
				p := pubs[id]
				want := fmt.Sprintf("%d|%s", id, vkit.Blob{N: p.N, S: id}.Bytes())
				if string(tp.Data) != want || tp.Name != c.Names[p.T] || tp.Timestamp != int64(id) {
					r.Failf("publication %d came as topic %s timestamp %d data %s", id, vkit.Short(tp.Name), tp.Timestamp, vkit.Short(string(tp.Data)))
				}
				if p.Bad != "" {
					r.Failf("a callback got the malformed publication %d (%s)", id, p.Bad)
				}
				got = append(got, pcGot{h, id})
			}
		}
		if c.Catch {
			cl.OnPublish(handler(-1))
		}
		state := make([]int, len(c.Names)) // confirmed handler of each topic, 0: none
		for i := range c.Ops {
			o := &c.Ops[i]
			prev := append([]int(nil), state...)
			mu.Lock()
			opIdx = i
			first := npub
			got = nil
			mu.Unlock()
			h := i + 1
			switch o.K {
			case "pub":
				mu.Lock()
				out := build(o, 0, "")
				mu.Unlock()
				raw.Write(out)
			case "sub", "unsub":
				mu.Lock()
				cur = o
				mu.Unlock()
				var err error
				if o.K == "sub" {
					err = cl.Subscribe(c.Names[o.T], handler(h), us(20000000))
				} else {
					err = cl.Unsubscribe(c.Names[o.T], us(20000000))
				}
				if (err == nil) != (o.Ans == "ok") {
					r.Failf("op %d: %s, answered %s, returned %v", i, o.K, o.Ans, err)
				}
				if o.Ans == "err" && err != nil && err.Error() != "refused" {
					r.Failf("op %d: %s refused with %q returned %q", i, o.K, "refused", err)
				}
				if o.Ans == "ok" {
					if o.K == "sub" {
						state[o.T] = h
					} else {
						state[o.T] = 0
					}
				}
				r.Class("%s-%s", o.K, o.Ans)
			}
			time.Sleep(us(20000000) + time.Minute)
			synctest.Wait()
			mu.Lock()
			count := map[int][]int{}
			for _, g := range got {
				count[g.pub] = append(count[g.pub], g.h)
			}
			for _, p := range pubs[first:] {
				hs := count[p.id]
				if p.Bad != "" {
					r.Class("bad-%s", p.Bad)
					continue
				}
				if len(hs) > 1 {
					r.Failf("op %d: publication %d ran callbacks %v", i, p.id, hs)
					continue
				}
				if c.Catch {
					if len(hs) == 0 && prev[p.T] > 0 && state[p.T] > 0 {
						r.Failf("op %d: publication %d did not reach the catch-all", i, p.id)
					}
					continue
				}
				// who may and who must get it
				may := map[int]bool{}
				must := false
				switch {
				case o.K == "pub" || p.T != o.T:
					may[state[p.T]], must = true, state[p.T] > 0
				case o.K == "sub" && o.Ans == "ok" && !p.before:
					// the subscription is confirmed
					may[h], must = true, true
					r.Class("behind-the-confirmation")
					r.NonTrivial()
				case o.K == "sub":
					may[h], may[prev[p.T]], must = true, true, prev[p.T] > 0
					if prev[p.T] == 0 {
						may[0] = true
					}
				case o.K == "unsub" && o.Ans == "ok":
					// its callback may come to run only after the withdrawal
					may[prev[p.T]], may[0] = true, true
				default:
					// not confirmed: the subscription stands
					may[prev[p.T]], must = true, prev[p.T] > 0
				}
				x := 0
				if len(hs) == 1 {
					x = hs[0]
				}
				if x == 0 && must {
					r.Failf("op %d (%s %s): publication %d of topic %d, subscribed, ran no callback", i, o.K, o.Ans, p.id, p.T)
				} else if x != 0 && !may[x] {
					r.Failf("op %d (%s %s): publication %d ran callback %d, want one of %v", i, o.K, o.Ans, p.id, x, may)
				}
				if o.K == "pub" && x > 0 {
					r.NonTrivial()
				}
			}
			mu.Unlock()
			if r.Failed() {
				break
			}
		}
		cl.Stop()
		n.Close()
		for _, cn := range n.Conns {
			cn.Reset()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
	})
}

// C18 full: subscribers that read nothing, with short queues, beside healthy
// ones.

type pfOp struct {
	K     string // pub, one, spub, sone, burst, stall, free, bad, kick (stopped by the server, still registered)
	C     int
	N     int
	Bad   string // sub, unsub, pub, one, spub, sone
	Len   int    // of the bad name
	Times int
}

type pfCase struct {
	S, C vkit.EP
	N    int
	Ops  []pfOp
}

func genPF(rt *rapid.T) pfCase {
	c := pfCase{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 4, "clients")}
	c.S.SyncWrite = false
	c.S.SendQ = vkit.Int(rt, 1, 5, "q")
	c.S.Pool = vkit.Chance(rt, 30, "pool")
	for i := range c.N {
		if i > 0 && vkit.Chance(rt, 40, "stalled") {
			c.Ops = append(c.Ops, pfOp{K: "stall", C: i})
		}
	}
	for i := vkit.Int(rt, 2, 14, "ops"); i > 0; i-- {
		o := pfOp{K: vkit.Pick(rt, "k", "pub", "one", "spub", "spub", "sone", "sone", "burst", "stall", "stall", "free", "bad", "kick"), C: vkit.Int(rt, 0, c.N-1, "c"), N: vkit.Size(rt, 1500, "n"), Times: vkit.Int(rt, 1, 6, "times")}
		if o.K == "bad" {
			o.Bad = vkit.Pick(rt, "badk", "sub", "unsub", "pub", "one", "spub", "sone")
			o.Len = vkit.Pick(rt, "len", 0, 0, 1025, 1026, 65535, 65536, 65537, 65540, 66000)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runPF(r *vkit.R, c pfCase) {
	r.Bubble(func() {
		s := pubsub.NewServer()
		s.Password = "pw"
		c.S.Apply(s.Handler)
		s.Handler.Handle("kick", func(ctx *arpc.Context) {
			ctx.Client.Stop()
			time.Sleep(10 * time.Minute)
		}, false)
		n := vkit.NewNet("pf")
		go s.Serve(n)
		synctest.Wait()
		var mu sync.Mutex
		type pub struct {
			one  bool
			n    int
			got  []int
			full []bool // stalled when it was published
		}
		var pubs []*pub
		var clis []*pubsub.Client
		var conns []*vkit.Conn
		dead := make([]bool, c.N)
		for i := 0; i < c.N; i++ {
			var conn *vkit.Conn
			cl, err := pubsub.NewClient(func() (net.Conn, error) {
				mu.Lock()
				gone := dead[i]
				mu.Unlock()
				if gone {
					return nil, vkit.ErrRefused
				}
				cn, err := n.Dial()
				conn, _ = cn.(*vkit.Conn)
				return cn, err
			}, c.C.NewHandler())
			if err != nil {
				r.Failf("new client: %v", err)
				return
			}
			cl.Password = "pw"
			if err := cl.Authenticate(); err != nil {
				r.Failf("authenticate: %v", err)
				return
			}
			err = cl.Subscribe("t", func(tp *pubsub.Topic) {
				id := -1
				fmt.Sscanf(string(tp.Data), "%d|", &id)
				mu.Lock()
				defer mu.Unlock()
				if id < 0 || id >= len(pubs) || tp.Name != "t" || string(tp.Data) != fmt.Sprintf("%d|%s", id, vkit.Blob{N: pubs[id].n, S: id}.Bytes()) {
					r.Failf("client %d got topic %s data %s", i, vkit.Short(tp.Name), vkit.Short(string(tp.Data)))
					return
				}
				pubs[id].got[i]++
			}, long())
			if err != nil {
				r.Failf("subscribe: %v", err)
				return
			}
			clis = append(clis, cl)
			conns = append(conns, conn)
		}
		stalled := make([]bool, c.N)
		settle := func() { time.Sleep(time.Second); synctest.Wait() }
		settle()
		sum := func(p *pub) (k int) {
			for _, g := range p.got {
				k += g
			}
			return
		}
		publish := func(i int, k string, size int, from int) {
			mu.Lock()
			p := &pub{one: k == "one" || k == "sone", n: size, got: make([]int, c.N), full: append([]bool(nil), stalled...)}
			id := len(pubs)
			pubs = append(pubs, p)
			mu.Unlock()
			data := fmt.Sprintf("%d|%s", id, vkit.Blob{N: size, S: id}.Bytes())
			var err error
			switch k {
			case "spub":
				err = s.Publish("t", data)
			case "sone":
				err = s.PublishToOne("t", data)
			case "pub":
				err = clis[from].Publish("t", data, long())
			case "one":
				err = clis[from].PublishToOne("t", data, long())
			}
			if err != nil {
				r.Failf("op %d: %s failed: %v", i, k, err)
			}
			r.Class("%s", k)
		}
		for i, o := range c.Ops {
			if dead[o.C] && o.K != "spub" && o.K != "sone" && o.K != "burst" {
				continue
			}
			switch o.K {
			case "kick":
				if stalled[o.C] {
					continue
				}
				mu.Lock()
				dead[o.C] = true
				mu.Unlock()
				stalled[o.C] = true
				if err := clis[o.C].Notify("kick", "x", long()); err != nil {
					r.Failf("op %d: notify: %v", i, err)
				}
				r.Class("kicked")
			case "spub", "sone":
				publish(i, o.K, o.N, 0)
			case "pub", "one":
				if stalled[o.C] {
					continue // would wait for its answer
				}
				publish(i, o.K, o.N, o.C)
			case "burst":
				// as many as the queue of a healthy subscriber holds
				for k := 0; k < min(o.Times, c.S.SendQ); k++ {
					publish(i, "spub", o.N, 0)
				}
			case "stall":
				conns[o.C].Other().StallWrites(true)
				stalled[o.C] = true
			case "free":
				conns[o.C].Other().StallWrites(false)
				stalled[o.C] = false
			case "bad":
				name := strings.Repeat("z", o.Len)
				var err error
				switch o.Bad {
				case "sub":
					err = clis[o.C].Subscribe(name, func(tp *pubsub.Topic) { r.Failf("a refused subscription's callback ran") }, us(1000000))
				case "unsub":
					err = clis[o.C].Unsubscribe(name, us(1000000))
				case "pub":
					err = clis[o.C].Publish(name, "x", us(1000000))
				case "one":
					err = clis[o.C].PublishToOne(name, "x", us(1000000))
				case "spub":
					err = s.Publish(name, "x")
				case "sone":
					err = s.PublishToOne(name, "x")
				}
				if err == nil {
					r.Failf("op %d: %s with a name of %d bytes succeeded", i, o.Bad, o.Len)
				}
				r.Class("bad-name")
			}
			settle()
			mu.Lock()
			for id, p := range pubs {
				healthy := 0
				for k := range p.got {
					if p.got[k] > 1 {
						r.Failf("op %d: client %d got publication %d %d times", i, k, id, p.got[k])
					}
					if !p.full[k] {
						healthy++
						if !p.one && p.got[k] != 1 {
							r.Failf("op %d: client %d, reading, got publication %d %d times", i, k, id, p.got[k])
						}
					}
				}
				if p.one && sum(p) > 1 {
					r.Failf("op %d: publish-to-one %d reached %d clients", i, id, sum(p))
				}
				if healthy > 0 && healthy < c.N {
					r.NonTrivial()
				}
			}
			mu.Unlock()
			if r.Failed() {
				break
			}
		}
		for k := range conns {
			conns[k].Other().StallWrites(false)
			stalled[k] = dead[k]
		}
		settle()
		mu.Lock()
		for id, p := range pubs {
			healthy := 0
			for k := range p.got {
				if !p.full[k] {
					healthy++
				}
				if p.got[k] > 1 {
					r.Failf("client %d got publication %d %d times", k, id, p.got[k])
				}
			}
			if p.one && (sum(p) > 1 || sum(p) == 0 && healthy > 0) {
				r.Failf("publish-to-one %d reached %d clients in the end, %d were reading", id, sum(p), healthy)
			}
			if p.one && healthy > 0 && healthy < c.N {
				r.Class("one-beside-stalled")
			}
		}
		mu.Unlock()
		// everybody is still subscribed
		publish(-1, "spub", 5, 0)
		settle()
		mu.Lock()
		for k, g := range pubs[len(pubs)-1].got {
			if g != 1 && !dead[k] {
				r.Failf("client %d, reading again, got the last publication %d times", k, g)
			}
		}
		mu.Unlock()
		for _, cl := range clis {
			cl.Stop()
		}
		s.Stop()
		for _, cn := range n.Conns {
			cn.Reset()
		}
		time.Sleep(11 * time.Minute)
		synctest.Wait()
	})
}

func init() {
	vkit.Register("C18", "client", vkit.Opts{Quick: 20000, Rule: "a publication came to a subscribed client, or right behind the confirmation of a subscription"}, genPC, runPC)
	vkit.Register("C18", "full", vkit.Opts{Quick: 12000, Rule: "something was published while some subscribers read and others did not"}, genPF, runPF)
}
