package core

import (
	"context"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C02, part queued: responses and stream values wait in the send queue, behind
// a peer that does not read, when the connection is lost and replaced at once.
// They belong to the lost connection: the next one gets none of them.

type c02q struct {
	EP    vkit.EP
	Reqs  int
	Strm  int
	N     int // bytes per response
	Cap   int // bytes the connection holds
	Down  int // units until the redial succeeds (0: at once)
	How   string
	Part  int // bytes the peer reads before the loss
	Again int // requests on the next connection
}

func genC02q(rt *rapid.T) c02q {
	c := c02q{EP: vkit.GenEP(rt, "ep"), Reqs: vkit.Int(rt, 1, 12, "reqs"), Strm: vkit.Pick(rt, "strm", 0, 0, 1, 3), N: vkit.Pick(rt, "n", 1, 20, 100, 400), Cap: vkit.Pick(rt, "cap", 1, 16, 64, 300), Down: vkit.Pick(rt, "down", 0, 0, 1, 5),
		How: vkit.Pick(rt, "how", "close", "reset"), Part: vkit.Pick(rt, "part", 0, 0, 1, 30, 200), Again: vkit.Int(rt, 1, 4, "again")}
	c.EP.Coders = nil
	c.EP.Pool = vkit.Chance(rt, 25, "pool")
	return c
}

func runC02q(r *vkit.R, c c02q) {
	r.Bubble(func() {
		ran := 0
		var mu sync.Mutex
		e := newEndpoint("dial", c.EP, vkit.ConnPlan{Up: vkit.DirPlan{Cap: c.Cap}}, func(h arpc.Handler) {
			h.Handle("old", func(ctx *arpc.Context) {
				mu.Lock()
				ran++
				mu.Unlock()
				ctx.Write(fmt.Sprintf("old:%s:%s", ctx.Body(), vkit.Blob{N: c.N, S: 1}.String()))
			}, true)
			h.Handle("new", func(ctx *arpc.Context) { ctx.Write("new:" + string(ctx.Body())) }, true)
			h.HandleStream("st", func(st *arpc.Stream) {
				mu.Lock()
				ran++
				mu.Unlock()
				ctx, cancel := context.WithTimeout(context.Background(), us(500))
				defer cancel()
				for i := 0; i < 3; i++ {
					st.SendContext(ctx, fmt.Sprintf("old stream %d", i))
				}
			}, true)
		})
		got := map[uint64]string{}
		e.net.DialDelay = func(int) time.Duration { return us(c.Down) }
		e.net.OnConn = func(a, b *vkit.Conn) {
			go func() {
				for i := 0; i < c.Again; i++ {
					b.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(i + 1), Method: "new", Data: []byte(fmt.Sprint(i))}.Encode())
				}
			}()
			go func() {
				for {
					f, err := vkit.ReadFrame(b)
					if err != nil {
						return
					}
					mu.Lock()
					if _, twice := got[f.Seq]; twice || f.Cmd != vkit.CResponse || f.Method != "new" {
						r.Failf("the next connection got %v, which is none of its business", f)
					}
					got[f.Seq] = string(f.Data)
					mu.Unlock()
				}
			}()
		}
		for i := 0; i < c.Reqs; i++ {
			e.raw.Write(vkit.Frame{Cmd: vkit.CRequest, Seq: uint64(i + 1), Method: "old", Data: []byte(fmt.Sprint(i))}.Encode())
		}
		for i := 0; i < c.Strm; i++ {
			e.raw.Write(vkit.Frame{Cmd: vkit.CStream | vkit.StreamLocal, Seq: uint64(1000 + i), Method: "st", Data: []byte("hello")}.Encode())
		}
		synctest.Wait()
		if c.Part > 0 {
			e.raw.SetReadDeadline(time.Now().Add(us(1)))
			e.raw.Read(make([]byte, c.Part))
		}
		synctest.Wait()
		mu.Lock()
		if ran > 1 && c.Reqs*(c.N+20) > c.Cap+c.Part+100 {
			r.NonTrivial()
			r.Class("queued")
		}
		mu.Unlock()
		if c.How == "close" {
			e.raw.Close()
		} else {
			e.raw.Reset()
		}
		time.Sleep(us(1000))
		synctest.Wait()
		mu.Lock()
		for i := 0; i < c.Again; i++ {
			if got[uint64(i+1)] != fmt.Sprintf("new:%d", i) {
				r.Failf("request %d on the next connection was answered %q", i, got[uint64(i+1)])
			}
		}
		mu.Unlock()
		e.stop()
		time.Sleep(time.Minute)
	})
}

func init() {
	vkit.Register("C02", "queued", vkit.Opts{Units: true, Quick: 20000, Rule: "responses were waiting when the connection was lost"}, genC02q, runC02q)
}
