package core

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/extension/pubsub"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C05 codec: values other than strings and byte slices go through the codec of
// the endpoint, and through no other.

// tagCodec marks what it encodes and refuses what another one encoded.
type tagCodec string

func (t tagCodec) Marshal(v interface{}) ([]byte, error) {
	if t == "" {
		return nil, fmt.Errorf("the wrong codec")
	}
	b, err := json.Marshal(v)
	return append([]byte(t), b...), err
}

func (t tagCodec) Unmarshal(b []byte, v interface{}) error {
	if t == "" || len(b) < len(t) || string(b[:len(t)]) != string(t) {
		return fmt.Errorf("codec %q cannot read %s", string(t), vkit.Short(string(b)))
	}
	return json.Unmarshal(b[len(t):], v)
}

type ckObj struct {
	ID int
	S  string
	M  map[string]int
	L  []float64
}

type ckOp struct {
	K   string // call, callctx, async, notify, stream, bcast, pub, pubone
	Dir int
	C   int
	Ptr bool
	N   int
	Err bool // the handler writes something the caller's variable cannot hold
}

type ckCase struct {
	Mode string // all, default, per
	S, C vkit.EP
	N    int
	Ops  []ckOp
}

func genCK(rt *rapid.T) ckCase {
	c := ckCase{Mode: vkit.Pick(rt, "mode", "all", "default", "per"), S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "n")}
	for i := vkit.Int(rt, 1, 8, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, ckOp{K: vkit.Pick(rt, "k", "call", "callctx", "async", "notify", "stream", "bcast", "pub", "pubone"), Dir: vkit.Int(rt, 0, 1, "dir"), C: vkit.Int(rt, 0, c.N-1, "c"), Ptr: vkit.Bool(rt, "ptr"), N: vkit.Size(rt, 2000, "size"), Err: vkit.Chance(rt, 15, "err")})
	}
	return c
}

func runCK(r *vkit.R, c ckCase) {
	old := codec.DefaultCodec
	defer codec.SetCodec(old)
	tag := func(i int) tagCodec {
		if c.Mode == "per" {
			return tagCodec(fmt.Sprintf("<%d>", i))
		}
		return "<x>"
	}
	r.Bubble(func() {
		if c.Mode == "default" {
			codec.SetCodec(tag(0))
		} else {
			codec.SetCodec(tagCodec("")) // nobody uses it
		}
		var mu sync.Mutex
		seen := map[string][]ckObj{} // what -> received
		note := func(what string, o ckObj, err error) {
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.Failf("%s: %v", what, err)
				return
			}
			seen[what] = append(seen[what], o)
		}
		take := func(what string) []ckObj {
			mu.Lock()
			defer mu.Unlock()
			x := seen[what]
			delete(seen, what)
			return x
		}
		mk := func(id, n int) ckObj {
			return ckObj{ID: id, S: fmt.Sprintf("%x", vkit.Blob{N: n, S: id}.Bytes()), M: map[string]int{"k": id}, L: []float64{0.5, float64(id)}}
		}
		wrong := false
		setup := func(who string, h arpc.Handler) {
			h.Handle("echo", func(ctx *arpc.Context) {
				var o ckObj
				err := ctx.Bind(&o)
				note(who+" request", o, err)
				if wrong {
					ctx.Write("no object")
					return
				}
				o.ID++
				ctx.Write(&o)
			})
			h.Handle("note", func(ctx *arpc.Context) {
				var o ckObj
				err := ctx.Bind(&o)
				note(who+" note", o, err)
			})
			h.HandleStream("st", func(s *arpc.Stream) {
				for {
					var o ckObj
					if err := s.Recv(&o); err != nil {
						s.CloseSend()
						return
					}
					note(who+" stream", o, nil)
					o.ID++
					if err := s.Send(o); err != nil {
						r.Failf("%s: answering on the stream: %v", who, err)
					}
				}
			}, true)
		}
		srv := pubsub.NewServer()
		n := vkit.NewNet("ck")
		c.S.Apply(srv.Handler)
		setup("server", srv.Handler)
		if c.Mode == "all" {
			srv.Codec = tag(0)
		}
		if c.Mode == "per" {
			srv.Codec = tagCodec("<s>")
		}
		var side []*arpc.Client
		srv.Handler.HandleConnected(func(x *arpc.Client) {
			mu.Lock()
			defer mu.Unlock()
			if c.Mode == "per" {
				x.Codec = tag(len(side))
			}
			side = append(side, x)
		})
		go srv.Serve(n)
		synctest.Wait()
		var clis []*pubsub.Client
		for i := 0; i < c.N; i++ {
			h := c.C.NewHandler()
			setup(fmt.Sprintf("client %d", i), h)
			cl, err := pubsub.NewClient(n.Dial, h)
			if err != nil {
				r.Failf("new client: %v", err)
				return
			}
			if c.Mode != "default" {
				cl.Codec = tag(i)
			}
			if err := cl.Authenticate(); err != nil {
				r.Failf("authenticate: %v", err)
				return
			}
			if err := cl.Subscribe("t", func(tp *pubsub.Topic) {
				mu.Lock()
				defer mu.Unlock()
				var o ckObj
				// the data is what the publisher's codec made
				for _, t := range []tagCodec{tag(0), tag(1), tag(2), srv.Codec.(tagCodec)} {
					if t.Unmarshal(tp.Data, &o) == nil {
						seen["pub "+string(t)] = append(seen["pub "+string(t)], o)
						return
					}
				}
				r.Failf("a publication's data is not what a codec made: %s", vkit.Short(string(tp.Data)))
			}, long()); err != nil {
				r.Failf("subscribe: %v", err)
				return
			}
			clis = append(clis, cl)
			synctest.Wait()
		}
		for i, op := range c.Ops {
			from, far := clis[op.C].Client, "server"
			if op.Dir == 1 {
				from, far = side[op.C], fmt.Sprintf("client %d", op.C)
			}
			o := mk(10*i, op.N)
			var v interface{} = o
			if op.Ptr {
				v = &o
			}
			expect := func(what string, want []ckObj) {
				got := take(what)
				if len(got) != len(want) {
					r.Failf("op %d (%s): %s came %d times, want %d", i, op.K, what, len(got), len(want))
					return
				}
				for k := range got {
					if !reflect.DeepEqual(got[k], want[k]) {
						r.Failf("op %d (%s): %s came as %s, want %s", i, op.K, what, vkit.Short(fmt.Sprint(got[k])), vkit.Short(fmt.Sprint(want[k])))
					}
				}
			}
			mu.Lock()
			wrong = op.Err
			mu.Unlock()
			switch op.K {
			case "call", "callctx", "async":
				var rsp ckObj
				var err error
				switch op.K {
				case "call":
					err = from.Call("echo", v, &rsp, long())
				case "callctx":
					err = from.CallContext(context.Background(), "echo", v, &rsp)
				case "async":
					ch := make(chan error, 1)
					err = from.CallAsync("echo", v, func(cx *arpc.Context, e error) {
						if e == nil {
							e = cx.Bind(&rsp)
						}
						ch <- e
					}, long())
					if err == nil {
						err = <-ch
					}
				}
				synctest.Wait()
				expect(far+" request", []ckObj{o})
				if op.Err {
					if err == nil {
						r.Failf("op %d: a reply the codec refuses gave no error", i)
					}
					r.Class("refused reply")
					break
				}
				w := o
				w.ID++
				if err != nil || !reflect.DeepEqual(rsp, w) {
					r.Failf("op %d (%s): reply %s, %v", i, op.K, vkit.Short(fmt.Sprint(rsp)), err)
				}
			case "notify":
				if err := from.Notify("note", v, long()); err != nil {
					r.Failf("op %d: notify: %v", i, err)
				}
				time.Sleep(time.Minute)
				synctest.Wait()
				expect(far+" note", []ckObj{o})
			case "stream":
				st := from.NewStream("st")
				var want []ckObj
				for k := 0; k < 2; k++ {
					x := mk(10*i+k, op.N)
					want = append(want, x)
					if err := st.Send(x); err != nil {
						r.Failf("op %d: stream send: %v", i, err)
						break
					}
					var y ckObj
					x.ID++
					if err := st.Recv(&y); err != nil || !reflect.DeepEqual(x, y) {
						r.Failf("op %d: stream: got %s, %v", i, vkit.Short(fmt.Sprint(y)), err)
						break
					}
				}
				st.CloseSend()
				synctest.Wait()
				expect(far+" stream", want)
			case "bcast":
				if c.Mode == "per" {
					continue // one encoding for all
				}
				srv.Broadcast("note", v)
				time.Sleep(time.Minute)
				synctest.Wait()
				for k := range clis {
					expect(fmt.Sprintf("client %d note", k), []ckObj{o})
				}
			case "pub", "pubone":
				var err error
				cd, want := tag(op.C), []ckObj{o}
				switch {
				case op.Dir == 0 && op.K == "pub":
					err = clis[op.C].Publish("t", v, long())
				case op.Dir == 0:
					err = clis[op.C].PublishToOne("t", v, long())
				case op.K == "pub":
					cd = srv.Codec.(tagCodec)
					err = srv.Publish("t", v)
				default:
					cd = srv.Codec.(tagCodec)
					err = srv.PublishToOne("t", v)
				}
				if err != nil {
					r.Failf("op %d: %s: %v", i, op.K, err)
				}
				if op.K == "pub" {
					for len(want) < c.N {
						want = append(want, o)
					}
				}
				time.Sleep(time.Minute)
				synctest.Wait()
				expect("pub "+string(cd), want)
			}
			r.Class("%s %s", c.Mode, op.K)
			r.NonTrivial()
			if r.Failed() {
				break
			}
		}
		for what, x := range seen {
			r.Failf("%s came %d times more", what, len(x))
		}
		for _, cl := range clis {
			cl.Stop()
		}
		srv.Stop()
		for _, cn := range n.Conns {
			cn.Reset()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
	})
}

func init() {
	vkit.Register("C05", "codec", vkit.Opts{Quick: 8000, Rule: "at least one value went through"}, genCK, runCK)
}
