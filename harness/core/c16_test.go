package core

import (
	"bytes"
	"fmt"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C16: buffer pooling is invisible.

// ---- alloc: the allocator against a shadow model ----

type c16op struct {
	K    string
	I, N int
}

type c16alloc struct {
	Kind       string // "pool", "default", "native"
	Small, Big int
	Debug      bool
	Ops        []c16op
	Par        int // goroutines each running the operations
}

func genC16alloc(rt *rapid.T) c16alloc {
	c := c16alloc{Kind: vkit.Pick(rt, "kind", "pool", "pool", "default", "native"), Small: vkit.Pick(rt, "small", 0, 1, 8, 16, 64, 100), Big: vkit.Pick(rt, "big", 0, 1, 16, 64, 64, 128, 200, 1000),
		Debug: vkit.Chance(rt, 15, "debug"), Par: vkit.Pick(rt, "par", 1, 1, 1, 2, 4)}
	for i := vkit.Int(rt, 1, 40, "ops"); i > 0; i-- {
		o := c16op{K: vkit.Pick(rt, "k", "malloc", "malloc", "malloc", "realloc", "realloc", "append", "append", "appends", "free", "free", "fill", "slice"), I: vkit.Int(rt, 0, 9, "i")}
		o.N = vkit.Pick(rt, "n", 0, 1, 7, 8, 15, 16, 17, 48, 63, 64, 65, 66, 99, 100, 127, 128, 129, 200, 999, 1000, 1001, 2048, -1)
		if o.N < 0 {
			o.N = vkit.Int(rt, 0, 3000, "nn")
		}
		if vkit.Int(rt, 0, 999, "huge") == 999 {
			o.N = 1<<20 + o.N*vkit.Int(rt, 0, 900, "times")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type c16buf struct {
	b    []byte
	want []byte
}

func runC16alloc(r *vkit.R, c c16alloc) {
	r.Bubble(func() {
		var al interface {
			Malloc(int) []byte
			Realloc([]byte, int) []byte
			Free([]byte)
		}
		var ap func([]byte, ...byte) []byte
		var as func([]byte, string) []byte
		switch c.Kind {
		case "native":
			al = &arpc.NativeAllocator{}
		default:
			p := arpc.New(c.Small, c.Big)
			arpc.DefaultAllocator = p
			arpc.SetDebug(c.Debug)
			al, ap, as = p, p.Append, p.AppendString
			if c.Kind == "default" {
				al, ap, as = c16pkg{}, arpc.Append, arpc.AppendString
			}
		}
		var wg sync.WaitGroup
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						r.Failf("panic: %v", e)
					}
				}()
				var live []*c16buf
				stamp := byte(g * 50)
				fill := func(x *c16buf) {
					stamp += 7
					for i := range x.b {
						x.b[i] = stamp + byte(i)
					}
					x.want = append([]byte(nil), x.b...)
				}
				verify := func(i int, o c16op) bool {
					for k, x := range live {
						if !bytes.Equal(x.b, x.want) {
							r.Failf("op %d (%s %d): buffer %d of %d bytes changed: %s, want %s", i, o.K, o.N, k, len(x.want), vkit.Short(string(x.b)), vkit.Short(string(x.want)))
							return false
						}
					}
					for a, x := range live {
						for b, y := range live[:a] {
							if len(x.b) > 0 && len(y.b) > 0 {
								p, q := uintptr(unsafe.Pointer(&x.b[0])), uintptr(unsafe.Pointer(&y.b[0]))
								if p < q+uintptr(len(y.b)) && q < p+uintptr(len(x.b)) {
									r.Failf("op %d (%s %d): buffers %d and %d overlap", i, o.K, o.N, a, b)
									return false
								}
							}
						}
					}
					return true
				}
				for i, o := range c.Ops {
					k := -1
					if len(live) > 0 {
						k = o.I % len(live)
					}
					if k < 0 && o.K != "malloc" {
						continue
					}
					switch o.K {
					case "malloc":
						x := &c16buf{b: al.Malloc(o.N)}
						if len(x.b) != o.N {
							r.Failf("op %d: Malloc(%d) returned %d bytes", i, o.N, len(x.b))
							return
						}
						fill(x)
						live = append(live, x)
					case "fill":
						fill(live[k])
					case "slice":
						// the user works with a prefix
						x := live[k]
						n := o.N % (len(x.b) + 1)
						if n == 0 {
							continue
						}
						x.b, x.want = x.b[:n], x.want[:n]
					case "realloc":
						x := live[k]
						if c.Debug && cap(x.b) == 0 {
							continue
						}
						old := len(x.want)
						x.b = al.Realloc(x.b, o.N)
						if len(x.b) != o.N {
							r.Failf("op %d: Realloc(%d bytes, %d) returned %d bytes", i, old, o.N, len(x.b))
							return
						}
						n := min(old, o.N)
						if !bytes.Equal(x.b[:n], x.want[:n]) {
							r.Failf("op %d: Realloc(%d bytes, %d) lost contents", i, old, o.N)
							return
						}
						fill(x)
					case "append", "appends":
						x := live[k]
						if ap == nil || c.Debug && cap(x.b) == 0 {
							continue
						}
						more := vkit.Blob{N: o.N, S: i}.Bytes()
						keep := append([]byte(nil), more...)
						if o.K == "append" {
							x.b = ap(x.b, more...)
						} else {
							x.b = as(x.b, string(more))
						}
						x.want = append(append([]byte(nil), x.want...), keep...)
						if !bytes.Equal(more, keep) {
							r.Failf("op %d: append changed its argument", i)
							return
						}
						r.Class("append")
					case "free":
						x := live[k]
						if c.Debug && cap(x.b) == 0 {
							continue
						}
						al.Free(x.b)
						live = append(live[:k], live[k+1:]...)
						r.Class("free")
					}
					if !verify(i, o) {
						return
					}
				}
				if len(c.Ops) > 4 {
					r.NonTrivial()
				}
			}()
		}
		wg.Wait()
	})
}

type c16pkg struct{}

func (c16pkg) Malloc(n int) []byte            { return arpc.Malloc(n) }
func (c16pkg) Realloc(b []byte, n int) []byte { return arpc.Realloc(b, n) }
func (c16pkg) Free(b []byte)                  { arpc.Free(b) }

// ---- traffic: a mixed workload with pooling on either side ----

type c16traf struct {
	S, C   vkit.EP
	N      int
	Poison bool
	Small  int
	Big    int
	Churn  int
	Ops    []vkit.TOp
	Plans  []vkit.ConnPlan
	Cut    int // >0: time at which one connection is reset
	Q      int
	Queued int // messages to pile up behind a stall before the others
}

var c16coders = [][]string{nil, nil, nil, nil, nil, {"xor"}, {"pad"}, {"gzip0"}, {"append"}, {"msgpack"}, {"append", "gzip0"}, {"msgpack", "pad"}, {"tracing", "add"}}

func genC16traf(rt *rapid.T) c16traf {
	c := c16traf{S: vkit.GenEP(rt, "s"), C: vkit.GenEP(rt, "c"), N: vkit.Int(rt, 1, 3, "clients"), Poison: vkit.Bool(rt, "poison")}
	c.S.Pool = vkit.Chance(rt, 75, "spool")
	c.C.Pool = vkit.Chance(rt, 75, "cpool")
	c.Small, c.Big = vkit.Pick(rt, "small", 64, 64, 16, 1), vkit.Pick(rt, "big", 64, 64, 128, 1024)
	c.Churn = vkit.Pick(rt, "churn", 0, 1, 4)
	c.S.Coders = c16coders[vkit.Int(rt, 0, len(c16coders)-1, "coders")]
	c.C.Coders = c.S.Coders
	tagged := false
	for _, k := range c.S.Coders {
		tagged = tagged || k == "append" || k == "msgpack"
	}
	c.Ops = vkit.GenTOps(rt, 14, c.N, 3000, tagged)
	for i := 0; i < c.N; i++ {
		p := vkit.ConnPlan{Up: vkit.GenDir(rt, "up"), Down: vkit.GenDir(rt, "down")}
		p.Up.Cap, p.Down.Cap = 0, 0
		c.Plans = append(c.Plans, p)
	}
	if vkit.Chance(rt, 15, "cut") {
		c.Cut = vkit.Int(rt, 1, 100, "cutat")
	}
	if !c.S.SyncWrite && vkit.Chance(rt, 20, "stall") {
		c.Queued = vkit.Int(rt, 1, 30, "queued")
	}
	return c
}

func trafKey(coders []string) string {
	for _, k := range coders {
		if k == "append" || k == "msgpack" {
			return appendKey
		}
	}
	return ""
}

func runC16traf(r *vkit.R, c c16traf) {
	r.Bubble(func() {
		var poison *vkit.Poison
		if c.Poison {
			poison = vkit.NewPoison()
			arpc.DefaultAllocator = poison
		} else {
			arpc.DefaultAllocator = arpc.New(c.Small, c.Big)
		}
		fails := r
		if c.Cut > 0 {
			fails = &vkit.R{} // with a lost connection calls may fail; only the buffers are judged
		}
		t := vkit.NewTraffic(fails, c.Ops, trafKey(c.S.Coders))
		s := newServer(c.S, func(h arpc.Handler) {
			t.Setup(h, false)
			h.HandleOverstock(func(*arpc.Client, *arpc.Message) {})
			h.HandleMessageDropped(func(*arpc.Client, *arpc.Message) {})
			h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) {})
		})
		s.net.Plan = func(i int) vkit.ConnPlan { return c.Plans[i%len(c.Plans)] }
		s.start()
		for i := 0; i < c.N; i++ {
			cl, err := dial(s.net, c.C, func(h arpc.Handler) {
				t.Setup(h, true)
				h.HandleMessageDropped(func(*arpc.Client, *arpc.Message) {})
				h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) {})
				h.SetMaxReconnectTimes(3)
			})
			if err != nil {
				r.Failf("dial: %v", err)
				return
			}
			synctest.Wait()
			t.Clis = append(t.Clis, cl)
			t.Srvs = append(t.Srvs, s.client(i))
		}
		t.Srv = s.srv
		done := make(chan struct{})
		var cw sync.WaitGroup
		for g := 0; g < c.Churn; g++ {
			cw.Add(1)
			go func() {
				defer cw.Done()
				al := arpc.DefaultAllocator
				type held struct {
					b []byte
					x byte
				}
				var hs []held
				for k := 0; ; k++ {
					select {
					case <-done:
						return
					case <-time.After(us(3 + g)):
					}
					if k > 200 {
						return
					}
					b := al.Malloc([]int{16, 40, 64, 90, 300, 2048}[k%6])
					x := byte(g*16 + k)
					for i := range b {
						b[i] = x
					}
					hs = append(hs, held{b, x})
					for _, h := range hs {
						for i := range h.b {
							if h.b[i] != h.x {
								r.Failf("a buffer in use by somebody else was overwritten: byte %d is %#x, want %#x", i, h.b[i], h.x)
								return
							}
						}
					}
					if len(hs) > 4 {
						al.Free(hs[0].b)
						hs = hs[1:]
					}
				}
			}()
		}
		if c.Queued > 0 {
			own := t.Srvs[0].Conn.(*vkit.Conn)
			own.StallWrites(true)
			go func() {
				time.Sleep(us(60))
				own.StallWrites(false)
			}()
		}
		if c.Cut > 0 {
			go func() {
				time.Sleep(us(c.Cut))
				t.Clis[0].Conn.(*vkit.Conn).Reset()
			}()
		}
		wait := vkit.Tail(time.Minute)
		if c.Cut > 0 {
			wait = us(1000) + time.Minute
		}
		t.Run(wait)
		close(done)
		cw.Wait()
		if c.Cut == 0 {
			time.Sleep(vkit.Tail(time.Minute))
		}
		time.Sleep(us(1000) + time.Second)
		synctest.Wait()
		if c.Cut == 0 {
			t.Judge()
		}
		for _, cl := range t.Clis {
			cl.Stop()
		}
		s.stop()
		time.Sleep(time.Minute)
		synctest.Wait()
		if poison != nil {
			if e := poison.Check(); e != "" {
				r.Failf("%s", e)
			}
			r.Class("poison")
			if poison.Fre > 3 {
				r.Class("poison-freed")
			}
		}
		if c.S.Pool || c.C.Pool {
			r.NonTrivial()
			r.Class("pooled")
		}
		if c.Cut > 0 {
			r.Class("cut")
		}
	})
}

var _ = fmt.Sprint

func init() {
	vkit.Register("C16", "alloc", vkit.Opts{Quick: 40000, Rule: "more than four operations"}, genC16alloc, runC16alloc)
	vkit.Register("C16", "traffic", vkit.Opts{Quick: 15000, Units: true, Rule: "pooling is enabled on at least one side"}, genC16traf, runC16traf)
}
