package vkit

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"
)

// Traffic is a generated mixed workload whose every payload is known at both
// ends: calls of all kinds, notifications, pushes, streams and broadcasts, in
// both directions, with content checks on arrival, after a delay inside the
// handler, and once more after everything else has happened.

type TOp struct {
	At   int
	K    string // call, callctx, async, notify, notifyctx, push, stream, bcast
	Back bool   `json:",omitempty"` // server -> client
	C    int    // which client
	V    Value  // request
	R    Value  // reply ("err": an error with that text)
	Slow int    `json:",omitempty"` // delay in the handler
	Sync bool   `json:",omitempty"` // handler registered as synchronous
	Tag  string `json:",omitempty"` // attached value
	N    int    `json:",omitempty"` // stream values each way
	Late bool   `json:",omitempty"` // the call gives up before the reply
	Mut  bool   `json:",omitempty"` // the caller overwrites its memory afterwards
}

// GenTOps draws a workload; tags are attached only when tagged.
func GenTOps(rt *rapid.T, max, clients, size int, tagged bool) []TOp {
	var ops []TOp
	for i := Int(rt, 1, max, "ops"); i > 0; i-- {
		o := TOp{At: Int(rt, 0, 4, "at"), K: Pick(rt, "kind", "call", "call", "callctx", "async", "async", "notify", "notifyctx", "push", "stream", "bcast"),
			Back: Chance(rt, 35, "back"), C: Int(rt, 0, clients-1, "client"), V: GenValue(rt, size, "v"), R: GenValue(rt, size, "r")}
		if Chance(rt, 20, "err") {
			o.R.K = "err"
		}
		if Chance(rt, 35, "slow") {
			o.Slow = Int(rt, 1, 30, "delay")
		}
		o.Sync = Chance(rt, 30, "sync")
		if o.K == "stream" {
			o.N = Int(rt, 1, 5, "values")
			o.Sync = false
		}
		if tagged && Chance(rt, 60, "tagged") {
			o.Tag = Pick(rt, "tag", "t", "some longer text", string(bytes.Repeat([]byte("x"), 300)))
		}
		if o.Slow > 0 && Chance(rt, 20, "late") {
			o.Late = true
		}
		o.Mut = Chance(rt, 40, "mut")
		ops = append(ops, o)
	}
	return ops
}

type tstate struct {
	handled int
	done    int
	last    int // stream values received by the handler side
	back    int
	maybe   bool // refused by the library: must not arrive
}

type Traffic struct {
	r    *R
	ops  []TOp
	key  string // key of attached values, "" when none is attached
	mu   sync.Mutex
	st   []tstate
	keep []func() string
	Clis []*arpc.Client // client ends
	Srvs []*arpc.Client // server ends, same order
	Srv  *arpc.Server
	// Want makes the request value of an op unique enough to be recognised.
	Bad   func(tag string) bool // tags that cannot be attached
	Bcast bool                  // broadcasts are possible (Srv is set)
}

func NewTraffic(r *R, ops []TOp, key string) *Traffic {
	return &Traffic{r: r, ops: ops, key: key, st: make([]tstate, len(ops))}
}

func tmethod(i int) string {
	if i%5 == 4 {
		return fmt.Sprintf("/a/longer/method/name/for/operation/%d", i)
	}
	return fmt.Sprintf("t%d", i)
}

func (t *Traffic) val(i, j int, back bool) Value {
	v := t.ops[i].V
	if back {
		v = t.ops[i].R
		if v.K == "err" {
			v.K = "str"
		}
	}
	v.B.S += 1000 * (j + 1)
	if v.B.N == 0 {
		v.B.N = 1 // an empty value is not a value of a stream
	}
	return v
}

// Setup registers the handlers of one side (back: the clients' side).
func (t *Traffic) Setup(h arpc.Handler, client bool) {
	for i := range t.ops {
		i, o := i, t.ops[i]
		atClient := o.Back || o.K == "bcast"
		if atClient != client {
			continue
		}
		m := tmethod(i)
		if o.K == "stream" {
			h.HandleStream(m, func(s *arpc.Stream) { t.streamHandler(i, s) }, true)
			continue
		}
		h.Handle(m, func(ctx *arpc.Context) {
			want := string(o.V.Wire())
			if got := string(ctx.Body()); got != want {
				t.r.Failf("op %d (%s): the handler got %s, want %s", i, o.K, Short(got), Short(want))
			}
			if err := o.V.Check(ctx.Bind); err != nil {
				t.r.Failf("op %d (%s): bind: %v", i, o.K, err)
			}
			if got := ctx.Message.Method(); got != m {
				t.r.Failf("op %d (%s): method %q, want %q", i, o.K, got, m)
			}
			if t.key != "" {
				v, ok := ctx.Get(t.key)
				if t.Bad != nil && t.Bad(o.Tag) {
					if ok {
						t.r.Failf("op %d (%s): attached value %v, although it cannot be attached", i, o.K, v)
					}
				} else if o.Tag == "" && ok || o.Tag != "" && v != o.Tag {
					t.r.Failf("op %d (%s): attached value %v, want %q", i, o.K, v, o.Tag)
				}
			}
			t.mu.Lock()
			t.st[i].handled++
			t.mu.Unlock()
			if o.Slow > 0 {
				time.Sleep(Us(o.Slow))
				if got := string(ctx.Body()); got != want {
					t.r.Failf("op %d (%s): the request body changed while the handler ran: %s, want %s", i, o.K, Short(got), Short(want))
				}
			}
			v := o.R.Go()
			ctx.Write(v)
			if o.Mut {
				Scramble(v)
				// the context is still the handler's
				for k := 0; k < 3; k++ {
					ctx.Set(fmt.Sprintf("later%d", k), o.Tag)
				}
			}
			if got := string(ctx.Body()); got != want {
				t.r.Failf("op %d (%s): the request body changed by responding: %s, want %s", i, o.K, Short(got), Short(want))
			}
		}, !o.Sync)
	}
}

// Scramble overwrites the memory of a value that was handed to the library.
func Scramble(v interface{}) {
	switch x := v.(type) {
	case []byte:
		for i := range x {
			x[i] = 0xAA
		}
		x = x[:cap(x)]
		for i := range x {
			x[i] = 0xAA
		}
	case *[]byte:
		Scramble(*x)
		*x = []byte("scrambled")
	case *string:
		*x = "scrambled"
	case *Obj:
		Scramble(x.L)
		*x = Obj{A: "scrambled"}
	}
}

func (t *Traffic) streamHandler(i int, s *arpc.Stream) {
	o := t.ops[i]
	t.mu.Lock()
	t.st[i].handled++
	t.mu.Unlock()
	for j := 0; j < o.N; j++ {
		v := t.val(i, j, false)
		if err := v.Check(s.Recv); err != nil {
			t.r.Failf("op %d: stream value %d at the handler: %v", i, j, err)
			return
		}
		t.mu.Lock()
		t.st[i].last++
		t.mu.Unlock()
		if o.Slow > 0 {
			time.Sleep(Us(o.Slow))
		}
		w := t.val(i, j, true)
		g := w.Go()
		if err := s.Send(g); err != nil {
			t.r.Failf("op %d: stream send %d by the handler: %v", i, j, err)
			return
		}
		if o.Mut {
			Scramble(g)
		}
	}
	var b []byte
	if err := s.Recv(&b); err != io.EOF {
		t.r.Failf("op %d: end of the stream at the handler: %v", i, err)
	}
	s.CloseSendContext(context.Background())
	s.CloseRecv()
}

func (t *Traffic) args(o TOp) []interface{} {
	if o.Tag == "" {
		return nil
	}
	return []interface{}{map[interface{}]interface{}{t.key: o.Tag}}
}

// reply checks a reply given a function that makes the call into a variable.
func (t *Traffic) reply(i int, call func(rsp interface{}) error) {
	o := t.ops[i]
	if o.R.K == "err" {
		var s string
		err := call(&s)
		if err == nil || err.Error() != string(o.R.Wire()) {
			t.r.Failf("op %d (%s): error %v, want %s", i, o.K, err, Short(string(o.R.Wire())))
		}
		return
	}
	var keep func() string
	err := o.R.Check(func(rsp interface{}) error {
		err := call(rsp)
		switch x := rsp.(type) {
		case *[]byte:
			want, got := append([]byte(nil), *x...), *x
			keep = func() string {
				if !bytes.Equal(got, want) {
					return fmt.Sprintf("op %d (%s): the response the caller holds changed afterwards to %s", i, o.K, Short(string(got)))
				}
				return ""
			}
		case *Obj:
			b, _ := json.Marshal(x)
			keep = func() string {
				if g, _ := json.Marshal(x); !bytes.Equal(g, b) {
					return fmt.Sprintf("op %d (%s): the response object the caller holds changed afterwards", i, o.K)
				}
				return ""
			}
		case *string:
			want, got := string(append([]byte(nil), *x...)), *x
			keep = func() string {
				if got != want {
					return fmt.Sprintf("op %d (%s): the response string the caller holds changed afterwards to %s", i, o.K, Short(got))
				}
				return ""
			}
		}
		return err
	})
	if err != nil {
		t.r.Failf("op %d (%s): reply: %v", i, o.K, err)
		return
	}
	if keep != nil {
		t.mu.Lock()
		t.keep = append(t.keep, keep)
		t.mu.Unlock()
	}
}

func (t *Traffic) one(i int, wait time.Duration) {
	o := t.ops[i]
	c := t.Clis[o.C%len(t.Clis)]
	if o.Back {
		c = t.Srvs[o.C%len(t.Srvs)]
	}
	m := tmethod(i)
	v := o.V.Go()
	args := t.args(o)
	to := wait
	if o.Late {
		to = Us(o.Slow)/2 + 1
	}
	defer func() {
		t.mu.Lock()
		t.st[i].done++
		t.mu.Unlock()
	}()
	mut := func() {
		if o.Mut {
			Scramble(v)
		}
	}
	ok := func(err error) {
		if err != nil {
			t.r.Failf("op %d (%s): %v", i, o.K, err)
		}
	}
	switch o.K {
	case "call", "callctx":
		do := func(rsp interface{}) error {
			var err error
			if o.K == "call" {
				err = c.Call(m, v, rsp, to, args...)
			} else {
				ctx, cancel := context.WithTimeout(context.Background(), to)
				defer cancel()
				err = c.CallWith(ctx, m, v, rsp, args...)
			}
			mut()
			return err
		}
		if o.Late {
			var b []byte
			if err := do(&b); err != arpc.ErrClientTimeout {
				t.r.Failf("op %d (%s): a call whose handler takes longer ended with %v", i, o.K, err)
			}
			return
		}
		t.reply(i, do)
	case "async":
		ch := make(chan struct{})
		err := c.CallAsync(m, v, func(ctx *arpc.Context, err error) {
			defer close(ch)
			if o.Late {
				if err != arpc.ErrTimeout {
					t.r.Failf("op %d (async): late callback: %v", i, err)
				}
				return
			}
			if o.R.K == "err" {
				if err == nil || err.Error() != string(o.R.Wire()) {
					t.r.Failf("op %d (async): error %v, want %s", i, err, Short(string(o.R.Wire())))
				}
				return
			}
			if err != nil {
				t.r.Failf("op %d (async): %v", i, err)
				return
			}
			if err := o.R.Check(ctx.Bind); err != nil {
				t.r.Failf("op %d (async): reply: %v", i, err)
			}
			if got := string(ctx.Body()); got != string(o.R.Wire()) {
				t.r.Failf("op %d (async): body %s", i, Short(got))
			}
		}, to, args...)
		mut()
		if err != nil {
			if !o.Late {
				ok(err)
			}
			return
		}
		<-ch
	case "notify":
		err := c.Notify(m, v, wait, args...)
		mut()
		ok(err)
	case "notifyctx":
		ctx, cancel := context.WithTimeout(context.Background(), wait)
		err := c.NotifyContext(ctx, m, v, args...)
		cancel()
		mut()
		ok(err)
	case "push":
		msg := c.NewMessage(arpc.CmdNotify, m, v, args...)
		mut()
		ok(c.PushMsg(msg, wait))
	case "bcast":
		if t.Srv == nil {
			return
		}
		t.Srv.Broadcast(m, v, args...)
		mut()
	case "stream":
		s := c.NewStream(m)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < o.N; j++ {
				w := t.val(i, j, true)
				if err := w.Check(s.Recv); err != nil {
					t.r.Failf("op %d: stream value %d at the opener: %v", i, j, err)
					return
				}
				t.mu.Lock()
				t.st[i].back++
				t.mu.Unlock()
			}
			var b []byte
			if err := s.Recv(&b); err != io.EOF {
				t.r.Failf("op %d: end of the stream at the opener: %v", i, err)
			}
			s.CloseRecv()
		}()
		for j := 0; j < o.N; j++ {
			g := t.val(i, j, false).Go()
			var err error
			if j == o.N-1 && o.Sync {
				err = s.SendAndClose(g)
			} else {
				err = s.Send(g)
			}
			if o.Mut {
				Scramble(g)
			}
			if err != nil {
				t.r.Failf("op %d: stream send %d: %v", i, j, err)
				break
			}
		}
		s.CloseSendContext(context.Background())
		wg.Wait()
	}
}

// Run executes the workload and judges it; wait bounds every operation.
func (t *Traffic) Run(wait time.Duration) {
	start := time.Now()
	var wg sync.WaitGroup
	for i := range t.ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if d := time.Until(start.Add(Us(20 * t.ops[i].At))); d > 0 {
				time.Sleep(d)
			}
			t.one(i, wait)
		}()
	}
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	tm := time.NewTimer(wait + wait/2)
	defer tm.Stop()
	select {
	case <-ch:
	case <-tm.C:
		t.mu.Lock()
		for i := range t.ops {
			if t.st[i].done == 0 {
				t.r.Failf("op %d (%s) never ended", i, t.ops[i].K)
			}
		}
		t.mu.Unlock()
	}
}

// Settled tells whether everything expected was handled.
func (t *Traffic) Settled() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i, o := range t.ops {
		want := 1
		if o.K == "bcast" {
			want = len(t.Clis)
			if t.Srv == nil {
				want = 0
			}
		}
		if t.st[i].handled < want {
			return false
		}
	}
	return true
}

// Judge compares the counts; call it when everything is quiet.
func (t *Traffic) Judge() {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i, o := range t.ops {
		want := 1
		if o.K == "bcast" {
			want = len(t.Clis)
			if t.Srv == nil {
				want = 0
			}
		}
		if t.st[i].handled != want {
			t.r.Failf("op %d (%s): handled %d times, want %d", i, o.K, t.st[i].handled, want)
		}
	}
	for _, k := range t.keep {
		if s := k(); s != "" {
			t.r.Failf("%s", s)
		}
	}
}

var ErrTraffic = errors.New("traffic")
