package etcd

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro/etcd"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

func TestVerif(t *testing.T) { vkit.Main(t) }

// C32: registers and discoveries over an in-process etcd.

type op struct {
	K    string
	Key  int
	Key2 int    `json:",omitempty"`
	V    string `json:",omitempty"`
	I    int    `json:",omitempty"`
	M    string `json:",omitempty"`
	Ch   []chg  `json:",omitempty"`
}

// chg is a change made by somebody else.
type chg struct {
	Del bool `json:",omitempty"`
	Key int
	V   string `json:",omitempty"`
}

type hcase struct {
	Prefix string
	Ops    []op
}

var prefixes = []string{"app/", "a", "app", "ünï/"}

// key names: most under the prefix, some not
func keyName(prefix string, k int) string {
	switch k {
	case 6:
		return "zzz/other"
	case 7:
		if len(prefix) > 1 {
			return prefix[:1]
		}
		return "b/x"
	case 5:
		return prefix
	}
	return fmt.Sprintf("%ssvc%d/%d", prefix, k/2, k%2)
}

func genValue(rt *rapid.T) string {
	return vkit.Pick(rt, "v", "1", "2", "127.0.0.1:1/3", "", "x y", "ü", strings.Repeat("v", 3000))
}

func genChanges(rt *rapid.T, lo, hi int) (cs []chg) {
	for i := vkit.Int(rt, lo, hi, "changes"); i > 0; i-- {
		c := chg{Del: vkit.Chance(rt, 45, "del"), Key: vkit.Int(rt, 0, 7, "ck")}
		if !c.Del {
			c.V = genValue(rt)
		}
		cs = append(cs, c)
	}
	return
}

func genH(rt *rapid.T) hcase {
	c := hcase{Prefix: vkit.Pick(rt, "prefix", prefixes...)}
	slow := 0
	for i := vkit.Int(rt, 1, 9, "ops"); i > 0; i-- {
		o := op{K: vkit.Pick(rt, "k", "reg", "reg", "reg", "stop", "stop", "regs", "regfail", "change", "change", "many", "disc", "disc", "race", "race", "discfail", "stopdisc", "dead", "drop", "outage"), Key: vkit.Int(rt, 0, 7, "key"), V: genValue(rt), I: vkit.Int(rt, 0, 5, "i")}
		switch o.K {
		case "drop", "outage":
			if slow++; slow > 1 {
				o.K = "change"
			}
			o.Ch = genChanges(rt, 0, 4)
			o.M = vkit.Pick(rt, "compact", "", "compact")
		case "many":
			o.I = vkit.Pick(rt, "many", 20, 60, 130)
		case "race":
			o.Ch = genChanges(rt, 1, 4)
		case "regfail":
			o.M = vkit.Pick(rt, "m", "grant", "lock", "get", "put")
			o.I = vkit.Int(rt, 1, 2, "nth")
		case "regs":
			o.Key2 = vkit.Int(rt, 0, 7, "key2")
			o.I = vkit.Int(rt, 2, 4, "n")
		}
		if o.K == "change" {
			o.Ch = genChanges(rt, 1, 4)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// rec is a service manager that only remembers.
type rec struct {
	mu   sync.Mutex
	m    map[string]string
	dead bool
	late int
}

func (x *rec) AddServiceNodes(path, value string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.m[path] = value
	if x.dead {
		x.late++
	}
}

func (x *rec) DeleteServiceNodes(path string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	delete(x.m, path)
	if x.dead {
		x.late++
	}
}

func (x *rec) ClientBy(string) (*arpc.Client, error) { return nil, nil }

func (x *rec) state() map[string]string {
	x.mu.Lock()
	defer x.mu.Unlock()
	m := map[string]string{}
	for k, v := range x.m {
		m[k] = v
	}
	return m
}

type disc struct {
	ds  *etcd.Discovery
	rec *rec
}

type world struct {
	r     *vkit.R
	f     *fake
	pfx   string
	regs  map[string]*etcd.Register
	discs []*disc
}

// until waits for cond.
func until(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(time.Millisecond) {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
	}
}

func show(m map[string]string) string { return vkit.Short(fmt.Sprint(m)) }

func (w *world) converge(what string, d time.Duration) {
	for i, x := range w.discs {
		var got, want map[string]string
		if !until(d, func() bool {
			got, want = x.rec.state(), w.f.keys(w.pfx)
			return reflect.DeepEqual(got, want)
		}) {
			w.r.Failf("%s: discovery %d knows %s, etcd has %s", what, i, show(got), show(want))
			return
		}
	}
}

func (w *world) change(cs []chg) {
	for _, c := range cs {
		k := keyName(w.pfx, c.Key)
		if _, own := w.regs[k]; own {
			continue
		}
		if c.Del {
			w.f.DelKeys(k)
		} else {
			w.f.PutKey(k, c.V)
		}
	}
}

// timed runs f, which must not take long.
func (w *world) timed(what string, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(40 * time.Second):
		w.r.Failf("%s did not return", what)
		return false
	}
}

const quickly = 8 * time.Second

func runH(r *vkit.R, c hcase) {
	w := &world{r: r, f: newFake(), pfx: c.Prefix, regs: map[string]*etcd.Register{}}
	f := w.f
	defer f.stop()
	newDisc := func(what string, before map[string]string) {
		x := &rec{m: map[string]string{}}
		var ds *etcd.Discovery
		var err error
		if !w.timed(what, func() { ds, err = etcd.NewDiscovery(f.endpoint(), w.pfx, x) }) {
			return
		}
		if err != nil {
			r.Failf("%s: %v", what, err)
			return
		}
		if before != nil {
			if got := x.state(); !reflect.DeepEqual(got, before) {
				r.Failf("%s: knows %s when it is ready, etcd has %s", what, show(got), show(before))
			}
		}
		w.discs = append(w.discs, &disc{ds, x})
	}
	for k, o := range c.Ops {
		if r.Failed() {
			break
		}
		what := fmt.Sprintf("op %d (%s)", k, o.K)
		key := keyName(w.pfx, o.Key)
		ttl := int64(60 + k)
		patience := quickly
		was := f.keys("")
		switch o.K {
		case "reg":
			var reg *etcd.Register
			var err error
			if !w.timed(what, func() { reg, err = etcd.NewRegister(f.endpoint(), key, o.V, ttl) }) {
				break
			}
			old, exists := was[key]
			if exists {
				r.Class("register-existing")
				r.NonTrivial()
				if err == nil {
					r.Failf("%s: registering %s, which exists, gave no error (register: %v)", what, vkit.Short(key), reg != nil)
				}
				if v := f.keys("")[key]; v != old {
					r.Failf("%s: a refused registration changed %s", what, vkit.Short(key))
				}
				break
			}
			if err != nil || reg == nil {
				r.Failf("%s: registering a new key failed: %v", what, err)
				break
			}
			w.regs[key] = reg
			v, ok := f.keys("")[key]
			if !ok || v != o.V {
				r.Failf("%s: %s was registered with %s, etcd has %v %s", what, vkit.Short(key), vkit.Short(o.V), ok, vkit.Short(v))
			}
			id, _ := f.holder(key)
			if id == 0 {
				r.Failf("%s: %s was registered without a lease", what, vkit.Short(key))
			} else if l := f.leases[id]; l.ttl != ttl {
				r.Failf("%s: the lease has a TTL of %d, want %d", what, l.ttl, ttl)
			}
			if !until(quickly, func() bool { _, n := f.holder(key); return n > 0 }) {
				r.Failf("%s: the lease is not kept alive", what)
			}
			r.Class("registered")
		case "regs":
			// several at once
			keys := []string{key, keyName(w.pfx, o.Key2)}
			type res struct {
				reg *etcd.Register
				err error
				v   string
			}
			out := make([]res, o.I)
			if !w.timed(what, func() {
				var wg sync.WaitGroup
				for i := range out {
					wg.Add(1)
					go func() {
						defer wg.Done()
						out[i].v = fmt.Sprintf("at once %d", i)
						out[i].reg, out[i].err = etcd.NewRegister(f.endpoint(), keys[i%2], out[i].v, ttl)
					}()
				}
				wg.Wait()
			}) {
				break
			}
			won := map[string]int{}
			for i, x := range out {
				if x.err == nil && x.reg == nil {
					r.Failf("%s: register %d is nil without an error", what, i)
				}
				if x.err == nil && x.reg != nil {
					won[keys[i%2]]++
					w.regs[keys[i%2]] = x.reg
					if v := f.keys("")[keys[i%2]]; v != x.v {
						r.Failf("%s: the winner registered %s, etcd has %s", what, x.v, vkit.Short(v))
					}
				}
			}
			for _, k := range keys {
				_, existed := was[k]
				if existed && won[k] != 0 || !existed && won[k] != 1 {
					r.Failf("%s: %d registrations of %s succeeded (it existed: %v)", what, won[k], vkit.Short(k), existed)
				}
			}
			r.Class("at-once")
			r.NonTrivial()
		case "regfail":
			n := len(w.regs) + len(w.discs)
			f.failNext(o.M, o.I)
			var reg *etcd.Register
			var err error
			if !w.timed(what, func() { reg, err = etcd.NewRegister(f.endpoint(), key, o.V, ttl) }) {
				break
			}
			f.clearFail()
			if err == nil && reg == nil {
				r.Failf("%s: neither a register nor an error (%s %d refused)", what, o.M, o.I)
				break
			}
			if err == nil {
				w.regs[key] = reg
				if v, ok := f.keys("")[key]; !ok || v != o.V {
					r.Failf("%s: said to be registered, etcd has %v %s", what, ok, vkit.Short(v))
				}
				break
			}
			r.Class("refused-%s", o.M)
			r.NonTrivial()
			if v, ok := f.keys("")[key]; ok != (v == was[key] && was[key] != "" || ok && was[key] == v) {
				r.Failf("%s: a failed registration left %s behind", what, vkit.Short(key))
			}
			if _, had := was[key]; !had {
				if _, ok := f.keys("")[key]; ok {
					r.Failf("%s: a failed registration left %s behind", what, vkit.Short(key))
				}
			}
			if !until(quickly, func() bool { return f.connections() <= n }) {
				r.Failf("%s: a failed registration left its connection open", what)
			}
		case "stop", "dead":
			var names []string
			for k := 0; k < 8; k++ {
				if _, ok := w.regs[keyName(w.pfx, k)]; ok {
					names = append(names, keyName(w.pfx, k))
				}
			}
			if len(names) == 0 {
				break
			}
			name := names[o.I%len(names)]
			reg := w.regs[name]
			delete(w.regs, name)
			if o.K == "dead" {
				// the lease ends although the register lives
				f.expire(name)
				w.converge(what, quickly)
			}
			var err error
			if !w.timed(what, func() { err = reg.Stop() }) {
				break
			}
			if err != nil && o.K == "stop" {
				r.Failf("%s: stopping the register of %s: %v", what, vkit.Short(name), err)
			}
			if _, ok := f.keys("")[name]; ok {
				r.Failf("%s: %s is still registered after Stop", what, vkit.Short(name))
			}
			r.Class("stopped")
		case "many":
			var cs []chg
			for i := 0; i < o.I; i++ {
				cs = append(cs, chg{Key: 10 + i, V: o.V, Del: o.Key == 7})
			}
			w.change(cs)
		case "change":
			w.change(o.Ch)
		case "disc":
			newDisc(what, f.keys(w.pfx))
			if len(was) > 0 {
				r.NonTrivial()
				r.Class("discovery-of-existing")
			}
		case "race":
			// changes while the new discovery waits for the list
			f.mu.Lock()
			f.onList = func() {
				w.change(o.Ch)
				f.delivered(10 * time.Millisecond)
			}
			f.mu.Unlock()
			newDisc(what, nil)
			f.mu.Lock()
			f.onList = nil
			f.mu.Unlock()
			r.Class("race")
			r.NonTrivial()
		case "discfail":
			n := len(w.regs) + len(w.discs)
			f.failNext("list", 1)
			x := &rec{m: map[string]string{}}
			var ds *etcd.Discovery
			var err error
			if !w.timed(what, func() { ds, err = etcd.NewDiscovery(f.endpoint(), w.pfx, x) }) {
				break
			}
			f.clearFail()
			if err == nil && ds == nil {
				r.Failf("%s: neither a discovery nor an error", what)
				break
			}
			if err == nil {
				// then it has to find out all the same
				w.discs = append(w.discs, &disc{ds, x})
				break
			}
			r.Class("refused-list")
			if !until(quickly, func() bool { return f.connections() <= n }) {
				r.Failf("%s: a failed discovery left its connection open", what)
			}
		case "stopdisc":
			if len(w.discs) == 0 {
				break
			}
			i := o.I % len(w.discs)
			x := w.discs[i]
			w.discs = append(w.discs[:i:i], w.discs[i+1:]...)
			var err error
			if !w.timed(what, func() { err = x.ds.Stop() }) {
				break
			}
			if err != nil {
				r.Failf("%s: %v", what, err)
			}
			time.Sleep(time.Millisecond)
			x.rec.mu.Lock()
			x.rec.dead = true
			x.rec.mu.Unlock()
			w.change([]chg{{Key: 0, V: "late"}, {Key: 0, Del: true}, {Key: 1, V: "late"}})
			time.Sleep(3 * time.Millisecond)
			x.rec.mu.Lock()
			if x.rec.late > 0 {
				r.Failf("%s: a stopped discovery still reports changes", what)
			}
			x.rec.mu.Unlock()
		case "drop":
			f.drop()
			w.change(o.Ch)
			patience = 60 * time.Second
			r.Class("connections-lost")
			r.NonTrivial()
		case "outage":
			if len(w.discs) == 0 && len(w.regs) == 0 {
				break
			}
			f.setRefused(true)
			f.drop()
			w.change(o.Ch)
			if o.M == "compact" {
				f.compactNow()
				r.Class("compacted")
			}
			f.setRefused(false)
			patience = 60 * time.Second
			r.Class("outage")
			r.NonTrivial()
		}
		if !r.Failed() {
			w.converge("after "+what, patience)
		}
	}
	var wg sync.WaitGroup
	for k, reg := range w.regs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			reg.Stop()
			if _, ok := f.keys("")[k]; ok && !r.Failed() {
				r.Failf("at the end: %s is still registered after Stop", vkit.Short(k))
			}
		}()
	}
	wg.Wait()
	if !r.Failed() {
		w.converge("at the end", 60*time.Second)
	}
	for _, x := range w.discs {
		x.ds.Stop()
	}
	if !r.Failed() && !until(quickly, func() bool { return f.connections() == 0 }) {
		r.Failf("at the end: %d connections to etcd are still open after everything was stopped", f.connections())
	}
}

// ---- leases: a register outlives an expired lease ----

type loss struct {
	Fail  []string // what etcd refuses at first when the register comes back
	Taken int      // >0: somebody else has the key for this many tenths of a second
}

type lcase struct {
	Regs []lreg
}

type lreg struct {
	TTL    int64
	Losses []loss
	V      string
	Stop   bool // stop while somebody else has the key
}

func genL(rt *rapid.T) (c lcase) {
	for i := vkit.Pick(rt, "regs", 1, 4, 6, 8); i > 0; i-- {
		c.Regs = append(c.Regs, genLreg(rt))
	}
	return
}

func genLreg(rt *rapid.T) lreg {
	c := lreg{TTL: int64(vkit.Int(rt, 1, 3, "ttl")), V: genValue(rt), Stop: vkit.Chance(rt, 25, "stop")}
	for i := vkit.Int(rt, 0, 2, "losses"); i > 0; i-- {
		l := loss{}
		for k := vkit.Pick(rt, "fails", 0, 1, 1, 2); k > 0; k-- {
			l.Fail = append(l.Fail, vkit.Pick(rt, "fail", "get", "grant", "txn", "put"))
		}
		if vkit.Chance(rt, 30, "taken") {
			l.Taken = vkit.Int(rt, 1, 30, "for")
		}
		c.Losses = append(c.Losses, l)
	}
	return c
}

func runL(r *vkit.R, c lcase) {
	f := newFake()
	defer f.stop()
	var regs []*etcd.Register
	for i, x := range c.Regs {
		reg, err := etcd.NewRegister(f.endpoint(), fmt.Sprintf("app/svc/%d", i), x.V, x.TTL)
		if err != nil || reg == nil {
			r.Failf("register: %v", err)
			return
		}
		regs = append(regs, reg)
	}
	var wg sync.WaitGroup
	for i, x := range c.Regs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runLreg(r, f, regs[i], fmt.Sprintf("app/svc/%d", i), x)
		}()
	}
	wg.Wait()
	if !r.Failed() && !until(quickly, func() bool { return f.connections() == 0 }) {
		r.Failf("connections are still open after Stop")
	}
}

func runLreg(r *vkit.R, f *fake, reg *etcd.Register, key string, c lreg) {
	if !until(60*time.Second, func() bool { _, n := f.holder(key); return n >= 3 }) {
		r.Failf("the lease is not renewed")
		return
	}
	for _, l := range c.Losses {
		for i, m := range l.Fail {
			f.failNext(m, i+1)
			r.Class("back-refused-%s", m)
		}
		other := ""
		if l.Taken > 0 {
			other = "somebody else"
		}
		if !f.expireTo(key, other) {
			r.Failf("no lease holds the key")
			break
		}
		if l.Taken > 0 {
			time.Sleep(time.Duration(l.Taken) * 100 * time.Millisecond)
			if v := f.keys("")[key]; v != other {
				r.Failf("the key has %s", vkit.Short(v))
			}
			f.DelKeys(key)
			r.Class("taken")
		}
		if !until(60*time.Second, func() bool { v, ok := f.keys("")[key]; return ok && v == c.V }) {
			r.Failf("the registration is gone for good after its lease expired, although the register was not stopped")
			break
		}
		if !until(60*time.Second, func() bool { _, n := f.holder(key); return n >= 2 }) {
			r.Failf("the new lease is not kept alive")
			break
		}
		r.Class("lease-lost")
		r.NonTrivial()
	}
	if c.Stop && !r.Failed() && f.expireTo(key, "somebody else") {
		time.Sleep(time.Duration(c.TTL) * 500 * time.Millisecond)
		r.Class("stopped-without-key")
		reg.Stop()
		time.Sleep(1500 * time.Millisecond)
		if v := f.keys("")[key]; v != "somebody else" {
			r.Failf("Stop of a register which had lost the key to somebody else left %s", vkit.Short(v))
		}
		f.DelKeys(key)
	} else if err := reg.Stop(); err != nil {
		r.Failf("stop: %v", err)
	}
	if !r.Failed() {
		time.Sleep(1500 * time.Millisecond)
		if _, ok := f.keys("")[key]; ok {
			r.Failf("still registered after Stop")
		}
	}
}

// ---- steady: registrations stay kept alive ----

type kcase struct {
	TTLs []int64
	Idle int // seconds
}

func genK(rt *rapid.T) kcase {
	return kcase{TTLs: rapid.SliceOfN(rapid.Int64Range(1, 9), 2, 6).Draw(rt, "ttls"), Idle: vkit.Int(rt, 6, 13, "idle")}
}

func runK(r *vkit.R, c kcase) {
	f := newFake()
	defer f.stop()
	var regs []*etcd.Register
	defer func() {
		for _, reg := range regs {
			reg.Stop()
		}
	}()
	key := func(i int) string { return fmt.Sprintf("app/svc/%d", i) }
	for i, ttl := range c.TTLs {
		reg, err := etcd.NewRegister(f.endpoint(), key(i), "1", ttl)
		if err != nil || reg == nil {
			r.Failf("register: %v", err)
			return
		}
		regs = append(regs, reg)
	}
	time.Sleep(time.Duration(c.Idle) * time.Second)
	first := make([]int, len(regs))
	for i := range regs {
		_, first[i] = f.holder(key(i))
	}
	for i := range regs {
		if !until(25*time.Second, func() bool { _, n := f.holder(key(i)); return n > first[i] }) {
			r.Failf("register %d (ttl %d s) no longer keeps its lease alive %d s after it registered", i, c.TTLs[i], c.Idle)
			return
		}
	}
	r.NonTrivial()
}

func init() {
	vkit.Register("C32", "steady", vkit.Opts{Quick: 8, Thorough: 64, Budget: 20 * time.Second, Rule: "registrations were kept alive over seconds of idleness"}, genK, runK)
	vkit.Register("C32", "history", vkit.Opts{Quick: 1000, Thorough: 20000, Budget: 25 * time.Second, Rule: "a key existed already, several registered at once, something was refused, lost, or changed while a discovery started"}, genH, runH)
	vkit.Register("C32", "lease", vkit.Opts{Quick: 24, Thorough: 200, Budget: 20 * time.Second, Rule: "a lease was lost"}, genL, runL)
}
