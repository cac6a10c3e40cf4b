package core

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/lesismal/arpc/log"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C30: the log package against a model of level and current logger.

type c30op struct {
	K    string // level, llevel, log, mlog, replace, none, restore, sleep, par
	N    int
	L    int // 1 debug .. 4 error
	F    int // format
	A    []vkit.Value
	Nums []int
}

type c30case struct {
	Level int
	TF    string
	Ops   []c30op
}

var c30formats = []string{"plain", "", "%v", "%s and %d", "100%%", "%v\t%v", "line1\nline2", "%q", "[%08x]", "%d%%", "%v %v %v", "%s%s", "[DBG] [ERR] inside", "ünï %v"}

func genC30(rt *rapid.T) c30case {
	c := c30case{Level: vkit.Int(rt, 0, 5, "level"), TF: vkit.Pick(rt, "tf", "2006/01/02 15:04:05.000", "2006/01/02 15:04:05.000", "15:04:05", "", "Jan _2 2006 15:04:05.000000")}
	for i := vkit.Int(rt, 1, 14, "ops"); i > 0; i-- {
		o := c30op{K: vkit.Pick(rt, "k", "level", "level", "llevel", "log", "log", "log", "log", "mlog", "replace", "none", "restore", "sleep", "par"), L: vkit.Int(rt, 1, 4, "l"), F: vkit.Int(rt, 0, len(c30formats)-1, "f")}
		switch o.K {
		case "level", "llevel":
			o.N = vkit.Pick(rt, "n", 0, 1, 2, 3, 4, 5, -1, 6, 7, 100, -1<<31)
		case "sleep", "par":
			o.N = vkit.Int(rt, 2, 6, "n")
		}
		for j := vkit.Int(rt, 0, 4, "args"); j > 0; j-- {
			if vkit.Bool(rt, "num") {
				o.Nums = append(o.Nums, vkit.Int(rt, -5, 1000, "num"))
			} else {
				o.A = append(o.A, vkit.Value{K: vkit.Pick(rt, "ak", "str", "bytes", "err", "nil"), B: vkit.GenBlob(rt, 40, "a")})
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func (o c30op) args() []interface{} {
	var out []interface{}
	for _, v := range o.A {
		out = append(out, v.Go())
	}
	for _, n := range o.Nums {
		out = append(out, n)
	}
	// surplus arguments are the caller's mistake
	f := strings.ReplaceAll(c30formats[o.F], "%%", "")
	if n := strings.Count(f, "%"); len(out) > n {
		out = out[:n]
	}
	return out
}

// c30writer records every Write call on its own.
type c30writer struct {
	mu sync.Mutex
	w  []string
}

func (w *c30writer) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.w = append(w.w, string(b))
	return len(b), nil
}

func (w *c30writer) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	x := w.w
	w.w = nil
	return x
}

type c30rec struct {
	mu sync.Mutex
	w  []string
}

func (x *c30rec) add(k string, f string, v []interface{}) {
	if len(v) == 0 {
		v = nil
	}
	x.mu.Lock()
	x.w = append(x.w, fmt.Sprintf("%s|%s|%d|%#v", k, f, len(v), v))
	x.mu.Unlock()
}
func (x *c30rec) SetLevel(l int)                   { x.add("level", fmt.Sprint(l), nil) }
func (x *c30rec) Debug(f string, v ...interface{}) { x.add("1", f, v) }
func (x *c30rec) Info(f string, v ...interface{})  { x.add("2", f, v) }
func (x *c30rec) Warn(f string, v ...interface{})  { x.add("3", f, v) }
func (x *c30rec) Error(f string, v ...interface{}) { x.add("4", f, v) }
func (x *c30rec) take() []string                   { x.mu.Lock(); defer x.mu.Unlock(); y := x.w; x.w = nil; return y }

func runC30(r *vkit.R, c c30case) {
	orig, oout, otf := log.DefaultLogger, log.Output, log.TimeFormat
	out := &c30writer{}
	log.Output = out
	log.TimeFormat = c.TF
	defer func() {
		log.Output, log.TimeFormat = oout, otf
		log.SetLogger(orig)
		log.SetLevel(log.LevelNone)
	}()
	tags := []string{"", "[DBG]", "[INF]", "[WRN]", "[ERR]"}
	r.Bubble(func() {
		rec := &c30rec{}
		cur := "own"
		log.SetLevel(c.Level)
		level := c.Level
		if x := out.take(); len(x) > 0 {
			r.Failf("setting level %d printed %q", c.Level, x)
		}
		for k, o := range c.Ops {
			if r.Failed() {
				break
			}
			f, args := c30formats[o.F], o.args()
			pkg := []func(string, ...interface{}){nil, log.Debug, log.Info, log.Warn, log.Error}[o.L]
			line := func() string {
				return time.Now().Format(c.TF) + " " + tags[o.L] + " " + fmt.Sprintf(f, args...) + "\n"
			}
			switch o.K {
			case "level":
				if cur == "none" {
					continue
				}
				log.SetLevel(o.N)
				valid := o.N >= 0 && o.N <= 5
				if cur == "rec" {
					x := rec.take()
					if valid && (len(x) != 1 || x[0] != (fmt.Sprintf("level|%d|0|%#v", o.N, []interface{}(nil)))) {
						r.Failf("op %d: SetLevel(%d) reached the replaced logger as %q", k, o.N, x)
					}
					if !valid && len(x) > 0 {
						r.Failf("op %d: invalid SetLevel(%d) reached the replaced logger: %q", k, o.N, x)
					}
				} else if valid {
					level = o.N
				} else {
					r.Class("invalid-level")
				}
				x := out.take()
				if valid && len(x) > 0 {
					r.Failf("op %d: setting level %d printed %q", k, o.N, x)
				}
				for _, s := range x {
					for _, t := range tags[1:] {
						if bytes.Contains([]byte(s), []byte(t)) {
							r.Failf("op %d: SetLevel(%d) printed the log line %q", k, o.N, s)
						}
					}
				}
			case "llevel":
				orig.SetLevel(o.N)
				if o.N >= 0 && o.N <= 5 {
					level = o.N
				}
				out.take()
			case "log", "mlog":
				own := cur == "own"
				if o.K == "mlog" {
					own = true
					pkg = []func(string, ...interface{}){nil, orig.Debug, orig.Info, orig.Warn, orig.Error}[o.L]
				}
				pkg(f, args...)
				got := out.take()
				switch {
				case own && o.L >= level:
					if len(got) != 1 || got[0] != line() {
						r.Failf("op %d: level %d: a %s call gave %q, want %q", k, level, tags[o.L], got, line())
					}
					r.Class("printed-%d", o.L)
					r.NonTrivial()
				case own:
					if len(got) != 0 {
						r.Failf("op %d: level %d: a %s call printed %q", k, level, tags[o.L], got)
					}
					r.Class("filtered-%d", o.L)
					r.NonTrivial()
				default:
					if len(got) != 0 {
						r.Failf("op %d: the replaced logger's output went to %q", k, got)
					}
				}
				x := rec.take()
				if cur == "rec" && o.K == "log" {
					want := fmt.Sprintf("%d|%s|%d|%#v", o.L, f, len(args), args)
					if len(args) == 0 {
						want = fmt.Sprintf("%d|%s|%d|%#v", o.L, f, 0, []interface{}(nil))
					}
					if len(x) != 1 || x[0] != want && !(len(args) > 0 && hasPointer(args)) {
						r.Failf("op %d: the replaced logger got %q, want %q", k, x, want)
					}
					r.Class("replaced")
				} else if len(x) > 0 {
					r.Failf("op %d: the replaced logger got %q", k, x)
				}
			case "replace":
				log.SetLogger(rec)
				cur = "rec"
			case "none":
				log.SetLogger(nil)
				cur = "none"
				r.Class("no-logger")
			case "restore":
				log.SetLogger(orig)
				cur = "own"
			case "sleep":
				time.Sleep(time.Duration(o.N) * 1234567 * time.Microsecond)
			case "par":
				if cur != "own" {
					continue
				}
				var wg sync.WaitGroup
				want := line()
				for g := 0; g < o.N; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 5; i++ {
							pkg(f, args...)
						}
					}()
				}
				wg.Wait()
				got := out.take()
				n := 0
				if o.L >= level {
					n = o.N * 5
				}
				if len(got) != n {
					r.Failf("op %d: %d concurrent calls wrote %d times, want %d lines", k, o.N*5, len(got), n)
				}
				for _, g := range got {
					if g != want {
						r.Failf("op %d: concurrent calls wrote %q, want %q", k, g, want)
					}
				}
				r.Class("concurrent")
			}
		}
	})
}

// hasPointer: %#v of an error shows an address, equal only within one value.
func hasPointer(args []interface{}) bool {
	for _, a := range args {
		if _, ok := a.(error); ok {
			return true
		}
	}
	return false
}

func init() {
	vkit.Register("C30", "levels", vkit.Opts{Quick: 60000, Rule: "a log call was printed or filtered by level"}, genC30, runC30)
}
