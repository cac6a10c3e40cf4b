package core

import (
	"bufio"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C29: the JavaScript client in a node process, its socket, HTTP and timers
// replaced by a scripted peer with a virtual clock.

//go:embed js/runner.js
var c29runner string

const c29src = "/repo/extension/jsclient/arpc.js"

type c29frame struct {
	K    string // rsp, note, req, ping, pong, odd
	Call int
	M    string
	P    string // payload
	Err  bool
	Seq  uint64
	Hex  string // filled in by the run
}

type c29op struct {
	K     string
	D     int // ms to wait before it
	M     string
	Arg   string // JSON
	Undef bool
	T     int
	Cb    bool
	Call  int
	F     []c29frame `json:",omitempty"`
}

type c29case struct {
	Seq      uint64
	Handlers []string
	Boom     string
	Ops      []c29op
	Tail     int
}

var c29methods = []string{"a", "/echo", "constructor", "получить", "方法", strings.Repeat("m", 127), "x y", "é", "toString", "__proto__"}

func genC29(rt *rapid.T) c29case {
	c := c29case{Seq: vkit.Pick(rt, "seq", uint64(0), 0, 250, 65530, 1<<31-2, 1<<32-3), Handlers: c29methods[:vkit.Int(rt, 0, 5, "handlers")], Tail: vkit.Pick(rt, "tail", 0, 10, 1000)}
	if vkit.Chance(rt, 15, "boom") {
		c.Boom = c29methods[vkit.Int(rt, 0, len(c29methods)-1, "boomm")]
	}
	method := func() string { return c29methods[vkit.Int(rt, 0, len(c29methods)-1, "m")] }
	payload := func() string {
		switch vkit.Int(rt, 0, 8, "pk") {
		case 0:
			return ""
		case 1:
			return fmt.Sprintf(`{"n":%d,"s":"%s"}`, vkit.Int(rt, 0, 1000, "pn"), vkit.Pick(rt, "ps", "", "q", "ü", "日本"))
		case 2:
			return fmt.Sprint(vkit.Int(rt, -5, 100000, "pn"))
		case 3:
			return vkit.Pick(rt, "plit", "null", "true", "false", "[]", "{}", `"quoted"`, "[1,[2,{}]]")
		case 4:
			return "text " + strings.Repeat("ж", vkit.Int(rt, 0, 300, "pl"))
		case 5:
			return strings.Repeat("x", vkit.Pick(rt, "pl", 1, 230, 300, 65536, 70000))
		}
		return fmt.Sprintf("answer %d", vkit.Int(rt, 0, 99, "pn"))
	}
	arg := func(o *c29op) {
		switch vkit.Int(rt, 0, 9, "ak") {
		case 0:
			o.Undef = true
		case 1:
			o.Arg = vkit.Pick(rt, "alit", "0", "false", `""`, "null", "true", "[]", "{}", "1.5", "-7")
		case 2:
			b, _ := json.Marshal(strings.Repeat("ю", vkit.Int(rt, 0, 200, "al")))
			o.Arg = string(b)
		case 3:
			b, _ := json.Marshal(strings.Repeat("z", vkit.Pick(rt, "al", 0, 239, 240, 70000)))
			o.Arg = string(b)
		default:
			b, _ := json.Marshal(map[string]interface{}{"i": vkit.Int(rt, 0, 1000, "ai"), "s": vkit.Pick(rt, "as", "", "plain", "日本", "q\"\\")})
			o.Arg = string(b)
		}
		if !o.Undef && o.Arg == "" {
			o.Arg = "null"
		}
	}
	delay := func() int { return vkit.Pick(rt, "d", 0, 0, 0, 1, 9, 10, 11, 100) }
	calls := 0
	frame := func() c29frame {
		f := c29frame{K: vkit.Pick(rt, "fk", "rsp", "rsp", "rsp", "rsp", "note", "req", "ping", "pong", "odd"), M: method(), P: payload(), Err: vkit.Chance(rt, 25, "ferr")}
		if f.K == "rsp" {
			if calls == 0 {
				f.K = "note"
			} else {
				f.Call = vkit.Int(rt, 0, calls-1, "fc")
			}
		}
		if f.K != "rsp" {
			f.Seq = vkit.Pick(rt, "fs", uint64(0), 1, 77, 1<<20, 1<<40)
		}
		return f
	}
	if vkit.Chance(rt, 90, "first") {
		c.Ops = append(c.Ops, c29op{K: "open"})
	}
	for i := vkit.Int(rt, 1, 25, "ops"); i > 0; i-- {
		o := c29op{K: vkit.Pick(rt, "k", "call", "call", "call", "call", "call", "call", "notify", "rx", "rx", "rx", "rx", "rx", "close", "closing", "open", "open", "ping", "keepalive", "shutdown", "callHttp", "callHttp", "notifyHttp", "httprsp", "httprsp"), D: delay()}
		if o.K == "shutdown" && i > 6 || o.K == "keepalive" && vkit.Chance(rt, 50, "ka") {
			o.K = "call"
		}
		switch o.K {
		case "call", "callHttp":
			o.M, o.T, o.Cb = method(), vkit.Pick(rt, "t", 0, 0, 10, 10, 50, 1000), vkit.Chance(rt, 40, "cb")
			arg(&o)
			calls++
		case "notify", "notifyHttp":
			o.M = method()
			arg(&o)
		case "keepalive":
			o.T = vkit.Pick(rt, "kt", 5, 20, 0)
		case "rx":
			for j := vkit.Pick(rt, "group", 1, 1, 2, 3, 5); j > 0; j-- {
				o.F = append(o.F, frame())
			}
		case "httprsp":
			if calls == 0 {
				continue
			}
			o.Call = vkit.Int(rt, 0, calls-1, "hc")
			o.T = vkit.Pick(rt, "status", 200, 200, 200, 500, 404, 0)
			if o.T == 200 {
				f := frame()
				f.K, f.Call = "rsp", o.Call
				o.F = []c29frame{f}
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// ---- the node process ----

type c29node struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan string
}

var theNode *c29node

func startNode() *c29node {
	dir, err := os.MkdirTemp("", "verif-js")
	if err != nil {
		panic(err)
	}
	file := filepath.Join(dir, "runner.js")
	os.WriteFile(file, []byte(c29runner), 0o644)
	n := &c29node{cmd: exec.Command("node", file, c29src), out: make(chan string, 1)}
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	n.in, _ = n.cmd.StdinPipe()
	o, _ := n.cmd.StdoutPipe()
	n.cmd.Stderr = os.Stderr
	if err := n.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "node:", err)
		os.Exit(3)
	}
	go func() {
		rd := bufio.NewReaderSize(o, 1<<20)
		for {
			s, err := rd.ReadString('\n')
			if err != nil {
				os.RemoveAll(dir)
				close(n.out)
				return
			}
			n.out <- s
		}
	}()
	return n
}

type c29ev struct {
	E, Hex, M, U, Want, Where, Msg string
	T, K, Ws, Call, Op             int
	Used                           []int
	Data, Err, V                   json.RawMessage
}

func c29run(c c29case) (evs []c29ev, problem string) {
	for try := 0; ; try++ {
		if theNode == nil {
			theNode = startNode()
		}
		b, _ := json.Marshal(c)
		theNode.in.Write(append(b, '\n'))
		select {
		case s, ok := <-theNode.out:
			if !ok {
				theNode = nil
				if try < 1 {
					continue
				}
				return nil, "the node process died"
			}
			var doc struct {
				Trace []c29ev
				Fatal string
			}
			if err := json.Unmarshal([]byte(s), &doc); err != nil {
				return nil, "unreadable trace: " + err.Error()
			}
			return doc.Trace, doc.Fatal
		case <-time.After(60 * time.Second):
			theNode.cmd.Process.Kill()
			theNode = nil
			return nil, "the client hangs"
		}
	}
}

// c29decode is what the client's codec makes of a payload.
func c29decode(p string) interface{} {
	var v interface{}
	if json.Unmarshal([]byte(p), &v) == nil {
		return v
	}
	return p
}

func c29same(raw json.RawMessage, want interface{}) bool {
	var v interface{}
	if len(raw) > 0 {
		if json.Unmarshal(raw, &v) != nil {
			return false
		}
	}
	return reflect.DeepEqual(v, want)
}

// c29arg is the payload an argument has to be sent as; ok tells whether it is
// to be compared as JSON.
func (o c29op) payload() (p string, isJSON bool) {
	if o.Undef || o.Arg == "null" {
		return "", false
	}
	var s string
	if json.Unmarshal([]byte(o.Arg), &s) == nil {
		return s, false
	}
	return o.Arg, true
}

func runC29(r *vkit.R, c c29case) {
	known := map[string]bool{}
	for _, m := range c.Handlers {
		known[m] = true
	}
	for i := range c.Ops {
		for j := range c.Ops[i].F {
			f := &c.Ops[i].F[j]
			fr := vkit.Frame{Method: f.M, Data: []byte(f.P), Seq: f.Seq}
			switch f.K {
			case "rsp":
				fr.Cmd = vkit.CResponse
				if f.Err {
					fr.Flag = vkit.FlagError
				}
			case "note":
				fr.Cmd = vkit.CNotify
			case "req":
				fr.Cmd = vkit.CRequest
			case "ping":
				fr = vkit.Frame{Cmd: vkit.CPing}
			case "pong":
				fr = vkit.Frame{Cmd: vkit.CPong}
			case "odd":
				// a response nobody waits for
				fr.Cmd = vkit.CResponse
				fr.Seq = 0x7000_0000 + f.Seq
			}
			f.Hex = hex.EncodeToString(fr.Encode())
		}
	}
	evs, problem := c29run(c)
	if problem != "" {
		r.Failf("%s", problem)
		return
	}
	// the model
	type call struct {
		op      c29op
		state   string // waiting, done
		sent    bool
		http    bool
		at      int
		due     int // 0: none
		wantErr interface{}
		want    interface{}
		got     int
		anyErr  bool
		free    bool // answered over HTTP or ended by the shutdown
	}
	var calls []*call
	var ops []c29op // calls in order
	for _, o := range c.Ops {
		if o.K == "call" || o.K == "callHttp" {
			ops = append(ops, o)
		}
	}
	state := "connecting"
	var handled []c29frame // handler invocations to come
	pongs, sends := 0, 0
	var notes []c29op
	noteAt := 0
	for _, o := range c.Ops {
		if o.K == "notify" || o.K == "notifyHttp" {
			notes = append(notes, o)
		}
	}
	seqs := map[uint64]bool{}
	timer := func(t int) {
		// calls whose time is up before t
		var due []*call
		for _, q := range calls {
			if q.state == "waiting" && q.due > 0 && q.due <= t {
				due = append(due, q)
			}
		}
		sort.SliceStable(due, func(i, j int) bool { return due[i].due < due[j].due })
		for _, q := range due {
			q.state, q.want, q.wantErr = "done", nil, "timeout"
		}
	}
	answer := func(q *call, f c29frame) {
		if q.state != "waiting" {
			return
		}
		q.state = "done"
		if f.Err {
			q.want, q.wantErr = nil, c29decode(f.P)
		} else {
			q.want, q.wantErr = c29decode(f.P), nil
		}
	}
	lost := func() {
		for _, q := range calls {
			if q.state == "waiting" {
				q.state, q.want, q.wantErr, q.anyErr = "done", nil, "disconnected", true
			}
		}
	}
	checkFrame := func(e c29ev, cmd byte, o *c29op) {
		b, _ := hex.DecodeString(e.Hex)
		f, rest, err := vkit.DecodeFrame(b)
		if err != nil || len(rest) > 0 {
			r.Failf("an invalid frame was sent: %x (%v, %d bytes too many)", b[:min(len(b), 64)], err, len(rest))
			return
		}
		if f.Cmd != cmd || f.Reserved != 0 || f.Flag != 0 {
			r.Failf("frame %v, want command %d and no flags", f, cmd)
		}
		if o == nil {
			if f.Method != "" || len(f.Data) > 0 {
				r.Failf("frame %v, want neither method nor data", f)
			}
			return
		}
		p, isJSON := o.payload()
		if f.Method != o.M {
			r.Failf("frame %v, want method %q", f, o.M)
		}
		if isJSON {
			if !utf8.Valid(f.Data) || !c29same(f.Data, c29decode(p)) || !json.Valid(f.Data) {
				r.Failf("frame %v, want data %s", f, vkit.Short(p))
			}
		} else if string(f.Data) != p {
			r.Failf("frame %v, want data %q", f, vkit.Short(p))
		}
		if cmd == vkit.CRequest {
			if seqs[f.Seq] {
				r.Failf("sequence number %d was used for two calls", f.Seq)
			}
			seqs[f.Seq] = true
		}
	}
	for _, e := range evs {
		timer(e.T)
		switch e.E {
		case "opened":
			if state != "closed" {
				state = "open"
			}
		case "closed":
			lost()
			if state != "closed" {
				state = "connecting"
			}
			r.Class("closed")
		case "shutdown":
			for _, q := range calls {
				q.free = q.free || q.state == "waiting" && q.http
			}
			lost()
			if state == "open" {
				r.Class("shutdown")
			}
			state = "closed"
		case "call":
			q := &call{op: ops[e.K], at: e.T, state: "waiting", http: ops[e.K].K == "callHttp"}
			calls = append(calls, q)
			if q.op.T > 0 {
				q.due = e.T + q.op.T
			}
			if state != "open" {
				q.state, q.wantErr, q.anyErr = "done", "state", true
			}
		case "tx":
			switch {
			case e.Call >= 0:
				q := calls[e.Call]
				if q.sent {
					r.Failf("call %d was sent twice", e.Call)
				}
				q.sent = true
				if q.http {
					r.Failf("call %d is over HTTP but was sent over the socket", e.Call)
				}
				checkFrame(e, vkit.CRequest, &q.op)
			default:
				b, _ := hex.DecodeString(e.Hex)
				if len(b) >= 16 && b[5] == vkit.CNotify {
					if noteAt >= len(notes) {
						r.Failf("a notification too many")
						break
					}
					checkFrame(e, vkit.CNotify, &notes[noteAt])
				} else if len(b) >= 16 && b[5] == vkit.CPong {
					pongs--
					checkFrame(e, vkit.CPong, nil)
				} else {
					checkFrame(e, vkit.CPing, nil)
				}
			}
			sends++
		case "http":
			if e.M != "POST" || e.U != "/rpc" {
				r.Failf("the HTTP request was a %s of %q, not a POST of /rpc", e.M, e.U)
			}
			if e.Call >= 0 {
				calls[e.Call].sent = true
				checkFrame(e, vkit.CRequest, &calls[e.Call].op)
			} else if noteAt < len(notes) {
				checkFrame(e, vkit.CNotify, &notes[noteAt])
			}
		case "ret":
			isErr := len(e.V) > 0 && string(e.V) != "null"
			if c.Ops[e.Op].K == "notify" && isErr != (state != "open") {
				r.Failf("notify returned %s in state %s", e.V, state)
			}
			noteAt++
		case "rx":
			for _, j := range e.Used {
				f := c.Ops[e.Op].F[j]
				switch f.K {
				case "rsp":
					if calls[f.Call].sent {
						answer(calls[f.Call], f)
					}
				case "note", "req":
					if known[f.M] {
						handled = append(handled, f)
					}
				case "ping":
					pongs++
				}
			}
			if len(e.Used) > 1 {
				r.Class("group")
				r.NonTrivial()
			}
		case "httprsp":
			o := c.Ops[e.Op]
			if len(o.F) > 0 {
				answer(calls[o.Call], o.F[0])
			} else if q := calls[o.Call]; q.state == "waiting" {
				q.state, q.want, q.wantErr, q.anyErr = "done", nil, "http", true
			}
			r.Class("http %d", o.T)
		case "h":
			if len(handled) == 0 {
				r.Failf("handler %q was called without a message for it", e.Want)
				break
			}
			f := handled[0]
			handled = handled[1:]
			if e.Want != f.M || e.M != f.M {
				r.Failf("handler of %q was called for a message of method %q (%q)", e.Want, f.M, e.M)
			}
			if !c29same(e.Data, c29decode(f.P)) {
				r.Failf("handler of %q got %s, the data was %q", e.Want, vkit.Short(string(e.Data)), vkit.Short(f.P))
			}
		case "res":
			q := calls[e.K]
			q.got++
			if q.got > 1 {
				r.Failf("call %d was resolved %d times", e.K, q.got)
			}
			if q.state != "done" {
				r.Failf("call %d was resolved with %s / %s at %d although nothing had answered it", e.K, vkit.Short(string(e.Data)), e.Err, e.T)
				break
			}
			isErr := len(e.Err) > 0 && string(e.Err) != "null"
			switch {
			case q.free:
			case q.wantErr == "timeout" && e.T == q.due && isErr:
				// whatever else happened at the moment of the timeout
			case q.anyErr:
				if !isErr || (len(e.Data) > 0 && string(e.Data) != "null") {
					r.Failf("call %d was resolved with %s / %s, want an error (%v)", e.K, vkit.Short(string(e.Data)), e.Err, q.wantErr)
				}
			case !c29same(e.Data, q.want) || !c29same(e.Err, q.wantErr):
				r.Failf("call %d was resolved with data %s, err %s; want %v, %v", e.K, vkit.Short(string(e.Data)), vkit.Short(string(e.Err)), vkit.Short(fmt.Sprint(q.want)), q.wantErr)
			}
			if q.wantErr == "timeout" && e.T != q.due {
				r.Failf("call %d timed out at %d, it was due at %d", e.K, e.T, q.due)
			}
			r.Class("resolved %v", map[bool]string{true: "error", false: "data"}[isErr])
		case "throw":
			r.Failf("%s threw: %s", e.Where, e.Msg)
		}
		if r.Failed() {
			return
		}
	}
	down := false
	for _, o := range c.Ops {
		if o.K == "shutdown" {
			down = true
		}
	}
	end := c.Tail
	for _, o := range c.Ops {
		end += o.D
	}
	timer(end)
	for k, q := range calls {
		if q.state == "done" && q.got == 0 {
			r.Failf("call %d (%s) was never resolved, want %v / %v", k, q.op.K, vkit.Short(fmt.Sprint(q.want)), q.wantErr)
		}
	}
	if len(handled) > 0 && !down {
		r.Failf("%d messages for handlers were not handled, the first for %q", len(handled), handled[0].M)
	}
	if pongs > 0 && !down {
		r.Failf("%d pings were not answered", pongs)
	}
	if len(calls) > 1 {
		r.NonTrivial()
	}
}

func init() {
	vkit.Register("C29", "client", vkit.Opts{Quick: 20000, Rule: "two or more calls, or frames grouped in one message"}, genC29, runC29)
}
