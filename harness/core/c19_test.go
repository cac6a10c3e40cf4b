package core

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc/extension/pubsub"
	"pgregory.net/rapid"

	"verif/harness/vkit"
)

// C19 auth: raw peers speaking the pub/sub routes, right and wrong, against a
// model of who is authenticated and subscribed.

type psStep struct {
	P    int    // which raw peer
	M    string // A, S, U, P, P1
	Note bool   // sent as a notification
	Pw   string // A: right, empty, wrong, prefix, longer, nul, case, quoted, space
	T    int
	N    int
	Bad  string // topic bytes: "", short, empty, biglen, overlen, noname, cut
	Drop bool   // the peer loses its connection and comes back before the step
}

type psAuth struct {
	Pw    string
	S     vkit.EP
	Obs   []int // topic mask per observer
	Peers int
	Steps []psStep
}

func genPSauth(rt *rapid.T) psAuth {
	c := psAuth{Pw: vkit.Pick(rt, "pw", "", "Secret", "p", "a b", strings.Repeat("k", 64)), S: vkit.GenEP(rt, "s"), Peers: vkit.Int(rt, 1, 2, "peers")}
	c.S.Pool = vkit.Chance(rt, 30, "pool")
	for i := vkit.Int(rt, 0, 2, "obs"); i > 0; i-- {
		c.Obs = append(c.Obs, vkit.Int(rt, 0, 7, "mask"))
	}
	for i := vkit.Int(rt, 1, 12, "steps"); i > 0; i-- {
		s := psStep{P: vkit.Int(rt, 0, c.Peers-1, "peer"), M: vkit.Pick(rt, "m", "A", "A", "S", "S", "S", "U", "P", "P", "P1"), Note: vkit.Chance(rt, 15, "note"), T: vkit.Int(rt, 0, 2, "t"), N: vkit.Size(rt, 500, "n")}
		if s.M == "A" {
			s.Pw = vkit.Pick(rt, "try", "right", "right", "empty", "wrong", "prefix", "longer", "nul", "case", "quoted", "space")
		} else if vkit.Chance(rt, 15, "bad") {
			s.Bad = vkit.Pick(rt, "badk", "short", "empty", "biglen", "overlen", "noname", "cut")
		}
		s.Drop = vkit.Chance(rt, 8, "drop")
		c.Steps = append(c.Steps, s)
	}
	return c
}

func (s psStep) password(pw string) string {
	switch s.Pw {
	case "right":
		return pw
	case "wrong":
		return "not " + pw
	case "prefix":
		if len(pw) > 0 {
			return pw[:len(pw)-1]
		}
		return "x"
	case "longer":
		return pw + "x"
	case "nul":
		return pw + "\x00"
	case "case":
		return strings.ToUpper(pw)
	case "quoted":
		return `"` + pw + `"`
	case "space":
		return " " + pw
	}
	return ""
}

func topicBytes(name string, data []byte, ts int64) []byte {
	b := append(append([]byte(nil), data...), name...)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(name)))
	return binary.LittleEndian.AppendUint64(b, uint64(ts))
}

type psPeer struct {
	conn   *vkit.Conn
	authed bool
	subs   [3]bool
	mu     sync.Mutex
	frames []vkit.Frame
	seq    uint64
	bad    error
}

func (p *psPeer) reader(conn *vkit.Conn) {
	for {
		f, err := vkit.ReadFrame(conn)
		if err != nil {
			return
		}
		p.mu.Lock()
		p.frames = append(p.frames, f)
		p.mu.Unlock()
	}
}

func (p *psPeer) take() []vkit.Frame {
	p.mu.Lock()
	defer p.mu.Unlock()
	fs := p.frames
	p.frames = nil
	return fs
}

func runPSauth(r *vkit.R, c psAuth) {
	names := []string{"t", "tt", "u"}
	r.Bubble(func() {
		s := pubsub.NewServer()
		s.Password = c.Pw
		c.S.Apply(s.Handler)
		n := vkit.NewNet("ps")
		go s.Serve(n)
		synctest.Wait()
		var mu sync.Mutex
		got := make([][]string, len(c.Obs))
		var obs []*pubsub.Client
		for i, mask := range c.Obs {
			args := []interface{}{vkit.EP{}.NewHandler()}
			if i%2 == 1 {
				args = nil // the default handler's clone
			}
			if cl, err := pubsub.NewClient(func() (net.Conn, error) { return nil, errors.New("refused") }, args...); err == nil || cl != nil {
				r.Failf("new client which cannot dial: %v %v", cl, err)
			}
			cl, err := pubsub.NewClient(n.Dial, args...)
			if err != nil {
				r.Failf("new client: %v", err)
				return
			}
			cl.Password = c.Pw
			if err := cl.Authenticate(); err != nil {
				r.Failf("authenticate: %v", err)
				return
			}
			for t, name := range names {
				if mask>>t&1 == 1 {
					if err := cl.Subscribe(name, func(tp *pubsub.Topic) {
						mu.Lock()
						got[i] = append(got[i], fmt.Sprintf("%s/%s/%d", tp.Name, tp.Data, tp.Timestamp))
						mu.Unlock()
					}, long()); err != nil {
						r.Failf("subscribe: %v", err)
						return
					}
				}
			}
			obs = append(obs, cl)
		}
		peers := make([]*psPeer, c.Peers)
		connect := func(p *psPeer) {
			p.conn = n.DialConn()
			p.authed, p.subs = false, [3]bool{}
			go p.reader(p.conn)
			synctest.Wait()
		}
		for i := range peers {
			peers[i] = &psPeer{}
			connect(peers[i])
		}
		// check that the publication reached exactly those it should
		expect := func(what string, topic int, want string, one bool, probe bool) {
			synctest.Wait()
			cands, total := 0, 0
			mu.Lock()
			for i := range obs {
				sub := topic >= 0 && c.Obs[i]>>max(topic, 0)&1 == 1
				k := 0
				for _, g := range got[i] {
					if topic < 0 || g != want && !(probe && strings.HasPrefix(g, want)) {
						r.Failf("%s: observer %d got %s", what, i, vkit.Short(g))
						continue
					}
					k++
				}
				got[i] = nil
				total += k
				if sub {
					cands++
				}
				if k > 1 || k == 1 && !sub || k == 0 && sub && !one {
					r.Failf("%s: observer %d (subscribed: %v) got it %d times", what, i, sub, k)
				}
			}
			mu.Unlock()
			for i, p := range peers {
				sub := topic >= 0 && p.authed && p.subs[topic]
				k := 0
				for _, f := range p.take() {
					if f.Cmd != vkit.CNotify {
						// a response; looked at by the caller
						p.mu.Lock()
						p.frames = append(p.frames, f)
						p.mu.Unlock()
						continue
					}
					if f.Method != "in_P" || topic < 0 {
						r.Failf("%s: peer %d (authenticated: %v) got a notification %v", what, i, p.authed, f)
						continue
					}
					d := f.Data
					tn := names[topic]
					if len(d) < len(tn)+10 || string(d[len(d)-10-len(tn):len(d)-10]) != tn {
						r.Failf("%s: peer %d got another topic: %s", what, i, vkit.Short(string(d)))
						continue
					}
					g := fmt.Sprintf("%s/%s/%d", tn, d[:len(d)-10-len(tn)], int64(binary.LittleEndian.Uint64(d[len(d)-8:])))
					if g != want && !(probe && strings.HasPrefix(g, want)) {
						r.Failf("%s: peer %d got %s, want %s", what, i, vkit.Short(g), vkit.Short(want))
					}
					k++
				}
				total += k
				if sub {
					cands++
				}
				if k > 1 || k == 1 && !sub || k == 0 && sub && !one {
					r.Failf("%s: peer %d (authenticated: %v, subscribed: %v) got it %d times", what, i, p.authed, sub, k)
				}
			}
			if one && total != min(cands, 1) {
				r.Failf("%s: publish-to-one reached %d, %d are subscribed", what, total, cands)
			}
		}
		for k, st := range c.Steps {
			p := peers[st.P]
			if st.Drop {
				p.conn.Close()
				synctest.Wait()
				p.take()
				connect(p)
				r.Class("came-back")
			}
			what := fmt.Sprintf("step %d (%s %s%s)", k, st.M, st.Pw, st.Bad)
			data := []byte(fmt.Sprintf("%d:", k))
			data = append(data, vkit.Blob{N: st.N, S: k}.Bytes()...)
			ts := int64(1000 + k)
			name := names[st.T]
			var body []byte
			valid := true
			if st.M == "A" {
				body = []byte(st.password(c.Pw))
			} else {
				if st.M == "S" || st.M == "U" {
					data = nil
				}
				body = topicBytes(name, data, ts)
				valid = st.Bad == ""
				switch st.Bad {
				case "short":
					body = body[len(body)-9:]
				case "empty":
					body = nil
				case "biglen":
					binary.LittleEndian.PutUint16(body[len(body)-10:], uint16(len(body)-10+1+st.N%600))
				case "overlen":
					body = topicBytes(strings.Repeat("z", 1025), data, ts)
				case "noname":
					body = topicBytes("", data, ts)
				case "cut":
					body = body[len(body)-10:]
				}
			}
			p.seq++
			f := vkit.Frame{Cmd: 1, Seq: p.seq, Method: "in_" + st.M, Data: body}
			if st.Note {
				f.Cmd = vkit.CNotify
			}
			p.conn.Write(f.Encode())
			synctest.Wait()
			time.Sleep(time.Second)
			synctest.Wait()
			was := p.authed
			succeed := false
			switch {
			case st.M == "A":
				if bytes.Equal(body, []byte(c.Pw)) {
					p.authed = true
					succeed = true
				}
			case !was || !valid:
			case st.M == "S":
				p.subs[st.T] = true
				succeed = true
			case st.M == "U":
				p.subs[st.T] = false
				succeed = true
			default:
				succeed = true
			}
			if st.M[0] == 'P' && succeed {
				expect(what, st.T, fmt.Sprintf("%s/%s/%d", name, data, ts), st.M == "P1", false)
				r.Class("peer-published")
			} else {
				expect(what, -1, "", false, false)
			}
			// the answer
			ok, bad := 0, 0
			for _, g := range p.take() {
				if g.Cmd != vkit.CResponse || g.Seq != f.Seq {
					r.Failf("%s: unexpected frame %v", what, g)
				}
				if g.Flag&vkit.FlagError != 0 {
					bad++
				} else {
					ok++
				}
			}
			if st.Note && ok+bad > 0 {
				r.Failf("%s: a notification was answered", what)
			}
			if !st.Note && succeed && (ok != 1 || bad != 0) {
				r.Failf("%s: %d success and %d error responses, want success", what, ok, bad)
			}
			if !succeed && ok > 0 {
				r.Failf("%s: (authenticated: %v) answered with success", what, was)
			}
			if st.M == "A" && !succeed && !st.Note && bad != 1 {
				r.Failf("%s: a wrong password got %d error responses", what, bad)
			}
			// probe every topic from the server
			for t, name := range names {
				one := (k+t)%3 == 2
				d := fmt.Sprintf("probe%d-%d", k, t)
				if one {
					s.PublishToOne(name, d)
				} else {
					s.Publish(name, []byte(d))
				}
				expect(fmt.Sprintf("after %s: publication on %s", what, name), t, name+"/"+d+"/", one, true)
			}
			if r.Failed() {
				break
			}
			if !was && st.M != "A" {
				r.Class("unauthenticated-%s", st.M)
				r.NonTrivial()
			}
			if was && st.M == "A" {
				r.Class("again-%s", st.Pw)
				r.NonTrivial()
			}
			if was && !valid {
				r.Class("malformed-%s", st.Bad)
				r.NonTrivial()
			}
		}
		for _, o := range obs {
			o.Stop()
		}
		s.Stop()
		for _, cn := range n.Conns {
			cn.Reset()
		}
		for _, p := range peers {
			p.conn.Close()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
	})
}

func init() {
	vkit.Register("C19", "auth", vkit.Opts{Quick: 15000, Rule: "a peer without authentication asks for something, or an authenticated one authenticates again or sends malformed bytes"}, genPSauth, runPSauth)
}
