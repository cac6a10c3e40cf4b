package vkit

import (
	"encoding/json"
	"errors"
	"fmt"
	"time"

	"github.com/lesismal/arpc"
	"pgregory.net/rapid"
)

// ---- draws ----

func Int(rt *rapid.T, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(rt, label) }
func Bool(rt *rapid.T, label string) bool           { return rapid.Bool().Draw(rt, label) }
func Pick[T any](rt *rapid.T, label string, vs ...T) T {
	return rapid.SampledFrom(vs).Draw(rt, label)
}

// Chance is true in about p percent of the draws; it shrinks to false.
func Chance(rt *rapid.T, p int, label string) bool {
	return rapid.IntRange(0, 99).Draw(rt, label) >= 100-p
}

// ---- payloads ----

// Blob is a deterministic byte string: small in a replay file, yet different
// for every seed.
type Blob struct {
	N int
	S int
}

func (b Blob) Bytes() []byte {
	out := make([]byte, b.N)
	x := uint64(b.S)*0x9E3779B97F4A7C15 + 0x1234567
	for i := range out {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out[i] = byte(x >> 32)
	}
	if b.S%5 == 3 {
		// compressible
		for i := range out {
			out[i] = byte(b.S>>3) + byte(i%7)
		}
	}
	// a readable stamp helps to tell payloads apart
	if b.N >= 8 {
		copy(out, fmt.Sprintf("<%06d>", b.S%1000000))
	}
	return out
}

func (b Blob) String() string { return string(b.Bytes()) }

// Sizes that sit at the library's own boundaries.
var edgeSizes = []int{0, 1, 2, 7, 15, 16, 17, 47, 48, 49, 62, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 2047, 2048, 2049, 4095, 4096, 8175, 8176, 8191, 8192, 8193, 16384, 40000, 65535, 65536, 65537}

// Size draws a payload size up to max, biased to edges.
func Size(rt *rapid.T, max int, label string) int {
	if Chance(rt, 45, label+"edge") {
		n := rapid.SampledFrom(edgeSizes).Draw(rt, label)
		if n <= max {
			return n
		}
		return max
	}
	m := max
	if m > 300 && !Chance(rt, 15, label+"big") {
		m = 300
	}
	return rapid.IntRange(0, m).Draw(rt, label)
}

// Value is an argument or reply of a generated kind.
type Value struct {
	K string // "str", "bytes", "pstr", "pbytes", "obj", "nil"
	B Blob
}

type Obj struct {
	A string
	N int64
	L []byte
	M map[string]int `json:",omitempty"`
}

func (v Value) obj() Obj {
	b := v.B.Bytes()
	o := Obj{A: fmt.Sprintf("%x", b), N: int64(v.B.S)<<20 | int64(v.B.N), L: b}
	if v.B.N%3 == 1 {
		o.M = map[string]int{"k": v.B.N, "ü<>&": v.B.S}
	}
	return o
}

// Go returns the value to hand to the library.
func (v Value) Go() interface{} {
	switch v.K {
	case "str":
		return v.B.String()
	case "pstr":
		s := v.B.String()
		return &s
	case "bytes":
		return v.B.Bytes()
	case "pbytes":
		b := v.B.Bytes()
		return &b
	case "obj":
		o := v.obj()
		return &o
	case "err":
		return errors.New(v.B.String())
	}
	return nil
}

// Wire returns the bytes the value must have on the wire (default codec).
func (v Value) Wire() []byte {
	switch v.K {
	case "obj":
		o := v.obj()
		b, _ := json.Marshal(&o)
		return b
	case "nil", "":
		return nil
	}
	return v.B.Bytes()
}

// Check compares what a receiver of this kind got.
func (v Value) Check(recv func(interface{}) error) error {
	switch v.K {
	case "str", "pstr":
		s := "untouched"
		if err := recv(&s); err != nil {
			return err
		}
		if s != v.B.String() {
			return fmt.Errorf("got string %s, want %s", Short(s), Short(v.B.String()))
		}
	case "obj":
		var o Obj
		if err := recv(&o); err != nil {
			return err
		}
		g, _ := json.Marshal(&o)
		if string(g) != string(v.Wire()) {
			return fmt.Errorf("got object %s, want %s", Short(string(g)), Short(string(v.Wire())))
		}
	default:
		b := []byte("untouched")
		if err := recv(&b); err != nil {
			return err
		}
		if string(b) != string(v.Wire()) {
			return fmt.Errorf("got bytes %s, want %s", Short(string(b)), Short(string(v.Wire())))
		}
	}
	return nil
}

// Short abbreviates a payload for messages.
func Short(s string) string {
	if len(s) > 48 {
		return fmt.Sprintf("%q...(%d bytes)", s[:48], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func GenBlob(rt *rapid.T, max int, label string) Blob {
	return Blob{N: Size(rt, max, label+".n"), S: Int(rt, 0, 999999, label+".s")}
}

func GenValue(rt *rapid.T, max int, label string) Value {
	k := Pick(rt, label+".k", "str", "bytes", "pstr", "pbytes", "obj")
	v := Value{K: k, B: GenBlob(rt, max, label)}
	if k == "obj" && v.B.N > 3000 {
		v.B.N = 3000
	}
	return v
}

// ---- endpoint options ----

// EP are generated options of one endpoint.
type EP struct {
	SyncWrite   bool     `json:",omitempty"`
	NoBatchSend bool     `json:",omitempty"`
	NoBatchRecv bool     `json:",omitempty"`
	SendBuf     int      `json:",omitempty"`
	RecvBuf     int      `json:",omitempty"`
	SendQ       int      `json:",omitempty"`
	StreamQ     int      `json:",omitempty"`
	SyncResp    bool     `json:",omitempty"`
	Pool        bool     `json:",omitempty"`
	Coders      []string `json:",omitempty"`
}

func GenEP(rt *rapid.T, label string) EP {
	var e EP
	if Chance(rt, 30, label+".default") {
		return e
	}
	e.SyncWrite = Chance(rt, 20, label+".syncwrite")
	e.NoBatchSend = Chance(rt, 30, label+".nobatchsend")
	e.NoBatchRecv = Chance(rt, 30, label+".nobatchrecv")
	e.SendBuf = Pick(rt, label+".sendbuf", 0, 1, 17, 64, 300, 1024, 2048, 4096, 8192, 65536)
	e.RecvBuf = Pick(rt, label+".recvbuf", 0, 16, 17, 20, 64, 1000, 8192, 65536)
	e.SyncResp = Chance(rt, 25, label+".syncresp")
	return e
}

// Apply configures a handler.
func (e EP) Apply(h arpc.Handler) {
	if e.SyncWrite {
		h.SetAsyncWrite(false)
	}
	if e.NoBatchSend {
		h.SetBatchSend(false)
	}
	if e.NoBatchRecv {
		h.SetBatchRecv(false)
	}
	if e.SendBuf > 0 {
		h.SetSendBufferSize(e.SendBuf)
	}
	if e.RecvBuf > 0 {
		h.SetRecvBufferSize(e.RecvBuf)
	}
	if e.SendQ > 0 {
		h.SetSendQueueSize(e.SendQ)
	}
	if e.StreamQ != 0 {
		h.SetStreamQueueSize(max(0, e.StreamQ)) // -1: no queue
	}
	if e.SyncResp {
		h.SetAsyncResponse(false)
	}
	if e.Pool {
		h.EnablePool(true)
	}
	for _, c := range e.Coders {
		h.UseCoder(NewCoder(c))
	}
}

// NewHandler makes a handler with the options.
func (e EP) NewHandler() arpc.Handler {
	h := arpc.NewHandler()
	e.Apply(h)
	return h
}

// GenDir draws the shape of one direction (no faults).
func GenDir(rt *rapid.T, label string) DirPlan {
	var d DirPlan
	switch Int(rt, 0, 4, label+".shape") {
	case 0, 1:
	case 2:
		d.Reads = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 15, 16, 17, 33, 100, 1000}), 1, 5).Draw(rt, label+".reads")
	case 3:
		d.Reads = rapid.SliceOfN(rapid.SampledFrom([]int{1, 3, 4, 16, 20, 50, 0}), 1, 4).Draw(rt, label+".reads")
		d.DelayUs = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 10, 500}), 1, 4).Draw(rt, label+".delay")
	case 4:
		d.Cap = Pick(rt, label+".cap", 1, 16, 17, 64, 200, 1000, 5000)
		d.Chunk = Pick(rt, label+".chunk", 0, 1, 7, 64)
	}
	return d
}

// ---- time unit of the case ----

// Times in cases are small integers; what they are multiplied by is drawn per
// case. The bigger units are odd, so that they never coincide with the
// library's own whole seconds.
var (
	units   = [...]time.Duration{time.Microsecond, 1000003 * time.Nanosecond, 1300000007 * time.Nanosecond}
	unitIdx int
)

func setUnit(i int) { unitIdx = i }

// Us turns a number of time units (microseconds, by default) into a duration.
func Us(n int) time.Duration { return time.Duration(n) * units[unitIdx] }

// Tail scales a waiting time (given for microseconds) to the unit of the case.
func Tail(d time.Duration) time.Duration {
	x := float64(d) * float64(units[unitIdx]) / 1000
	if x > float64(50*365*24*time.Hour) {
		return 50 * 365 * 24 * time.Hour
	}
	return time.Duration(x)
}

// Ms turns milliseconds into a duration.
func Ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// ---- coders for tests ----

type xorCoder byte

func (x xorCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	for i := arpc.HeadLen + m.MethodLen(); i < len(m.Buffer); i++ {
		m.Buffer[i] ^= byte(x)
	}
	return m
}
func (x xorCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return x.Encode(c, m) }

// addCoder adds its key to every byte (does not commute with xor).
type addCoder byte

func (x addCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	for i := arpc.HeadLen + m.MethodLen(); i < len(m.Buffer); i++ {
		m.Buffer[i] += byte(x)
	}
	return m
}
func (x addCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	for i := arpc.HeadLen + m.MethodLen(); i < len(m.Buffer); i++ {
		m.Buffer[i] -= byte(x)
	}
	return m
}

// padCoder appends a trailer and a length byte; it returns a new buffer.
type padCoder byte

func (p padCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	b := append([]byte(nil), m.Buffer...)
	for i := 0; i < int(p); i++ {
		b = append(b, byte(i)^0x5a)
	}
	m.Buffer = append(b, byte(p))
	m.SetBodyLen(len(m.Buffer) - arpc.HeadLen)
	return m
}
func (p padCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	n := len(m.Buffer)
	if n > arpc.HeadLen && n-1-int(m.Buffer[n-1]) >= arpc.HeadLen {
		m.Buffer = m.Buffer[:n-1-int(m.Buffer[n-1])]
		m.SetBodyLen(len(m.Buffer) - arpc.HeadLen)
	}
	return m
}

var CoderFactory = map[string]func() arpc.MessageCoder{
	"xor": func() arpc.MessageCoder { return xorCoder(0x5c) },
	"add": func() arpc.MessageCoder { return addCoder(0x33) },
	"pad": func() arpc.MessageCoder { return padCoder(9) },
}

func NewCoder(name string) arpc.MessageCoder { return CoderFactory[name]() }
