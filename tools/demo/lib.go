package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/lesismal/arpc/log"
)

func init() { log.SetLevel(log.LevelNone) }

// lib: small helpers shared by the demonstrations.

func fail(f string, a ...interface{}) { fmt.Printf("BROKEN: "+f+"\n", a...); os.Exit(1) }
func ok()                             { fmt.Println("ok"); os.Exit(0) }
func check(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

// gate is a net.Conn whose writes wait while the gate is shut, and record.
type gate struct {
	net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	shut bool
	sent bytes.Buffer
}

func newGate(c net.Conn) *gate { g := &gate{Conn: c}; g.cond = sync.NewCond(&g.mu); return g }
func (g *gate) set(shut bool)  { g.mu.Lock(); g.shut = shut; g.cond.Broadcast(); g.mu.Unlock() }
func (g *gate) Write(b []byte) (int, error) {
	g.mu.Lock()
	for g.shut {
		g.cond.Wait()
	}
	g.sent.Write(b)
	g.mu.Unlock()
	return g.Conn.Write(b)
}
func (g *gate) bytes() []byte { g.mu.Lock(); defer g.mu.Unlock(); return append([]byte{}, g.sent.Bytes()...) }

type frame struct {
	cmd, flag byte
	seq       uint64
	method    string
	data      string
}

func (f frame) encode() []byte {
	b := make([]byte, 16, 16+len(f.method)+len(f.data))
	binary.LittleEndian.PutUint32(b, uint32(len(f.method)+len(f.data)))
	b[5], b[6], b[7] = f.cmd, f.flag, byte(len(f.method))
	binary.LittleEndian.PutUint64(b[8:], f.seq)
	return append(append(b, f.method...), f.data...)
}

func readFrame(r io.Reader) (f frame, err error) {
	h := make([]byte, 16)
	if _, err = io.ReadFull(r, h); err != nil {
		return
	}
	body := make([]byte, binary.LittleEndian.Uint32(h))
	if _, err = io.ReadFull(r, body); err != nil {
		return
	}
	ml := int(h[7])
	if ml > len(body) {
		return f, errors.New("bad method length")
	}
	return frame{h[5], h[6], binary.LittleEndian.Uint64(h[8:]), string(body[:ml]), string(body[ml:])}, nil
}

func frames(b []byte) (fs []frame) {
	r := bytes.NewReader(b)
	for {
		f, err := readFrame(r)
		if err != nil {
			return
		}
		fs = append(fs, f)
	}
}

func listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	return l
}

func waitFor(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
