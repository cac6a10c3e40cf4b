package vkit

import (
	"fmt"
	"runtime/debug"
	"sync"
	"unsafe"
)

// Poison is an allocator that never reuses memory: it fills what is freed with
// a pattern, notices a second free, and can tell whether anything wrote to
// freed memory. A library that is correct with any allocator is correct with it.
type Poison struct {
	mu    sync.Mutex
	freed map[*byte][]byte
	live  map[*byte]bool
	err   string
	Mal   int
	Fre   int
}

func NewPoison() *Poison { return &Poison{freed: map[*byte][]byte{}, live: map[*byte]bool{}} }

func base(b []byte) *byte {
	if cap(b) == 0 {
		return nil
	}
	return unsafe.SliceData(b[:1])
}

func (p *Poison) Malloc(n int) []byte {
	c := n
	if c%3 == 1 {
		c += 13
	}
	if c == 0 {
		c = 1
	}
	b := make([]byte, c)
	for i := range b {
		b[i] = 0xCD
	}
	p.mu.Lock()
	p.live[base(b)] = true
	p.Mal++
	p.mu.Unlock()
	return b[:n]
}

func (p *Poison) Realloc(b []byte, n int) []byte {
	if n <= cap(b) {
		return b[:n]
	}
	x := p.Malloc(n)
	copy(x, b)
	p.Free(b)
	return x
}

func (p *Poison) Append(b []byte, more ...byte) []byte {
	n := len(b)
	if n+len(more) <= cap(b) {
		return append(b, more...)
	}
	x := p.Malloc(n + len(more))
	copy(x, b)
	copy(x[n:], more)
	p.Free(b)
	return x
}

func (p *Poison) AppendString(b []byte, more string) []byte { return p.Append(b, []byte(more)...) }

func (p *Poison) Free(b []byte) {
	k := base(b)
	if k == nil {
		return
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Fre++
	if _, ok := p.freed[k]; ok {
		if p.err == "" {
			p.err = fmt.Sprintf("a buffer of %d bytes was released twice\n%s", cap(b), debug.Stack())
		}
		return
	}
	delete(p.live, k)
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xDD
	}
	p.freed[k] = b
}

// Check returns what went wrong so far.
func (p *Poison) Check() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err != "" {
		return p.err
	}
	for _, b := range p.freed {
		for i, x := range b {
			if x != 0xDD {
				return fmt.Sprintf("byte %d of a released buffer of %d bytes was written (%#x)", i, len(b), x)
			}
		}
	}
	return ""
}
