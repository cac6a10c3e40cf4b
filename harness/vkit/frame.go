package vkit

import (
	"encoding/binary"
	"fmt"
	"io"
)

// Frame is the reference reading of the documented layout:
// bodyLen u32le | reserved | cmd | flag | methodLen | seq u64le | method | body
type Frame struct {
	Reserved  byte
	Cmd       byte // raw command byte, stream bits included
	Flag      byte
	MethodLen int
	Seq       uint64
	Method    string
	Data      []byte
}

const (
	CRequest  = 1
	CResponse = 2
	CNotify   = 3
	CPing     = 4
	CPong     = 5
	CStream   = 6

	StreamLocal = 0x80
	StreamEOF   = 0x40
	FlagError   = 0x01
	FlagAsync   = 0x02
)

func (f Frame) Encode() []byte {
	ml := len(f.Method)
	b := make([]byte, 16+ml+len(f.Data))
	binary.LittleEndian.PutUint32(b, uint32(ml+len(f.Data)))
	b[4] = f.Reserved
	b[5] = f.Cmd
	b[6] = f.Flag
	b[7] = byte(ml)
	binary.LittleEndian.PutUint64(b[8:], f.Seq)
	copy(b[16:], f.Method)
	copy(b[16+ml:], f.Data)
	return b
}

// DecodeFrame reads one frame from b and returns the rest.
func DecodeFrame(b []byte) (f Frame, rest []byte, err error) {
	if len(b) < 16 {
		return f, b, io.ErrUnexpectedEOF
	}
	n := int(binary.LittleEndian.Uint32(b))
	if n > len(b)-16 {
		return f, b, io.ErrUnexpectedEOF
	}
	ml := int(b[7])
	if ml > n {
		return f, b, fmt.Errorf("method length %d above body length %d", ml, n)
	}
	f.Reserved, f.Cmd, f.Flag, f.MethodLen = b[4], b[5], b[6], ml
	f.Seq = binary.LittleEndian.Uint64(b[8:])
	f.Method = string(b[16 : 16+ml])
	f.Data = append([]byte(nil), b[16+ml:16+n]...)
	return f, b[16+n:], nil
}

// DecodeFrames splits a whole byte stream; err is set if it does not end on a
// frame boundary.
func DecodeFrames(b []byte) (fs []Frame, err error) {
	for len(b) > 0 {
		f, rest, e := DecodeFrame(b)
		if e != nil {
			return fs, fmt.Errorf("after %d frames, %d bytes left: %v", len(fs), len(b), e)
		}
		fs = append(fs, f)
		b = rest
	}
	return fs, nil
}

// ReadFrame reads one frame from r.
func ReadFrame(r io.Reader) (f Frame, err error) {
	var h [16]byte
	if _, err = io.ReadFull(r, h[:]); err != nil {
		return
	}
	n := int(binary.LittleEndian.Uint32(h[:]))
	if n > 1<<28 {
		return f, fmt.Errorf("absurd body length %d", n)
	}
	b := make([]byte, 16+n)
	copy(b, h[:])
	if _, err = io.ReadFull(r, b[16:]); err != nil {
		return
	}
	f, _, err = DecodeFrame(b)
	return
}

func (f Frame) String() string {
	d := f.Data
	if len(d) > 40 {
		d = d[:40]
	}
	return fmt.Sprintf("{cmd=%#x flag=%#x res=%#x seq=%d method=%q len=%d data=%q}", f.Cmd, f.Flag, f.Reserved, f.Seq, f.Method, len(f.Data), d)
}
