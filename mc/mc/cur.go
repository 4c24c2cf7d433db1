package mc

import (
	"encoding/binary"
	"os"
	"syscall"
)

// curBuf is a memory-mapped record of the execution in progress, which survives a crash of the
// worker.
type curBuf struct {
	b []byte
	n int
	l int
}

const curSize = 1 << 20

func openCur(path string) (*curBuf, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(curSize); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &curBuf{b: b}, nil
}

// layout: hang flag, count of executions, scenario length, scenario, choices count, choices (16 bit)
func (c *curBuf) start(sc string) {
	if c == nil {
		return
	}
	c.n++
	binary.LittleEndian.PutUint32(c.b[4:], uint32(c.n))
	binary.LittleEndian.PutUint32(c.b[8:], uint32(len(sc)))
	copy(c.b[16:], sc)
	c.l = 16 + len(sc)
	binary.LittleEndian.PutUint32(c.b[12:], 0)
}

func (c *curBuf) push(v int) {
	n := binary.LittleEndian.Uint32(c.b[12:])
	o := c.l + int(n)*2
	if o+2 > len(c.b) {
		return
	}
	binary.LittleEndian.PutUint16(c.b[o:], uint16(v))
	binary.LittleEndian.PutUint32(c.b[12:], n+1)
}

func (c *curBuf) hang() {
	if c != nil {
		c.b[0] = 1
	}
}

func readCur(path string) (t Task, ordinal int, hang bool, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < curSize {
		return
	}
	hang = b[0] == 1
	ordinal = int(binary.LittleEndian.Uint32(b[4:]))
	if ordinal == 0 {
		return
	}
	sl := int(binary.LittleEndian.Uint32(b[8:]))
	t.Scenario = string(b[16 : 16+sl])
	n := int(binary.LittleEndian.Uint32(b[12:]))
	for i := 0; i < n; i++ {
		t.Prefix = append(t.Prefix, int(binary.LittleEndian.Uint16(b[16+sl+2*i:])))
	}
	return t, ordinal, hang, true
}
