package zzdemo

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
)

// Fake is a small Bolt server for the demonstrations.
type Fake struct {
	L    net.Listener
	Ver  int
	Addr string
	// Handle may answer a request itself and return true
	Handle func(s *Sess, tag byte, f []interface{}) bool

	mu    sync.Mutex
	Sess  []*Sess
	Log   []string
	nOpen int
}

type Sess struct {
	F      *Fake
	C      net.Conn
	N      int
	Failed bool
	Closed bool
	User   map[string]interface{}
	R      *bufio.Reader
}

const (
	INIT     = 0x01
	GOODBYE  = 0x02
	RESET    = 0x0F
	RUN      = 0x10
	BEGIN    = 0x11
	COMMIT   = 0x12
	ROLLBACK = 0x13
	DISCARD  = 0x2F
	PULL     = 0x3F
)

func NewFake(ver int) *Fake {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return NewFakeOn(ver, l)
}

func NewFakeOn(ver int, l net.Listener) *Fake {
	f := &Fake{L: l, Ver: ver, Addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			s := &Sess{F: f, C: c, N: len(f.Sess), R: bufio.NewReader(c)}
			f.Sess = append(f.Sess, s)
			f.nOpen++
			f.mu.Unlock()
			go func() {
				s.serve()
				c.Close()
				f.mu.Lock()
				f.nOpen--
				s.Closed = true
				f.mu.Unlock()
			}()
		}
	}()
	return f
}

func (f *Fake) Open() int { f.mu.Lock(); defer f.mu.Unlock(); return f.nOpen }
func (f *Fake) Dialed() int { f.mu.Lock(); defer f.mu.Unlock(); return len(f.Sess) }
func (f *Fake) Logged() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]string{}, f.Log...)
}

func (s *Sess) serve() {
	hs := make([]byte, 20)
	if _, err := io.ReadFull(s.R, hs); err != nil {
		return
	}
	var v [4]byte
	binary.BigEndian.PutUint32(v[:], uint32(s.F.Ver))
	if _, err := s.C.Write(v[:]); err != nil {
		return
	}
	for {
		msg, err := s.ReadMessage()
		if err != nil {
			return
		}
		val, err := Decode(msg)
		if err != nil {
			s.F.log("undecodable %x", msg)
			return
		}
		st, ok := val.(Struct)
		if !ok {
			s.F.log("not a message %v", String(val))
			return
		}
		s.F.log("%d:%02X %s", s.N, st.Tag, String(st.Fields))
		if s.F.Handle != nil && s.F.Handle(s, st.Tag, st.Fields) {
			continue
		}
		s.Default(st.Tag, st.Fields)
		if st.Tag == GOODBYE {
			return
		}
	}
}

func (f *Fake) log(format string, a ...interface{}) {
	f.mu.Lock()
	f.Log = append(f.Log, fmt.Sprintf(format, a...))
	f.mu.Unlock()
}

func (s *Sess) ReadMessage() ([]byte, error) {
	var msg []byte
	for {
		var h [2]byte
		if _, err := io.ReadFull(s.R, h[:]); err != nil {
			return nil, err
		}
		n := int(binary.BigEndian.Uint16(h[:]))
		if n == 0 {
			if len(msg) == 0 {
				continue
			}
			return msg, nil
		}
		p := make([]byte, n)
		if _, err := io.ReadFull(s.R, p); err != nil {
			return nil, err
		}
		msg = append(msg, p...)
	}
}

func (s *Sess) Default(tag byte, f []interface{}) {
	switch tag {
	case RESET:
		s.Failed = false
		s.Success(nil)
	case GOODBYE:
	default:
		if s.Failed {
			s.Send(S(0x7E))
			return
		}
		s.Success(nil)
	}
}

func (s *Sess) Success(m map[string]interface{}) {
	if m == nil {
		m = map[string]interface{}{}
	}
	s.Send(S(0x70, m))
}

func (s *Sess) Record(vals ...interface{}) { s.Send(S(0x71, vals)) }

func (s *Sess) Ignored() { s.Send(S(0x7E)) }

func (s *Sess) Fail(code, msg string) {
	s.Failed = true
	s.Send(S(0x7F, map[string]interface{}{"code": code, "message": msg}))
}

func (s *Sess) Send(st Struct) { s.C.Write(Chunk(Encode(st), 65535)) }

func (s *Sess) Raw(b []byte) { s.C.Write(b) }
