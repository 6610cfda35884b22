package main

import (
	"bytes"
	"fmt"
	"os"
	"sync"

	"golang.org/x/sys/unix"
)

// openPty opens a pseudo terminal.
func openPty() (master, slave *os.File, err error) {
	m, err := unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	if err := unix.IoctlSetPointerInt(m, unix.TIOCSPTLCK, 0); err != nil {
		return nil, nil, err
	}
	n, err := unix.IoctlGetInt(m, unix.TIOCGPTN)
	if err != nil {
		return nil, nil, err
	}
	name := fmt.Sprintf("/dev/pts/%d", n)
	s, err := unix.Open(name, unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	return os.NewFile(uintptr(m), "ptmx"), os.NewFile(uintptr(s), name), nil
}

func makeRaw(f *os.File) error {
	t, err := unix.IoctlGetTermios(int(f.Fd()), unix.TCGETS)
	if err != nil {
		return err
	}
	t.Iflag &^= unix.IGNBRK | unix.BRKINT | unix.PARMRK | unix.ISTRIP | unix.INLCR | unix.IGNCR | unix.ICRNL | unix.IXON
	t.Oflag &^= unix.OPOST
	t.Lflag &^= unix.ECHO | unix.ECHONL | unix.ICANON | unix.ISIG | unix.IEXTEN
	t.Cflag &^= unix.CSIZE | unix.PARENB
	t.Cflag |= unix.CS8
	return unix.IoctlSetTermios(int(f.Fd()), unix.TCSETS, t)
}

func setSize(f *os.File, w, h int) error {
	return unix.IoctlSetWinsize(int(f.Fd()), unix.TIOCSWINSZ, &unix.Winsize{Row: uint16(h), Col: uint16(w)})
}

// outPty is a pseudo terminal whose output can be collected up to a marker.
type outPty struct {
	slave *os.File

	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	err  error
}

var ptyMarker = []byte("\x1b[99z")

func newOutPty() *outPty {
	m, s, err := openPty()
	if err == nil {
		err = makeRaw(s)
	}
	if err != nil {
		panic(fmt.Sprintf("no pseudo terminal: %v", err))
	}
	p := &outPty{slave: s}
	p.cond = sync.NewCond(&p.mu)
	go func() {
		var b [8192]byte
		for {
			n, err := m.Read(b[:])
			p.mu.Lock()
			p.buf = append(p.buf, b[:n]...)
			if err != nil {
				p.err = err
			}
			p.cond.Broadcast()
			p.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return p
}

// collect returns everything written since the last call.
func (p *outPty) collect() []byte {
	if _, err := p.slave.Write(ptyMarker); err != nil {
		panic(err)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if i := bytes.Index(p.buf, ptyMarker); i >= 0 {
			out := append([]byte(nil), p.buf[:i]...)
			p.buf = append(p.buf[:0], p.buf[i+len(ptyMarker):]...)
			return out
		}
		if p.err != nil {
			panic(p.err)
		}
		p.cond.Wait()
	}
}

var ptyPool = make(chan *outPty, 64)

func getPty() *outPty {
	select {
	case p := <-ptyPool:
		return p
	default:
		return newOutPty()
	}
}

func putPty(p *outPty) { ptyPool <- p }
