package lib

import (
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"syscall"
)

var (
	portMu   sync.Mutex
	reserved []net.Listener // kept until the process ends, so no other stage takes the port
)

// FreePort gives a port that nobody uses, below the range from which the system takes ports for outgoing
// connections, so that it stays free until it is listened on (again).
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 5000; i++ {
		p := 11000 + rand.IntN(21000)
		m, err := net.Listen("unix", fmt.Sprintf("@verif-port-%d", p))
		if err != nil {
			continue
		}
		syscall.ForkLock.RLock() // a child that is being started would keep the port for a moment
		l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", p))
		if err == nil {
			l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err != nil {
			m.Close()
			continue
		}
		reserved = append(reserved, m)
		return p
	}
	panic("HARNESS no free port")
}

// Listen on a port that can be taken again after it was closed.
func Listen() (net.Listener, error) {
	var l net.Listener
	var err error
	for i := 0; i < 20; i++ {
		if l, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", FreePort())); err == nil {
			return l, nil
		}
	}
	return nil, err
}
