package engine

import (
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// claims is memory shared by the workers of a check: for each scenario the
// number of subtrees taken so far, and whether a violation was found.
type claims struct{ words []uint64 }

func createClaims(path string, scenarios int) error {
	return os.WriteFile(path, make([]byte, 8*(scenarios+1)), 0o600)
}

func openClaims(path string, scenarios int) (*claims, error) {
	n := scenarios + 1
	if path == "" {
		return &claims{make([]uint64, n)}, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, 8*n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &claims{unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), n)}, nil
}

// next is the index of the next subtree of a scenario.
func (c *claims) next(scenario int) int {
	return int(atomic.AddUint64(&c.words[scenario+1], 1) - 1)
}

func (c *claims) abandon()        { atomic.StoreUint64(&c.words[0], 1) }
func (c *claims) abandoned() bool { return atomic.LoadUint64(&c.words[0]) != 0 }
