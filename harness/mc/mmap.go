package mc

import (
	"os"
	"syscall"
)

func mapFile(f *os.File, size int) ([]byte, func(), error) {
	if err := f.Truncate(int64(size)); err != nil {
		return nil, nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, nil, err
	}
	return b, func() { syscall.Munmap(b) }, nil
}
