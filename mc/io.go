package main

import (
	"os"
	"strings"
	"syscall"
)

// ---- raw file helpers: never seen by the hooks

func rawRead(path string) []byte {
	fd, err := syscall.VerifRawOpen(path, syscall.O_RDONLY, 0)
	if err != nil {
		return nil
	}
	defer syscall.Close(fd)
	var st syscall.Stat_t
	syscall.Fstat(fd, &st)
	b := make([]byte, st.Size)
	n := 0
	for n < len(b) {
		k, err := syscall.VerifRawPread(fd, b[n:], int64(n))
		if err != nil || k == 0 {
			break
		}
		n += k
	}
	return b[:n]
}

func rawWriteFile(path string, b []byte) {
	fd, err := syscall.VerifRawOpen(path, syscall.O_CREAT|syscall.O_RDWR, 0644)
	if err != nil {
		panic(err)
	}
	var st syscall.Stat_t
	syscall.Fstat(fd, &st)
	if st.Size != int64(len(b)) {
		syscall.VerifRawFtruncate(fd, int64(len(b)))
	}
	n := 0
	for n < len(b) {
		k, err := syscall.VerifRawPwrite(fd, b[n:], int64(n))
		if err != nil {
			panic(err)
		}
		n += k
	}
	syscall.Close(fd)
}

func rawReadAt(path string, b []byte, off int64) {
	fd, err := syscall.VerifRawOpen(path, syscall.O_RDONLY, 0)
	if err != nil {
		panic(err)
	}
	syscall.VerifRawPread(fd, b, off)
	syscall.Close(fd)
}

func rawWriteAt(path string, b []byte, off int64) {
	fd, err := syscall.VerifRawOpen(path, syscall.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	if n, err := syscall.VerifRawPwrite(fd, b, off); n != len(b) {
		panic(err)
	}
	syscall.Close(fd)
}

func rawRemove(path string) { syscall.VerifRawUnlink(path) }

func exists(path string) bool { _, err := os.Stat(path); return err == nil }

// fd roles, maintained by the Opened hook
const (
	roleNone = iota
	roleStore
	roleSnap
)

func roleOfPath(path string, mode int) int {
	if strings.HasSuffix(path, ".lusf") {
		return roleStore
	}
	if strings.Contains(path, ".snapshot") {
		return roleSnap
	}
	return roleNone
}

func resetHooks() {
	syscall.VerifIO = nil
	syncHooksOff()
}
