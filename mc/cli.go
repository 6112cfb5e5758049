package main

// The two commands run inside the harness process: kanils as a function call whose standard
// output is captured and whose exit ends only its goroutine.

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"syscall"

	kanils "github.com/thesues/cannyls-go/verif_kanils"
)

type cliOut struct {
	out   string
	code  int
	panic string
}

// asProcess runs fn like a process: an exit or an uncaught panic in any of its goroutines
// ends it without running deferred calls, and what it holds is released.
func asProcess(fn func()) (code int, died string) {
	done := make(chan struct{}, 8)
	old := os.VerifExit
	onPanic := runtime.VerifOnPanic
	over := false
	os.VerifExit = func(c int) {
		if !over {
			over, code = true, c
		}
		done <- struct{}{}
		select {}
	}
	runtime.VerifOnPanic = func(v interface{}) {
		if !over {
			over, code = true, 2
			died = fmt.Sprintf("%v\n%s", v, trimStack(string(debug.Stack())))
		}
		done <- struct{}{}
	}
	go func() {
		fn()
		over = true
		done <- struct{}{}
	}()
	<-done
	os.VerifExit = old
	runtime.VerifOnPanic = onPanic
	return
}

// kanilsRun runs one command in directory w.Dir; rec (may be nil) observes the store file.
func kanilsRun(w *W, rec *recorder, args ...string) cliOut {
	hooks := &syscall.VerifIOHooks{}
	if rec != nil {
		*hooks = *rec.hooks
	}
	return kanilsRunAs(w, hooks, "stdout", args...)
}

// kanilsRunAs: the hooks observe it; it may run inside a hook of another command.
func kanilsRunAs(w *W, hooks *syscall.VerifIOHooks, name string, args ...string) cliOut {
	outPath := filepath.Join(w.Dir, name+".txt")
	rawRemove(outPath)
	f, err := os.OpenFile(outPath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	stdout := os.Stdout
	os.Stdout = f
	os.Args = append([]string{"kanils"}, args...)
	var fds []int
	inner := hooks.Opened
	hooks.Opened = func(p string, mode int, fd int, err error) {
		if err == nil {
			fds = append(fds, fd)
		}
		if inner != nil {
			inner(p, mode, fd, err)
		}
	}
	outer := syscall.VerifIO
	syscall.VerifIO = hooks
	var o cliOut
	o.code, o.panic = asProcess(kanils.Main)
	syscall.VerifIO = outer
	os.Stdout = stdout
	for _, fd := range fds { // the end of a process releases its locks
		syscall.Flock(fd, syscall.LOCK_UN)
	}
	o.out = string(rawRead(outPath))
	f.Close()
	rawRemove(outPath)
	w.C.Trans++
	return o
}
