package main

import (
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
)

// session controls the file operations of one goroutine.
type session struct {
	goid   uint64
	bypass bool
	onOp   func(op *syscall.VerifOp, idx int) (int, error)
	count  int
}

var sessions sync.Map // thread id -> *session

// tid identifies the calling goroutine as long as it is locked to its thread. A goroutine that is not locked may
// have moved to another thread by the time it looks its former thread up, so that goid decides.
func tid() int { return syscall.Gettid() }

func goid() uint64 { return runtime.VerifGoid() }

var attached int64

func init() {
	syscall.VerifHook = func(op *syscall.VerifOp) (int, error) {
		if atomic.LoadInt64(&attached) == 0 {
			return op.Do()
		}
		v, ok := sessions.Load(tid())
		if !ok {
			return op.Do()
		}
		s := v.(*session)
		if s.goid != goid() || s.bypass {
			return op.Do()
		}
		idx := s.count
		s.count++
		return s.onOp(op, idx)
	}
}

// attach makes s control the calling goroutine until the returned function is called.
func (s *session) attach() func() {
	runtime.LockOSThread()
	id := tid()
	s.goid = goid()
	sessions.Store(id, s)
	atomic.AddInt64(&attached, 1)
	return func() {
		atomic.AddInt64(&attached, -1)
		sessions.Delete(id)
		runtime.UnlockOSThread()
	}
}

// quietly runs f without control.
func (s *session) quietly(f func()) {
	old := s.bypass
	s.bypass = true
	f()
	s.bypass = old
}

func mutates(op *syscall.VerifOp) bool {
	switch op.Name {
	case "openat":
		return op.Flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	case "write", "pwrite", "renameat", "unlinkat", "linkat", "symlinkat", "mkdirat", "ftruncate", "truncate", "fallocate":
		return true
	}
	return false
}

func isWrite(op *syscall.VerifOp) bool { return op.Name == "write" || op.Name == "pwrite" }

func describe(op *syscall.VerifOp) string {
	s := op.Name
	if op.Path != "" {
		s += " " + filepath.Base(op.Path)
	}
	if op.Path2 != "" {
		s += " -> " + filepath.Base(op.Path2)
	}
	if isWrite(op) {
		s += " " + strconv.Itoa(len(op.Buf)) + " bytes"
	}
	return s
}

// copyDir copies the regular files of a directory (the databases of an application).
func copyDir(src, dst string) {
	if err := os.MkdirAll(dst, 0755); err != nil {
		fatal("copy: %v", err)
	}
	list, err := os.ReadDir(src)
	if err != nil {
		if os.IsNotExist(err) {
			return
		}
		fatal("copy: %v", err)
	}
	for _, e := range list {
		if e.IsDir() {
			copyDir(filepath.Join(src, e.Name()), filepath.Join(dst, e.Name()))
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			fatal("copy: %v", err)
		}
		if err := os.WriteFile(filepath.Join(dst, e.Name()), b, 0644); err != nil {
			fatal("copy: %v", err)
		}
	}
}

func firstWord(s string) string {
	for i := range s {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}
