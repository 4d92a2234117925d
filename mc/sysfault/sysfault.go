// Package sysfault decides what the system calls of the code under test on one
// file answer, without changing the code: a seccomp filter on the thread that
// runs it hands them to a supervisor in the same process.
package sysfault

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"syscall"
	"unsafe"
)

// Call is a system call on the file.
type Call struct {
	Name string
	Len  int // bytes asked for, of reads and writes
	fd   int
	buf  uintptr
}

func (c Call) String() string { return fmt.Sprintf("%s(%d)", c.Name, c.Len) }

// Answer to a call: the zero value lets it happen.
type Answer struct {
	Err   syscall.Errno // fails with it (a close still closes)
	Short int           // > 0: only that many bytes are written
	None  bool          // no bytes are read or written, without an error
}

var names = map[int]string{0: "read", 1: "write", 3: "close", 8: "lseek", 17: "pread", 18: "pwrite", 19: "readv", 20: "writev", 74: "fsync", 75: "fdatasync", 77: "ftruncate", 5: "fstat"}

// ErrUnavailable means that the system has no such filters.
var ErrUnavailable = errors.New("no seccomp notifications")

type filter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

func program(fd int) []filter {
	const ld, jeq, ret = 0x20, 0x15, 0x06
	p := []filter{{ld, 0, 0, 16}} // the low word of the first argument
	p = append(p, filter{jeq, 1, 0, uint32(fd)}, filter{ret, 0, 0, 0x7fff0000}, filter{ld, 0, 0, 0})
	for nr := range names {
		p = append(p, filter{jeq, 0, 1, uint32(nr)}, filter{ret, 0, 0, 0x7fc00000})
	}
	return append(p, filter{ret, 0, 0, 0x7fff0000})
}

// Next is the number that the next file opened gets, if nothing else opens files meanwhile.
func Next() int {
	fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	syscall.Close(fd)
	return fd
}

// Run calls f, after whose first call of arm the calls of its thread on the descriptor are
// decided by answer. Any thread that f starts work on is not supervised.
func Run(answer func(Call) Answer, f func(arm func(fd int) error)) {
	done := make(chan struct{})
	var handlers sync.WaitGroup
	go func() {
		defer close(done)
		runtime.LockOSThread() // and never unlocked: the thread ends with this goroutine
		armed := false
		f(func(fd int) error {
			if armed {
				return nil
			}
			l, err := install(fd)
			if err != nil {
				return err
			}
			armed = true
			handlers.Add(1)
			go func() {
				defer handlers.Done()
				defer syscall.Close(l)
				supervise(l, done, answer)
			}()
			return nil
		})
	}()
	<-done
	handlers.Wait()
}

func install(fd int) (int, error) {
	if runtime.GOARCH != "amd64" || runtime.GOOS != "linux" {
		return -1, ErrUnavailable
	}
	if _, _, e := syscall.Syscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return -1, ErrUnavailable
	}
	p := program(fd)
	prog := struct {
		n   uint16
		ptr unsafe.Pointer
	}{uint16(len(p)), unsafe.Pointer(&p[0])}
	l, _, e := syscall.Syscall(317, 1, 1<<3, uintptr(unsafe.Pointer(&prog)))
	runtime.KeepAlive(p)
	if e != 0 {
		return -1, ErrUnavailable
	}
	return int(l), nil
}

type notif struct {
	id         uint64
	pid, flags uint32
	nr         int32
	arch       uint32
	ip         uint64
	args       [6]uint64
}

type response struct {
	id    uint64
	val   int64
	err   int32
	flags uint32
}

func supervise(l int, done chan struct{}, answer func(Call) Answer) {
	for {
		pfd := struct {
			fd              int32
			events, revents int16
		}{int32(l), 1, 0}
		n, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&pfd)), 1, 20)
		if e == syscall.EINTR {
			continue
		}
		if int(n) <= 0 || pfd.revents&1 == 0 {
			select {
			case <-done:
				return
			default:
				if pfd.revents != 0 {
					return // the thread is gone
				}
				continue
			}
		}
		var q notif
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(l), 0xc0502100, uintptr(unsafe.Pointer(&q))); e != 0 {
			continue
		}
		c := Call{Name: names[int(q.nr)], fd: int(q.args[0]), buf: uintptr(q.args[1])}
		switch c.Name {
		case "read", "write", "pread", "pwrite":
			c.Len = int(q.args[2])
		}
		r := response{id: q.id}
		switch a := answer(c); {
		case a.Err != 0:
			if c.Name == "close" {
				syscall.Close(c.fd)
			}
			r.err = -int32(a.Err)
		case a.None:
		case a.Short > 0 && c.Name == "write":
			k, err := syscall.Write(c.fd, unsafe.Slice((*byte)(unsafe.Pointer(c.buf)), a.Short))
			r.val = int64(k)
			if err != nil {
				r.val, r.err = 0, -int32(err.(syscall.Errno))
			}
		default:
			r.flags = 1 // go on
		}
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(l), 0xc0182101, uintptr(unsafe.Pointer(&r)))
	}
}
