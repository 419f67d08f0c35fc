// Fault injection below package os: this file is added to package syscall, whose system call
// stubs for files are renamed to vf<Name>, by lib/vf.py (go build -overlay).
//
//	VFAULT_LOG=FILE   append every operation on a file which was opened for writing
//	VFAULT=N:ACTION   what happens at the N'th operation (counted from 1)
//	   err:E    it fails with errno E (a close still closes)
//	   stick:E  it and all later operations fail with errno E
//	   short:E  half of the bytes are written, and the next operation on the file fails with errno E
//	   part     half of the bytes are written, no error
//	   kill     the process is killed before it
//	   mid      the process is killed with half of the bytes written
//	   size:K   (any N) writes fail with EFBIG where a file would become longer than K
//	   sink:K   (any N) writes of more than K bytes to *.loc.tmp are dropped, as if they had succeeded
//	   hook     VfHook is called before it
//	   hold     $VFAULT_HOLD.at is created, and it waits until $VFAULT_HOLD exists
package syscall

import (
	"sync"
	"unsafe"
)

var (
	vfMu    sync.Mutex
	vfInit  bool
	vfOn    bool
	vfLogFd = -1
	vfCount int
	vfAt    = -1
	vfAct   string
	vfArg   int
	vfNext  = map[int]int{}
	vfFiles = map[int]string{}

	// VfHook is called by the action hook.
	VfHook func()
)

func vfItoa(n int) string {
	if n < 0 {
		return "-" + vfItoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return vfItoa(n/10) + string(rune('0'+n%10))
}

func vfAtoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			n = n*10 + int(s[i]-'0')
		}
	}
	return n
}

func vfCut(s string) (string, string) {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			return s[:i], s[i+1:]
		}
	}
	return s, ""
}

func vfSetup() {
	vfInit = true
	l, _ := Getenv("VFAULT_LOG")
	f, _ := Getenv("VFAULT")
	if l == "" && f == "" {
		return
	}
	vfOn = true
	if l != "" {
		if fd, err := vfopenat(_AT_FDCWD, l, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0644); err == nil {
			vfLogFd = fd
		}
	}
	if f != "" {
		var n, r string
		n, f = vfCut(f)
		vfAct, r = vfCut(f)
		vfAt = vfAtoi(n)
		vfArg = vfAtoi(r)
	}
}

func vfEnabled() bool {
	if !vfInit {
		vfSetup()
	}
	return vfOn
}

// N op arg got ok|fail where path
func vfLog(op, path string, a, b int, res string) {
	vfLog2(op, path, a, b, res, -1)
}

func vfLog2(op, path string, a, b int, res string, where int) {
	if vfLogFd >= 0 {
		s := vfItoa(vfCount) + " " + op + " " + vfItoa(a) + " " + vfItoa(b) + " " + res + " " + vfItoa(where) + " " + path + "\n"
		_, _ = vfwrite(vfLogFd, []byte(s))
	}
}

func vfKill() {
	_, _, _ = RawSyscall(SYS_KILL, uintptr(Getpid()), uintptr(SIGKILL), 0)
	for {
	}
}

func vfHold() {
	p, _ := Getenv("VFAULT_HOLD")
	if fd, err := vfopenat(_AT_FDCWD, p+".at", O_WRONLY|O_CREAT|O_CLOEXEC, 0644); err == nil {
		_ = vfClose(fd)
	}
	for {
		if fd, err := vfopenat(_AT_FDCWD, p, O_RDONLY|O_CLOEXEC, 0); err == nil {
			_ = vfClose(fd)
			return
		}
		ts := Timespec{Nsec: 2000000}
		_, _, _ = Syscall(SYS_NANOSLEEP, uintptr(unsafe.Pointer(&ts)), 0, 0)
	}
}

// vfPoint counts an operation and says what is to happen: "" or an action.
// It is called and returns with vfMu held.
func vfPoint(fd int) (string, Errno) {
	vfCount++
	if e, ok := vfNext[fd]; ok {
		delete(vfNext, fd)
		return "err", Errno(e)
	}
	if vfAct == "stick" && vfAt > 0 && vfCount >= vfAt {
		return "err", Errno(vfArg)
	}
	if vfCount != vfAt {
		return "", 0
	}
	if vfAct == "hold" {
		vfMu.Unlock()
		vfHold()
		vfMu.Lock()
		return "", 0
	}
	if vfAct == "hook" {
		if VfHook != nil {
			VfHook()
		}
		return "", 0
	}
	return vfAct, Errno(vfArg)
}

func vfPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if flags&(O_WRONLY|O_RDWR) == 0 || vfPrefix(path, "/dev/") || vfPrefix(path, "/proc/") || vfPrefix(path, "/sys/") {
		return vfopenat(dirfd, path, flags, mode)
	}
	vfMu.Lock()
	defer vfMu.Unlock()
	if !vfEnabled() {
		return vfopenat(dirfd, path, flags, mode)
	}
	a, e := vfPoint(-1)
	switch a {
	case "err", "short":
		vfLog("create", path, flags, 0, "fail")
		return -1, e
	case "kill", "mid":
		vfKill()
	}
	fd, err = vfopenat(dirfd, path, flags, mode)
	if err == nil {
		vfFiles[fd] = path
		t := 0
		if flags&O_TRUNC != 0 {
			t = 1
		}
		vfLog("create", path, t, 0, "ok")
	} else {
		vfLog("create", path, 0, 0, "fail")
	}
	return fd, err
}

func vfRes(err error) string {
	if err != nil {
		return "fail"
	}
	return "ok"
}

func vfData(op string, fd int, n int, off int, do func(n int) (int, error)) (int, error) {
	path := vfFiles[fd]
	if vfAct == "size" && op == "write" && n > 0 {
		vfCount++
		at := int64(off)
		if off < 0 {
			at, _ = vfSeek(fd, 0, 1)
		}
		if at >= int64(vfArg) {
			vfLog2(op, path, n, 0, "fail", off)
			return -1, EFBIG
		}
		if at+int64(n) > int64(vfArg) {
			m, err := do(vfArg - int(at))
			vfLog2(op, path, n, m, vfRes(err), off)
			return m, err
		}
	}
	if vfAct == "sink" && op == "write" && n > vfArg && len(path) > 8 && path[len(path)-8:] == ".loc.tmp" {
		return n, nil
	}
	a, e := vfPoint(fd)
	switch a {
	case "err":
		vfLog2(op, path, n, 0, "fail", off)
		return -1, e
	case "short", "part":
		if n < 2 {
			if a == "part" {
				break
			}
			vfLog2(op, path, n, 0, "fail", off)
			return -1, e
		}
		if a == "short" {
			vfNext[fd] = int(e)
		}
		m, err := do(n / 2)
		vfLog2(op, path, n, m, vfRes(err), off)
		return m, err
	case "kill":
		vfKill()
	case "mid":
		if n > 1 {
			m, err := do(n / 2)
			vfLog2(op, path, n, m, vfRes(err), off)
		}
		vfKill()
	}
	m, err := do(n)
	vfLog2(op, path, n, m, vfRes(err), off)
	return m, err
}

func vfTracked(fd int) bool {
	_, ok := vfFiles[fd]
	return ok
}

func write(fd int, p []byte) (n int, err error) {
	vfMu.Lock()
	if !vfTracked(fd) {
		vfMu.Unlock()
		return vfwrite(fd, p)
	}
	defer vfMu.Unlock()
	return vfData("write", fd, len(p), -1, func(n int) (int, error) { return vfwrite(fd, p[:n]) })
}

func pwrite(fd int, p []byte, offset int64) (n int, err error) {
	vfMu.Lock()
	if !vfTracked(fd) {
		vfMu.Unlock()
		return vfpwrite(fd, p, offset)
	}
	defer vfMu.Unlock()
	return vfData("write", fd, len(p), int(offset), func(n int) (int, error) { return vfpwrite(fd, p[:n], offset) })
}

func read(fd int, p []byte) (n int, err error) {
	vfMu.Lock()
	if !vfTracked(fd) {
		vfMu.Unlock()
		return vfread(fd, p)
	}
	defer vfMu.Unlock()
	return vfData("read", fd, len(p), -1, func(n int) (int, error) { return vfread(fd, p[:n]) })
}

func vfPlain(op string, fd int, arg int, where int, do func() error) error {
	path := vfFiles[fd]
	a, e := vfPoint(fd)
	switch a {
	case "err", "short":
		if op == "close" {
			_ = do()
		}
		vfLog2(op, path, arg, 0, "fail", where)
		return e
	case "kill", "mid":
		vfKill()
	}
	err := do()
	vfLog2(op, path, arg, 0, vfRes(err), where)
	return err
}

func Close(fd int) (err error) {
	vfMu.Lock()
	if !vfTracked(fd) {
		vfMu.Unlock()
		return vfClose(fd)
	}
	defer vfMu.Unlock()
	err = vfPlain("close", fd, 0, -1, func() error { return vfClose(fd) })
	delete(vfFiles, fd)
	delete(vfNext, fd)
	return err
}

func Seek(fd int, offset int64, whence int) (off int64, err error) {
	vfMu.Lock()
	if !vfTracked(fd) {
		vfMu.Unlock()
		return vfSeek(fd, offset, whence)
	}
	defer vfMu.Unlock()
	err = vfPlain("seek", fd, int(offset), whence, func() (err error) { off, err = vfSeek(fd, offset, whence); return })
	return off, err
}

func Ftruncate(fd int, length int64) (err error) {
	vfMu.Lock()
	if !vfTracked(fd) {
		vfMu.Unlock()
		return vfFtruncate(fd, length)
	}
	defer vfMu.Unlock()
	return vfPlain("truncate", fd, int(length), -1, func() error { return vfFtruncate(fd, length) })
}

func Fsync(fd int) (err error) {
	vfMu.Lock()
	if !vfTracked(fd) {
		vfMu.Unlock()
		return vfFsync(fd)
	}
	defer vfMu.Unlock()
	return vfPlain("sync", fd, 0, -1, func() error { return vfFsync(fd) })
}

func unlinkat(dirfd int, path string, flags int) (err error) {
	vfMu.Lock()
	defer vfMu.Unlock()
	if !vfEnabled() {
		return vfunlinkat(dirfd, path, flags)
	}
	vfFiles[-2] = path
	err = vfPlain("remove", -2, 0, -1, func() error { return vfunlinkat(dirfd, path, flags) })
	delete(vfFiles, -2)
	return err
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	vfMu.Lock()
	defer vfMu.Unlock()
	if !vfEnabled() {
		return vfRenameat(olddirfd, oldpath, newdirfd, newpath)
	}
	vfFiles[-2] = newpath
	err = vfPlain("rename", -2, 0, -1, func() error { return vfRenameat(olddirfd, oldpath, newdirfd, newpath) })
	delete(vfFiles, -2)
	return err
}
