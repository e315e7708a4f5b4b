"""Overlay of the standard library in which every file operation goes through syscall.VerifHook.

Only the driver is built with it. The code of /repo is compiled unchanged: whatever functions it uses to reach the
file system (os, io, syscall, a vendored lock), they all end in these system call stubs."""
import os, re

DECL = '''
// VerifOp is one file operation about to be executed.
type VerifOp struct {
	Name   string
	Path   string
	Path2  string
	Fd     int
	Flags  int
	Buf    []byte
	Off    int64
	Do     func() (int, error)
	DoBuf  func([]byte) (int, error)
}

// VerifHook executes a file operation in the place of the system call, when set.
var VerifHook func(op *VerifOp) (int, error)
'''

# name -> (fields of VerifOp, does it return an int besides the error?)
SYSCALL = {
    "openat": ('Path: path, Flags: flags', True),
    "read": ('Fd: fd, Buf: p', True),
    "write": ('Fd: fd, Buf: p', True),
    "pread": ('Fd: fd, Buf: p, Off: offset', True),
    "pwrite": ('Fd: fd, Buf: p, Off: offset', True),
    "Renameat": ('Path: oldpath, Path2: newpath', False),
    "unlinkat": ('Path: path', False),
    "linkat": ('Path: oldpath, Path2: newpath', False),
    "symlinkat": ('Path: oldpath, Path2: newpath', False),
    "Mkdirat": ('Path: path', False),
    "Close": ('Fd: fd', False),
    "Flock": ('Fd: fd, Flags: how', False),
    "Fstat": ('Fd: fd', False),
    "fstatat": ('Path: path', False),
    "Ftruncate": ('Fd: fd, Off: length', False),
    "Truncate": ('Path: path, Off: length', False),
    "Fsync": ('Fd: fd', False),
    "Fdatasync": ('Fd: fd', False),
    "Fallocate": ('Fd: fd, Off: off', False),
    "Seek": ('Fd: fd, Off: offset, Flags: whence', True),
}
UNIX = {
    "Unlinkat": ('Path: path', False),
    "Openat": ('Path: path, Flags: flags', True),
    "Mkdirat": ('Path: path', False),
    "Renameat": ('Path: oldpath, Path2: newpath', False),
    "Linkat": ('Path: oldpath, Path2: newpath', False),
}
HASBUF = ("read", "write", "pread", "pwrite")


def wrap(src, table, pkg):
    added = []
    for name, (fields, ret_int) in table.items():
        m = re.search(r"^func %s\((.*?)\) (\(.*\)|\w+) \{$" % name, src, re.M)
        if not m:
            raise SystemExit("hookgen: %s not found" % name)
        params, ret = m.group(1), m.group(2)
        argn = []
        for part in params.split(","):
            argn.append(part.strip().split(" ")[0])
        src = src[:m.start()] + "func verif_%s(%s) %s {" % (name, params, ret) + src[m.end():]
        call = "verif_%s(%s)" % (name, ", ".join(argn))
        q = "" if pkg == "syscall" else "syscall."
        do = "func() (int, error) { n, err := %s; return int(n), err }" % call if ret_int else "func() (int, error) { return 0, %s }" % call
        extra = ""
        if name in HASBUF:
            extra = ", DoBuf: func(b []byte) (int, error) { return verif_%s(%s) }" % (name, ", ".join("b" if a == "p" else a for a in argn))
        body = 'if %sVerifHook == nil {\n\t\treturn %s\n\t}\n' % (q, call)
        body += '\tn, err := %sVerifHook(&%sVerifOp{Name: "%s", %s, Do: %s%s})\n' % (q, q, name.lower(), fields, do, extra)
        if ret_int:
            t = "int64" if name == "Seek" else "int"
            body += "\treturn %s(n), err" % t
            sig = "(int64, error)" if name == "Seek" else "(int, error)"
        else:
            body += "\t_ = n\n\treturn err"
            sig = "error"
        added.append("func %s(%s) %s {\n\t%s\n}\n" % (name, params, sig, body))
    return src + "\n" + "\n".join(added)


def overlay(d, goroot):
    os.makedirs(d, exist_ok=True)
    rep = {}

    def put(rel, text):
        p = os.path.join(d, rel.replace("/", "_"))
        with open(p, "w") as fh:
            fh.write(text)
        rep[os.path.join(goroot, "src", rel)] = p

    def get(rel):
        with open(os.path.join(goroot, "src", rel)) as fh:
            return fh.read()

    rel = "syscall/zsyscall_linux_amd64.go"
    put(rel, wrap(get(rel), SYSCALL, "syscall") + DECL)
    rel = "internal/syscall/unix/at.go"
    put(rel, wrap(get(rel), UNIX, "unix"))
    # copies between files then use read and write
    rel = "internal/poll/copy_file_range_linux.go"
    src = get(rel)
    if "unix.KernelVersionGE(5, 3)" not in src:
        raise SystemExit("hookgen: copy_file_range changed")
    put(rel, src.replace("unix.KernelVersionGE(5, 3)", "unix.KernelVersionGE(5000, 3)"))
    # the clock
    rel = "time/time.go"
    src = get(rel)
    if src.count("\nfunc Now() Time {\n") != 1:
        raise SystemExit("hookgen: time.Now changed")
    put(rel, src.replace("\nfunc Now() Time {\n", """
func Now() Time {
	if VerifClock != nil {
		if at, ok := VerifClock(); ok {
			return Unix(0, at)
		}
	}
	return verifNow()
}

// VerifClock is asked for the time first, when set.
var VerifClock func() (int64, bool)

func verifNow() Time {
"""))
    # the identity of the calling goroutine
    put("runtime/zz_verif.go", "package runtime\n\n// VerifGoid is the identity of the calling goroutine.\nfunc VerifGoid() uint64 { return uint64(getg().goid) }\n")
    return rep
