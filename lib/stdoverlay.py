"""Generates a `go build -overlay` file that routes the file system calls of the Go standard library
through syscall.VerifHook.  Neither /repo nor the Go installation is changed: the overlay only exists
for the build of the harness, and the hook does nothing until the harness installs one."""
import json, os, re, subprocess

# function name in zsyscall_linux_amd64.go -> (fields of VerifCall to fill, result)
FUNCS = {
    "openat":   ("Path: path, Fd: -1, Flags: flags", "fd"),
    "read":     ("Fd: fd, P: p", "n"),
    "write":    ("Fd: fd, P: p", "n"),
    "pread":    ("Fd: fd, P: p, Off: offset", "n"),
    "pwrite":   ("Fd: fd, P: p, Off: offset", "n"),
    "Seek":     ("Fd: fd, Off: offset, Flags: whence", "off"),
    "Ftruncate": ("Fd: fd, Off: length", None),
    "Truncate": ("Path: path, Fd: -1, Off: length", None),
    "unlinkat": ("Path: path, Fd: -1, Flags: flags", None),
    "Renameat": ("Path: oldpath, Path2: newpath, Fd: -1", None),
    "linkat":   ("Path: oldpath, Path2: newpath, Fd: -1", None),
    "symlinkat": ("Path: oldpath, Path2: newpath, Fd: -1", None),
    "Mkdirat":  ("Path: path, Fd: -1", None),
    "fstatat":  ("Path: path, Fd: -1", None),
    "Fstat":    ("Fd: fd", None),
    "Fsync":    ("Fd: fd", None),
    "Fdatasync": ("Fd: fd", None),
    "Flock":    ("Fd: fd, Flags: how", None),
    "Close":    ("Fd: fd", None),
}

HOOK = '''package syscall

// VerifCall is one system call on behalf of the harness' hook.
type VerifCall struct {
	Op    string
	Path  string
	Path2 string
	Fd    int
	Flags int
	Off   int64
	P     []byte
	N     int64
	Err   error
}

// VerifHook, when set, decides whether and when a call is made: real makes it and fills N and Err.
var VerifHook func(c *VerifCall, real func())
'''


def goroot():
    return subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()


def generate(outdir):
    root = goroot()
    zsrc = os.path.join(root, "src/syscall/zsyscall_linux_amd64.go")
    s = open(zsrc).read()
    wrappers = []
    for name, (fields, res) in FUNCS.items():
        m = re.search(r"^func %s\((.*?)\) \((.*?)\) \{$" % name, s, re.M)
        if not m:
            continue
        params, results = m.group(1), m.group(2)
        s = s.replace(m.group(0), "func verifOrig_%s(%s) (%s) {" % (name, params, results))
        args = ", ".join(p.split()[0] for p in params.split(", "))
        body = ["func %s(%s) (%s) {" % (name, params, results),
                "\tif h := VerifHook; h != nil {",
                "\t\tc := &VerifCall{Op: %s, %s}" % (json.dumps(name.lower()), fields),
                "\t\th(c, func() {"]
        call_args = args
        if "P: p" in fields:
            call_args = re.sub(r"\bp\b", "c.P", args)
        if res:
            body += ["\t\t\tr, e := verifOrig_%s(%s)" % (name, call_args),
                     "\t\t\tc.N, c.Err = int64(r), e"]
        else:
            body += ["\t\t\tc.Err = verifOrig_%s(%s)" % (name, call_args)]
        body += ["\t\t})"]
        if res:
            ty = dict(x.split() for x in results.split(", "))[res]
            body += ["\t\treturn %s(c.N), c.Err" % ty]
        else:
            body += ["\t\treturn c.Err"]
        body += ["\t}", "\treturn verifOrig_%s(%s)" % (name, args), "}", ""]
        wrappers.append("\n".join(body))
    os.makedirs(outdir, exist_ok=True)
    z = os.path.join(outdir, "zsyscall_linux_amd64.go")
    open(z, "w").write(s + "\n" + "\n".join(wrappers))
    hk = os.path.join(outdir, "verif_hook.go")
    open(hk, "w").write(HOOK)
    # copying between files takes the read/write path, which the hook can see
    csrc = os.path.join(root, "src/internal/syscall/unix/copy_file_range_unix.go")
    c = open(csrc).read()
    c = c.replace("(n int, err error) {\n", "(n int, err error) {\n\tif syscall.VerifHook != nil {\n\t\treturn 0, syscall.ENOSYS\n\t}\n", 1)
    cf = os.path.join(outdir, "copy_file_range_unix.go")
    open(cf, "w").write(c)
    # ending the process: an operation of the code under test must not end the harness
    psrc = os.path.join(root, "src/os/proc.go")
    pr = open(psrc).read()
    assert "func Exit(code int) {\n" in pr
    pr = pr.replace("func Exit(code int) {\n", "// VerifExit sees every Exit first\nvar VerifExit func(code int)\n\nfunc Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n", 1)
    pf = os.path.join(outdir, "proc.go")
    open(pf, "w").write(pr)
    rep = {psrc: pf, zsrc: z, os.path.join(root, "src/syscall/verif_hook.go"): hk, csrc: cf}
    ov = os.path.join(outdir, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    return ov


if __name__ == "__main__":
    import sys
    print(generate(sys.argv[1]))
