"""Generates the Go standard library overlay that hands map iteration order, the wall clock and
file-system calls to the harness.  Every textual replacement is asserted to happen."""
import os, re

MAPS_HOOK = '''package maps

// VerifHook, when set, decides where iteration over a map starts.
var VerifHook func(size uint64) uint64

// VerifSeed is the hash seed of every map made from now on.
var VerifSeed uint64 = 0x9E3779B97F4A7C15

func verifKey(i int) uint64 { return 0xBF58476D1CE4E5B9 * uint64(2*i+1) }

func verifRand(n uint64) uint64 {
	if h := VerifHook; h != nil {
		return h(n)
	}
	return 0
}
'''
RT_HOOK = '''package runtime

import "internal/runtime/maps"

// VerifSetMapHook installs the map iteration order hook.
// Maps of up to eight entries are walked from slot v&7 on, backwards if v&8 is set.
func VerifSetMapHook(f func(size uint64) uint64) { maps.VerifHook = f }

// VerifSetMapSeed sets the hash seed of the maps made from now on.
func VerifSetMapSeed(s uint64) { maps.VerifSeed = s }
'''
TIME_HOOK = '''package time

// VerifNow, when set, replaces the wall clock.
var VerifNow func() (sec int64, nsec int64)
'''
SYS_HOOK = '''package syscall

// VerifFS, when set, sees every file-system call before it happens and may answer it instead.
// pre: returns handled (the call is not made), and its result.
var VerifFS func(op string, fd int, path string, path2 string, data []byte, flags int) (handled bool, n int, err error)

// VerifPost sees the outcome of calls that were made.
var VerifPost func(op string, fd int, path string, path2 string, data []byte, flags int, n int, err error)
'''

def sub1(text, old, new, what):
    if text.count(old) < 1:
        raise SystemExit("goroot overlay: cannot find %s" % what)
    return text.replace(old, new, 1)

def wrap(text, name, sig, call, op, fd, path, path2, data, flags, ret):
    """Renames func name(sig) to verif_name and adds a wrapper that consults the hooks."""
    decl = "func %s(%s" % (name, sig)
    if decl not in text:
        raise SystemExit("goroot overlay: cannot find %s" % decl)
    head_end = text.index("{", text.index(decl))
    header = text[text.index(decl):head_end]
    text = text.replace(decl, "func verif_%s(%s" % (name, sig), 1)
    n = "n" if ret == "n" else ("fd_" if ret == "fd" else "0")
    body = header + "{\n"
    body += "\tif h := VerifFS; h != nil {\n\t\tif handled, hn, herr := h(%s, %s, %s, %s, %s, %s); handled {\n" % (op, fd, path, path2, data, flags)
    if ret == "":
        body += "\t\t\t_ = hn\n\t\t\treturn herr\n\t\t}\n\t}\n"
        body += "\tverr := verif_%s(%s)\n\tif h := VerifPost; h != nil {\n\t\th(%s, %s, %s, %s, %s, %s, 0, verr)\n\t}\n\treturn verr\n}\n" % (name, call, op, fd, path, path2, data, flags)
    else:
        body += "\t\t\treturn hn, herr\n\t\t}\n\t}\n"
        body += "\tvn, verr := verif_%s(%s)\n\tif h := VerifPost; h != nil {\n\t\th(%s, %s, %s, %s, %s, %s, vn, verr)\n\t}\n\treturn vn, verr\n}\n" % (name, call, op, fd, path, path2, data, flags)
    return text + "\n" + body

def generate(goroot, outdir):
    os.makedirs(outdir, exist_ok=True)
    rep = {}
    src = os.path.join(goroot, "src")
    def put(rel, name, text):
        p = os.path.join(outdir, name)
        with open(p, "w") as f: f.write(text)
        rep[os.path.join(src, rel)] = p
    def get(rel):
        return open(os.path.join(src, rel)).read()

    t = get("internal/runtime/maps/table.go")
    t = sub1(t, "it.entryOffset = rand()", "it.entryOffset = verifRand(m.used)", "map entry offset")
    t = sub1(t, "it.dirOffset = rand()", "it.dirOffset = 0", "map directory offset")
    t = sub1(t, "k := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots", "k := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots\n\t\t\tif it.entryOffset&8 != 0 {\n\t\t\t\tk = uintptr(it.entryOffset-it.entryIdx) % abi.MapGroupSlots\n\t\t\t}", "small map walk")
    put("internal/runtime/maps/table.go", "maps_table.go", t)
    t = get("internal/runtime/maps/map.go")
    if t.count("m.seed = uintptr(rand())") < 2: raise SystemExit("goroot overlay: cannot find map seeds")
    put("internal/runtime/maps/map.go", "maps_map.go", t.replace("m.seed = uintptr(rand())", "m.seed = uintptr(VerifSeed)"))
    t = get("internal/runtime/maps/runtime_alg.go")
    t = sub1(t, "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(verifKey(i))", "hash key")
    t = sub1(t, "key[i] = bootstrapRand()", "key[i] = verifKey(i + 7)", "AES hash key")
    put("internal/runtime/maps/runtime_alg.go", "maps_alg.go", t)
    put("internal/runtime/maps/verif_hook.go", "maps_hook.go", MAPS_HOOK)
    put("runtime/verif_hook.go", "runtime_hook.go", RT_HOOK)

    t = get("time/time.go")
    t = sub1(t, "func Now() Time {\n", "func Now() Time {\n\tif h := VerifNow; h != nil {\n\t\ts, ns := h()\n\t\treturn Time{uint64(ns), s + unixToInternal, Local}\n\t}\n", "time.Now")
    put("time/time.go", "time_time.go", t)
    put("time/verif_hook.go", "time_hook.go", TIME_HOOK)

    t = get("syscall/zsyscall_linux_amd64.go")
    t = wrap(t, "write", "fd int, p []byte)", "fd, p", '"write"', "fd", '""', '""', "p", "0", "n")
    t = wrap(t, "pwrite", "fd int, p []byte, offset int64)", "fd, p, offset", '"pwrite"', "fd", '""', '""', "p", "int(offset)", "n")
    t = wrap(t, "read", "fd int, p []byte)", "fd, p", '"read"', "fd", '""', '""', "p", "0", "n")
    t = wrap(t, "openat", "dirfd int, path string, flags int, mode uint32)", "dirfd, path, flags, mode", '"open"', "dirfd", "path", '""', "nil", "flags", "fd")
    t = wrap(t, "unlinkat", "dirfd int, path string, flags int)", "dirfd, path, flags", '"unlink"', "dirfd", "path", '""', "nil", "flags", "")
    t = wrap(t, "Close", "fd int)", "fd", '"close"', "fd", '""', '""', "nil", "0", "")
    t = wrap(t, "Fsync", "fd int)", "fd", '"fsync"', "fd", '""', '""', "nil", "0", "")
    t = wrap(t, "Ftruncate", "fd int, length int64)", "fd, length", '"ftruncate"', "fd", '""', '""', "nil", "int(length)", "")
    t = wrap(t, "Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string)", "olddirfd, oldpath, newdirfd, newpath", '"rename"', "olddirfd", "oldpath", "newpath", "nil", "0", "")
    t = wrap(t, "Mkdirat", "dirfd int, path string, mode uint32)", "dirfd, path, mode", '"mkdir"', "dirfd", "path", '""', "nil", "0", "")
    put("syscall/zsyscall_linux_amd64.go", "zsyscall.go", t)
    put("syscall/verif_hook.go", "syscall_hook.go", SYS_HOOK)

    t = get("os/proc.go")
    t = sub1(t, "func Exit(code int) {\n", "func Exit(code int) {\n\tif h := VerifExit; h != nil {\n\t\th(code)\n\t}\n", "os.Exit")
    t += "\n// VerifExit, when set, is told before the process ends.\nvar VerifExit func(code int)\n"
    put("os/proc.go", "os_proc.go", t)
    return rep
