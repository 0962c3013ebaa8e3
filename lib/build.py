"""Builds the library sources of /repo's working tree together with a harness, outside /repo."""
import hashlib, os, subprocess, glob, time, threading, fcntl, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")

COMMON = ["-std=gnu99", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-pthread", "-w"]
DEFS = ["-DDILL_SOCKETS=1", "-DHAVE_POSIX_MEMALIGN=1", "-DHAVE_MPROTECT=1", "-DHAVE_LIBRT=1",
        "-DHAVE_CLOCK_GETTIME=1", "-DDILL_EXPORTS", "-D_GNU_SOURCE"]
THREADS = ["-DDILL_THREADS=1", "-DDILL_PTHREAD=1"]
EPOLL = ["-DHAVE_EPOLL_CREATE=1", "-DHAVE_EPOLL=1"]
POLL = ["-DDILL_POLL"]
TLS = ["-DHAVE_TLS=1"]

SAN_ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,function", "-fno-sanitize-recover=all"]
# variants: compiler, flags of the library and harness, defs, extra
VARIANTS = {
    "asan":      dict(cc="clang", fl=["-O1"] + SAN_ASAN, df=THREADS + EPOLL + TLS),
    "asan-poll": dict(cc="clang", fl=["-O1"] + SAN_ASAN, df=THREADS + POLL + TLS),
    "gasan":     dict(cc="gcc", fl=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute", "-fno-sanitize-recover=all"], df=THREADS + EPOLL + TLS),
    "msan":      dict(cc="clang", fl=["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"], df=THREADS + EPOLL),
    "msan-poll": dict(cc="clang", fl=["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins"], df=THREADS + POLL),
    "tsan":      dict(cc="clang", fl=["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"], df=THREADS + EPOLL + TLS),
    "tsan-fb":   dict(cc="clang", fl=["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"], df=THREADS + EPOLL + TLS + ["-DDILL_THREAD_FALLBACK"]),
    "plain":     dict(cc="gcc", fl=["-O2"], df=THREADS + EPOLL + TLS),
    "plain-poll": dict(cc="gcc", fl=["-O2"], df=THREADS + POLL + TLS),
    "clang-O2":  dict(cc="clang", fl=["-O2"], df=THREADS + EPOLL + TLS),
    "gcc-O0":    dict(cc="gcc", fl=["-O0"], df=THREADS + EPOLL + TLS),
    "gcc-O3":    dict(cc="gcc", fl=["-O3"], df=THREADS + EPOLL + TLS),
    "archfb":    dict(cc="gcc", fl=["-O2", "-fno-stack-protector", "-fno-stack-clash-protection"], df=THREADS + EPOLL + TLS + ["-DDILL_ARCH_FALLBACK"]),
    "threadfb":  dict(cc="gcc", fl=["-O2"], df=THREADS + EPOLL + TLS + ["-DDILL_THREAD_FALLBACK"]),
    "census":    dict(cc="gcc", fl=["-O2"], df=THREADS + EPOLL + TLS + ["-DDILL_CENSUS"]),
    "nosockets": dict(cc="gcc", fl=["-O2"], df=THREADS + EPOLL, nosock=True),
    "noguard":   dict(cc="gcc", fl=["-O2"], df=THREADS + EPOLL + TLS + ["-DDILL_NOGUARD"]),
    "nothreads": dict(cc="gcc", fl=["-O2"], df=EPOLL + TLS),
    "nothreads-asan": dict(cc="clang", fl=["-O1"] + SAN_ASAN, df=EPOLL + TLS),
    "threadfb-asan": dict(cc="clang", fl=["-O1"] + SAN_ASAN, df=THREADS + EPOLL + TLS + ["-DDILL_THREAD_FALLBACK"]),
    "fuzz":      dict(cc="clang", fl=["-O1"] + SAN_ASAN, df=THREADS + EPOLL + TLS),
}
REDEF = """malloc calloc realloc posix_memalign aligned_alloc free strdup mprotect clock_gettime gettimeofday time
epoll_wait epoll_pwait epoll_create epoll_create1 epoll_ctl poll socket bind listen accept accept4 connect sendmsg recvmsg
send recv sendto recvfrom read write close dup socketpair shutdown getsockname getsockopt fopen open getifaddrs
freeifaddrs""".split()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:24]


def readf(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/")
    if p.returncode:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))


# what Makefile.am leaves out with --disable-sockets
SOCKETS = ("bsock fd happyeyeballs http iol ipc ipaddr msock prefix socks5 suffix tcp term udp ws tls").split()


def lib_sources(tls, sockets=True):
    s = sorted(glob.glob(REPO + "/*.c"))
    if not sockets:
        return [x for x in s if os.path.basename(x)[:-2] not in SOCKETS]
    if not tls:
        s = [x for x in s if os.path.basename(x) != "tls.c"]
    d = REPO + "/dns/dns.c"
    return s + [d]


def headers_key():
    hs = sorted(glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*.inc") + glob.glob(REPO + "/dns/*.h"))
    return sha(*[x for h in hs for x in (os.path.basename(h), readf(h))])


_pool = ThreadPoolExecutor(int(os.environ.get("DV_JOBS", "8")))
_pruned = False


def prune():
    """keeps the build folder small: drops files not used for two days, and all but the newest when too many"""
    global _pruned
    if _pruned:
        return
    _pruned = True
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    fs.sort(reverse=True)
    tot = 0
    now = time.time()
    for m, s, f in fs:
        tot += s
        if now - m > 2 * 86400 or (tot > 3 << 30 and now - m > 3600):
            try:
                os.unlink(f)
            except OSError:
                pass


def touch(p):
    try:
        os.utime(p)
    except OSError:
        pass


def compile_lib_obj(src, var, hkey, redef, dns_san):
    v = VARIANTS[var]
    isdns = src.endswith("/dns.c")
    fl = list(v["fl"])
    if isdns and not dns_san:
        fl = ["-O0"] if "-fsanitize=memory" not in fl else fl
        if "-fsanitize=thread" in v["fl"]:
            fl = list(v["fl"])
    shim = os.path.join(HARN, "tscshim.h")
    flags = COMMON + fl + [d for d in DEFS if d != "-DDILL_SOCKETS=1" or not v.get("nosock")] + v["df"] + (["-include", shim] if not isdns else [])
    key = sha(v["cc"], " ".join(flags), os.path.basename(src), readf(src), hkey, readf(shim), " ".join(redef))
    o = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(o):
        touch(o)
        return o
    t = "%s.%d.%d.tmp" % (o, os.getpid(), threading.get_ident())
    run([v["cc"]] + flags + ["-I", REPO, "-c", src, "-o", t], "compiling " + src)
    if redef:
        rs = t + ".syms"
        with open(rs, "w") as f:
            for s in redef:
                f.write("%s dv_%s\n" % (s, s))
        run(["objcopy", "--redefine-syms=" + rs, t], "objcopy")
        os.unlink(rs)
    os.rename(t, o)
    return o


def build(harness, var, extra=(), nosubst=False, dns_san=False):
    """returns the path of the executable for harness (name of harness/<name>.c) in the given variant"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    prune()
    v = VARIANTS[var]
    tls = "-DHAVE_TLS=1" in v["df"]
    hkey = headers_key()
    redef = [] if nosubst else REDEF
    srcs = lib_sources(tls, not v.get("nosock"))
    # longest first
    srcs.sort(key=lambda s: -os.path.getsize(s))
    futs = [_pool.submit(compile_lib_obj, s, var, hkey, redef, dns_san) for s in srcs]

    hs = [os.path.join(HARN, harness + ".c"), os.path.join(HARN, "dv.c")]
    hh = sha(*[x for h in sorted(glob.glob(HARN + "/*.h")) for x in (os.path.basename(h), readf(h))])

    def comp_h(src):
        flags = COMMON + v["fl"] + ["-D_GNU_SOURCE", "-DDV_VARIANT=\"%s\"" % var] + (["-DDV_TLS"] if tls else []) + v["df"] + list(extra)
        key = sha(v["cc"], " ".join(flags), src, readf(src), hh, hkey)
        o = os.path.join(BUILD, "obj", "h" + key + ".o")
        if os.path.exists(o):
            touch(o)
            return o
        t = "%s.%d.%d.tmp" % (o, os.getpid(), threading.get_ident())
        run([v["cc"]] + flags + ["-I", HARN, "-I", REPO, "-c", src, "-o", t], "compiling " + src)
        os.rename(t, o)
        return o
    hf = [_pool.submit(comp_h, s) for s in hs]
    objs = [f.result() for f in futs]
    hobjs = [f.result() for f in hf]
    key = sha(" ".join(objs + hobjs), " ".join(v["fl"]), "2")
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (harness, var, key[:12]))
    if os.path.exists(exe):
        touch(exe)
        return exe
    t = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    run([v["cc"]] + v["fl"] + ["-pthread", "-o", t] + hobjs + objs + ["-lrt", "-lm", "-ldl"] + (["-lssl", "-lcrypto"]), "linking " + harness)
    os.rename(t, exe)
    return exe


if __name__ == "__main__":
    t0 = time.time()
    try:
        print(build(sys.argv[1], sys.argv[2], dns_san=len(sys.argv) > 3))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("%.1fs" % (time.time() - t0), file=sys.stderr)
