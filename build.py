#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree: build.py [asan|thr ...]"""
import hashlib, os, re, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_OUT", os.path.join(V, "build"))
REDEF = """fopen fopen64 fdopen fclose fread fwrite fgets fgetc getc ungetc feof ferror clearerr fflush fseek fseeko fseeko64 ftell ftello ftello64
rewind setvbuf fileno fprintf vfprintf fputs fputc putc printf vprintf puts putchar perror getline remove rename access stat close
malloc calloc realloc free strdup strndup posix_memalign time gettimeofday clock_gettime localtime localtime_r gmtime mktime clock
nanosleep usleep sleep rand getpid getenv exit _exit abort select pthread_mutex_lock pthread_mutex_unlock pthread_once stdin stdout stderr""".split()
REDEF_THR = "memcpy memmove memset snprintf vsnprintf sprintf strncpy strcpy strlen strcmp strtok".split()
COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-builtin", "-U_FORTIFY_SOURCE", "-w", "-DLIBMSEED_URL", "-DLIBMSEED_SIM", "-I%s/libmseed" % REPO]
VAR = {
    "asan": dict(c=["-fsanitize=address,bounds,null,return", "-fno-sanitize-recover=all", "-fsanitize-coverage=trace-pc-guard"], l=["-fsanitize=address,bounds,null,return"], redef=REDEF),
    "thr": dict(c=["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"], l=[], redef=REDEF + REDEF_THR),
}
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()
def rd(p):
    with open(p, "rb") as f: return f.read()
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
ALSO = {"C21": "C07"}  # scenarios of the first that stand in the file of the second
def build(variants=("asan", "thr"), prop=None):
    """prop: link only that property's scenarios (sim/cNN.cc) with the common files"""
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    rsrc = sorted(glob.glob(REPO + "/libmseed/*.c")) + sorted(glob.glob(REPO + "/src/*.c"))
    rhdr = sha(*[x for p in sorted(glob.glob(REPO + "/libmseed/*.h") + glob.glob(REPO + "/src/*.h")) for x in (p, rd(p))])
    hsrc = sorted(p for p in glob.glob(V + "/sim/*.cc") if not (prop and re.match(r"c\d\d", os.path.basename(p)) and os.path.basename(p)[:3].upper() not in (prop, ALSO.get(prop))))
    name = "sim" + ("-" + prop if prop else "")
    hhdr = sha(*[x for p in sorted(glob.glob(V + "/sim/*.h")) for x in (p, rd(p))])
    libh = sha(rd(REPO + "/libmseed/libmseed.h"))
    res = {}; jobs = []; links = []
    for v in variants:
        cfg = VAR[v]; d = os.path.join(OUT, v); os.makedirs(d, exist_ok=True)
        objs = []; key = []
        for s in rsrc:
            main = os.path.basename(s) == "msi.c"
            fl = COMMON + cfg["c"] + (["-Dmain=msi_main"] if s.startswith(REPO + "/src") and main else [])
            if os.path.basename(s) == "yyjson.c": fl = fl + ["-O0"]  # 3 s instead of 17 s
            k = sha(rhdr, rd(s), fl, cfg["redef"], "1"); key.append(k)
            o = os.path.join(d, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append((o, k, ["clang", "-c", s, "-o", o + ".tmp"] + fl, cfg["redef"]))
        for s in hsrc:
            fl = ["-std=gnu++17", "-O1", "-g1", "-Wall", "-Wno-unused", "-I%s/libmseed" % REPO, "-DLIBMSEED_URL", "-DLIBMSEED_SIM", "-DSIM_VARIANT_" + v.upper()]
            k = sha(hhdr, libh, rd(s), fl); key.append(k)
            o = os.path.join(d, "sim_" + os.path.basename(s) + ".o"); objs.append(o)
            jobs.append((o, k, ["clang++", "-c", s, "-o", o + ".tmp"] + fl, None))
        links.append((os.path.join(d, name), sha(*key, cfg["l"]), ["clang++", "-o", os.path.join(d, name + ".tmp")] + objs + cfg["l"] + ["-lpthread", "-lm"]))
        res[v] = os.path.join(d, name)
    def fresh(o, k):
        try: return os.path.exists(o) and rd(o + ".key").decode() == k
        except OSError: return False
    def job(j):
        o, k, cmd, redef = j
        if fresh(o, k): return
        run(cmd)
        if redef:
            a = ["objcopy"]
            for s in redef: a += ["--redefine-sym", "%s=sim_%s" % (s, s)]
            run(a + [o + ".tmp"])
        os.replace(o + ".tmp", o)
        with open(o + ".key", "w") as f: f.write(k)
    with ThreadPoolExecutor(8) as ex: list(ex.map(job, jobs))
    for b, k, cmd in links:
        if fresh(b, k): continue
        run(cmd); os.replace(b + ".tmp", b)
        with open(b + ".key", "w") as f: f.write(k)
    return res
if __name__ == "__main__":
    try: print(build(sys.argv[1:] or ("asan", "thr")))
    except RuntimeError as e: print(e); sys.exit(3)
