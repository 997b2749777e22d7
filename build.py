#!/usr/bin/env python3
"""Build the simulator and the node images (hw and sw) from /repo's working tree.

usage: build.py OUTDIR [REPO]     -> OUTDIR/vsim OUTDIR/node-hw.so OUTDIR/node-sw.so
"""
import glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
LIBDIRS = ["alg", "cpusupport", "crypto", "datastruct", "events", "netbuf", "network", "util"]
SKIP = {"perftest.c"}
POSIX = ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), r.stdout))
        raise SystemExit(3)
    return r.stdout


def node_flags(name):
    f = []
    if "aesni" in name: f += ["-maes", "-mssse3"]
    if "shani" in name: f += ["-msse2", "-msha", "-mssse3", "-msse4.1"]
    if "sse2" in name: f += ["-msse2"]
    if "ssse3" in name: f += ["-mssse3"]
    if "rdrand" in name: f += ["-mrdrnd"]
    return f


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


class Builder:
    def __init__(self, out, repo, jobs=8):
        self.out, self.repo, self.jobs = out, repo, jobs
        os.makedirs(out, exist_ok=True)
        self.pool = ThreadPoolExecutor(jobs)

    def cached(self, target, key):
        kf = target + ".key"
        return os.path.exists(target) and os.path.exists(kf) and open(kf).read() == key

    def mark(self, target, key):
        open(target + ".key", "w").write(key)

    # ---- node image
    def node(self, variant):
        repo = self.repo; d = os.path.join(self.out, variant); os.makedirs(d, exist_ok=True)
        cfg = os.path.join(d, "cfg"); os.makedirs(cfg, exist_ok=True)
        cpu = ["CPUSUPPORT_HWCAP_GETAUXVAL", "CPUSUPPORT_X86_CPUID", "CPUSUPPORT_X86_CPUID_COUNT", "CPUSUPPORT_X86_AESNI",
               "CPUSUPPORT_X86_SHANI", "CPUSUPPORT_X86_SSE2", "CPUSUPPORT_X86_SSSE3"] if variant == "hw" else []
        open(os.path.join(cfg, "cpusupport-config.h"), "w").write("".join("#define %s 1\n" % c for c in cpu) or "/* none */\n")
        open(os.path.join(cfg, "apisupport-config.h"), "w").write("#define APISUPPORT_NONPOSIX_SETGROUPS 1\n#define APISUPPORT_LIBCRYPTO_LOW_LEVEL_AES 1\n")
        inc = ["-I" + cfg]
        for x in sorted(glob.glob(repo + "/libcperciva/*")) + sorted(glob.glob(repo + "/lib/*")) + [repo + "/libcperciva/external/queue"]:
            if os.path.isdir(x) and os.path.basename(x) not in ("POSIX", "apisupport"): inc.append("-I" + x)
        base = ["gcc", "-std=c99", "-O2", "-g1", "-fPIC", "-fno-strict-aliasing", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"] + POSIX + [
            '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"', '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"'] + inc
        jobs, libobjs, prog = [], [], {"spiped": [], "spipe": []}
        included = set()      # .c files that other .c files #include are not compiled on their own
        for c in glob.glob(repo + "/lib*/**/*.c", recursive=True):
            included |= set(re.findall(r'#\s*include\s+"([^"]*\.c)"', open(c, errors="replace").read()))
        for sub in ["lib/*"] + ["libcperciva/" + x for x in LIBDIRS]:
            for c in sorted(glob.glob("%s/%s/*.c" % (repo, sub))):
                b = os.path.basename(c)
                if b in SKIP or b in included: continue
                o = os.path.join(d, "L_" + b[:-2] + ".o"); libobjs.append(o)
                jobs.append(base + node_flags(b) + ["-DSPIPED_SIM"] + (["-DOPTIONAL_MUTEX_PTHREAD_YES"] if b == "optional_mutex.c" else []) + ["-c", c, "-o", o])
        for pr in prog:
            for c in sorted(glob.glob("%s/%s/*.c" % (repo, pr))):
                o = os.path.join(d, pr + "_" + os.path.basename(c)[:-2] + ".o"); prog[pr].append(o)
                jobs.append(base + ["-Dmain=%s_main" % pr, "-I%s/%s" % (repo, pr), "-c", c, "-o", o])
        drv = []
        for c in sorted(glob.glob(SIM + "/drv/*.c")):
            o = os.path.join(d, "D_" + os.path.basename(c)[:-2] + ".o"); drv.append(o)
            jobs.append(base + ["-I" + SIM + "/drv", "-c", c, "-o", o])
        return d, jobs, libobjs, prog, drv

    def link_node(self, variant, d, libobjs, prog, drv, symmap):
        parts = []
        for pr, objs in prog.items():
            p = os.path.join(d, pr + ".part.o"); run(["ld", "-r", "-o", p] + objs)
            run(["objcopy", "--keep-global-symbol=%s_main" % pr, p]); parts.append(p)
        if drv:
            p = os.path.join(d, "drv.part.o"); run(["ld", "-r", "-o", p] + drv)
            run(["objcopy", "--wildcard", "--keep-global-symbol=drv*_main", p]); parts.append(p)
        lib = os.path.join(d, "lib.a")
        if os.path.exists(lib): os.remove(lib)
        run(["ar", "rcs", lib] + libobjs)
        allo = os.path.join(d, "all.o"); run(["ld", "-r", "-o", allo] + parts + [lib])
        run(["objcopy", "--redefine-syms=" + symmap, allo])
        nohook = os.path.join(self.out, "node-%s.so.nohook" % variant)        # without /repo's SPIPED_SIM hook, sessions start at packet 0
        if os.path.exists(nohook): os.remove(nohook)
        if "spiped_sim_first_pnum" not in run(["nm", "-u", allo]): open(nohook, "w").close()
        so = os.path.join(self.out, "node-%s.so" % variant)
        run(["gcc", "-shared", "-o", so, allo, "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,norelro", "-lcrypto", "-lpthread", "-lrt"])
        return so

    def build(self):
        srcs = [f for f in glob.glob(SIM + "/*.cpp")]
        hdrs = glob.glob(SIM + "/*.h")
        jobs = []
        simobjs = []
        sd = os.path.join(self.out, "simobj"); os.makedirs(sd, exist_ok=True)
        for s in sorted(srcs):
            o = os.path.join(sd, os.path.basename(s)[:-4] + ".o"); simobjs.append(o)
            key = digest([s] + hdrs)
            if not self.cached(o, key):
                jobs.append((["g++", "-std=c++17", "-O1", "-g1", "-w", "-fno-strict-aliasing", "-c", s, "-o", o], o, key))
        nodes = {}
        allsrc = [f for f in glob.glob(self.repo + "/**/*.[ch]", recursive=True) if "/tests" not in f] + glob.glob(SIM + "/drv/*")
        nkey = digest(allsrc)
        todo = []
        for v in ("hw", "sw"):
            if not self.cached(os.path.join(self.out, "node-%s.so" % v), nkey):
                nodes[v] = self.node(v); todo += [(c, None, None) for c in nodes[v][1]]
        futs = [self.pool.submit(self.one, j) for j in jobs + todo]
        for f in futs: f.result()
        syms = run(["nm", "--defined-only", os.path.join(sd, "shim.o")])
        names = sorted(set(re.findall(r" [TBD] sim_(\w+)$", syms, re.M)))
        symmap = os.path.join(self.out, "symmap")
        open(symmap, "w").write("".join("%s sim_%s\n" % (n, n) for n in names))
        vsim = os.path.join(self.out, "vsim")
        l = [self.pool.submit(run, ["g++", "-rdynamic", "-o", vsim] + simobjs + ["-lcrypto", "-ldl", "-lpthread"])]
        for v, (d, _, libobjs, prog, drv) in nodes.items():
            l.append(self.pool.submit(self.link_node, v, d, libobjs, prog, drv, symmap))
        for f in l: f.result()
        for v in nodes: self.mark(os.path.join(self.out, "node-%s.so" % v), nkey)
        return vsim

    def one(self, job):
        cmd, o, key = job; run(cmd)
        if o: self.mark(o, key)


if __name__ == "__main__":
    out = sys.argv[1]; repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    Builder(out, repo).build()
