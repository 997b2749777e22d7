#!/usr/bin/env python3
"""Deterministic-simulation checks for Tarsnap/spiped.

  run.py setup                         build the simulator (and the node images from /repo)
  run.py check P01 [quick|thorough]    decide one property; exit 0 / exit 1 + VIOLATION line / 2 = error
  run.py replay FILE [--trace]         re-run one replay file against /repo's current tree
  run.py determinism [N]               run N seeds of every property twice, in different processes
"""
import collections, concurrent.futures as cf, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as builder
from checks import CHECKS

REPO = os.environ.get("SPIPED_REPO", "/repo")
OUT = os.environ.get("VSIM_BUILD", os.path.join(HERE, "build"))
WORKERS = int(os.environ.get("VSIM_JOBS", "0")) or min(8, os.cpu_count() or 4)
KNOWN = os.path.join(HERE, "known-findings.txt")


# a run that takes the whole simulator down has written where no program may write
CRASH = "memory corruption that reached beyond the simulated process: the run died with signal %d"


class CheckError(Exception):
    pass


def do_build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        builder.Builder(OUT, REPO).build()


def vsim_cmd(tmp, *a):
    return [os.path.join(OUT, "vsim"), "--hw", os.path.join(OUT, "node-hw.so"), "--sw", os.path.join(OUT, "node-sw.so"), "--tmp", tmp] + [str(x) for x in a]


def cls(msg):
    """Violation class: the message with its numbers removed."""
    return re.sub(r"0x[0-9a-f]+|\d+", "#", msg)[:110]


class Sim:
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix="vsim.")
        self.n = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def run_text(self, text, trace=False, timeout=120):
        self.n += 1
        f = os.path.join(self.tmp, "p%d.plan" % self.n)
        with open(f, "w") as h: h.write(text)
        r = subprocess.run(vsim_cmd(self.tmp, "run", f, *(["--trace"] if trace else [])), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        os.unlink(f)
        if r.returncode < 0:
            return {"hash": "signal%d" % -r.returncode, "violations": [{"prop": text.split()[1] if text.startswith("plan") else "?", "t": 0.0, "msg": CRASH % -r.returncode}], "trace": ""}
        lines = r.stdout.strip().split("\n")
        try:
            d = json.loads(lines[-1])
        except Exception:
            raise CheckError("simulator failed (status %d): %s %s" % (r.returncode, r.stdout[-300:], r.stderr[-500:]))
        if trace: d["trace"] = "\n".join(lines[:-1])
        return d


def has_class(d, want):
    return any(cls(v["msg"]) == want for v in d["violations"])


# ---------------------------------------------------------------- minimisation
def parse(text):
    head, param, items = "", {}, []
    for l in text.split("\n"):
        if not l or l[0] == "#": continue
        w = l.split(" ")
        if w[0] == "plan": head = l
        elif w[0] == "param": param = dict(x.split("=", 1) for x in w[1:] if "=" in x)
        else: items.append((w[0], dict(x.split("=", 1) for x in w[1:] if "=" in x)))
    return head, param, items


def unparse(head, param, items):
    o = [head, "param" + "".join(" %s=%s" % k for k in sorted(param.items()))]
    for k, kv in items: o.append(k + "".join(" %s=%s" % x for x in sorted(kv.items())))
    return "\n".join(o) + "\n"


def minimise(sim, text, want, budget):
    t_end = time.time() + budget
    pool = cf.ThreadPoolExecutor(WORKERS)
    cur = parse(text)

    def ok(c):
        if time.time() > t_end: return False
        try: return has_class(sim.run_text(unparse(*c)), want)
        except Exception: return False

    def first(cands):
        """First candidate (in order) that still fails."""
        cands = list(cands)
        for i in range(0, len(cands), WORKERS):
            part = cands[i:i + WORKERS]
            for c, r in zip(part, pool.map(ok, part)):
                if r: return c
            if time.time() > t_end: return None
        return None

    changed = True
    while changed and time.time() < t_end:
        changed = False
        # drop items: halves, then single ones
        n = len(cur[2]); size = max(1, n // 2)
        while size >= 1 and n:
            h, p, it = cur
            c = first((h, p, it[:i] + it[i + size:]) for i in range(0, len(it), size))
            if c: cur = c; changed = True; n = len(cur[2])
            else: size //= 2
        h, p, it = cur
        for k in sorted(p):
            c = first([(h, {a: b for a, b in cur[1].items() if a != k}, cur[2])])
            if c: cur = c; changed = True
        for i in range(len(cur[2])):
            for k in sorted(cur[2][i][1]):
                if k in ("id", "at", "who", "call", "proc", "what"): continue
                h, p, it = cur
                c = first([(h, p, it[:i] + [(it[i][0], {a: b for a, b in it[i][1].items() if a != k})] + it[i + 1:])])
                if c: cur = c; changed = True
        # shrink numbers
        for i in range(len(cur[2])):
            for k in sorted(cur[2][i][1]):
                if k in ("id",): continue
                v = cur[2][i][1].get(k)
                if v is None or not re.fullmatch(r"\d+", v) or int(v) == 0: continue
                h, p, it = cur
                cands = [(h, p, it[:i] + [(it[i][0], dict(it[i][1], **{k: str(x)}))] + it[i + 1:]) for x in sorted({0, 1, int(v) // 4, int(v) // 2, int(v) - 1}) if x != int(v)]
                c = first(cands)
                if c: cur = c; changed = changed or len(cands) > 2 and c is not cands[-1]
    pool.shutdown(wait=True)
    return unparse(*cur)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", l)
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out


# ---------------------------------------------------------------- the check
def check(prop, tier):
    c = CHECKS[prop]; t0 = time.time()
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    print("VERIF_SEED=%d property=%s tier=%s" % (vseed, prop, tier), flush=True)
    do_build(); t_build = time.time() - t0
    count, cap = (c["quick"], 300) if tier == "quick" else (c.get("thorough", c["quick"] * 40), 1500)
    base = (vseed & 0xffff) * 1000000000
    known = known_findings(prop)
    sim = Sim()
    try:
        procs = []
        for i in range(WORKERS):
            n = (count - i + WORKERS - 1) // WORKERS
            out = open(os.path.join(sim.tmp, "w%d" % i), "w+"); prog = os.path.join(sim.tmp, "p%d" % i)
            a = ["batch", prop, base + 1 + i, WORKERS, n, "--time", cap, "--maxviol", 40 if known else 4, "--progress", prog] + (["--thorough"] if tier == "thorough" else [])
            procs.append((subprocess.Popen(vsim_cmd(sim.tmp, *a), stdout=out, stderr=subprocess.PIPE), out, prog))
        summ, viols, nondet, errs = [], [], [], []
        for p, out, prog in procs:
            err = p.communicate()[1].decode(errors="replace")
            out.seek(0); got = False
            for l in out:
                try: d = json.loads(l)
                except ValueError: errs.append("bad line: " + l[:200]); continue
                if "summary" in d: summ.append(d); got = True
                elif "seed" in d: viols.append(d)
                elif "nondet" in d: nondet.append(d)
            if not got:
                errs.append("worker died with status %s: %s" % (p.returncode, err[-400:]))
                try: seed = int(open(prog).read().split()[0])
                except (OSError, ValueError, IndexError): continue
                text = subprocess.run(vsim_cmd(sim.tmp, "gen", prop, seed, *(["--thorough"] if tier == "thorough" else [])), stdout=subprocess.PIPE, text=True).stdout
                d = sim.run_text(text)
                if d["violations"]: viols.append(dict(d, seed=seed, plan=text))
        t_search = time.time() - t0 - t_build
        # classify, drop known findings
        seen_known = collections.OrderedDict(); fresh = {}
        for d in sorted(viols, key=lambda d: len(d["plan"])):
            for v in d["violations"]:
                k = next((x for x in known if x[0].search(v["msg"])), None)
                if k: seen_known[k[1]] = 1
                else: fresh.setdefault(cls(v["msg"]), (d, v))
        reported = 0
        budget = 60 if tier == "quick" else 240
        # a run's first violation is usually the cause of its others: report one class per run
        used = set(); todo = []
        for k, (d, v) in sorted(fresh.items(), key=lambda x: (len(x[1][0]["plan"]), x[1][1]["t"])):
            if d["seed"] in used: continue
            used.add(d["seed"]); todo.append((k, d, v))
        for k, d, v in todo[:3]:
            r1 = sim.run_text(d["plan"]); r2 = sim.run_text(d["plan"])
            if not has_class(r1, k) or not has_class(r2, k):
                errs.append("violation of seed %d (%s) did not replay in a fresh process" % (d["seed"], k)); continue
            if r1["hash"] != r2["hash"] or r1["hash"] != d["hash"]: print("note: seed %d fails the same way every time, but its event log differs between runs" % d["seed"])
            text = minimise(sim, d["plan"], k, budget)
            r = sim.run_text(text); q = sim.run_text(text)
            if not has_class(r, k) or not has_class(q, k) or r["hash"] != q["hash"]:
                text = d["plan"]; r = r1
            msg = next(x["msg"] for x in r["violations"] if cls(x["msg"]) == k)
            rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, "%s-%d.plan" % (prop, d["seed"]))
            tr = sim.run_text(text, trace=True)
            with open(f, "w") as h:
                h.write("# property %s\n# violation: %s\n# found with VERIF_SEED=%d at seed %d; reproduce: python3 run.py replay %s\n# hash %s\n%s" % (prop, msg, vseed, d["seed"], os.path.relpath(f, HERE), r["hash"], text))
                h.write("# --- end of the execution trace (%d lines in all) ---\n" % tr["trace"].count("\n"))
                for l in tr["trace"].split("\n")[-120:]: h.write("#   " + l[:200] + "\n")
            print("%s: %s" % (prop, msg)); print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f, HERE)), flush=True)
            reported += 1
        if not reported and errs: raise CheckError("; ".join(errs))
        if not reported and nondet: raise CheckError("a run was not repeatable: %s" % nondet[:3])
        for k in seen_known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
        evidence(prop, tier, vseed, c, summ, t0, t_build, t_search, reported, count, list(seen_known))
        return 1 if reported else 0
    finally:
        sim.close()


def merge(summ, k):
    c = collections.Counter()
    for s in summ: c.update(s[k])
    return dict(sorted(c.items()))


REAL = ["spiped (main, dispatch, getopt)", "spipe (main, pushbits)", "lib/proto (conn, crypt, handshake, pipe)", "lib/dnsthread", "lib/util (graceful_shutdown, pthread_create_blocking_np)",
        "libcperciva: events, network, netbuf, alg, crypto (both hardware-accelerated and portable builds), datastruct, util", "libcrypto's BN_* (DH arithmetic), with failure injection in front"]
STUB = ["kernel: sockets, TCP/unix streams, pipes, files, descriptors, poll (deterministic model)", "clock and timers", "/dev/urandom (seeded stream)", "pthread mutexes, condition variables, threads and cancellation (one runs at a time, seeded choice)",
        "fork, wait, setsid, signals, credentials", "getaddrinfo (scripted resolver)", "malloc (checking allocator)", "client and target applications, the network attacker, and an independent reference implementation of the protocol (test parties)"]


def evidence(prop, tier, vseed, c, summ, t0, t_build, t_search, reported, count, known):
    runs = sum(s["runs"] for s in summ); sims = sum(s["sim_s"] for s in summ)
    states, scheds, nontriv = set(), set(), set()
    for s in summ: states.update(s["statehashes"]); scheds.update(s["schedhashes"]); nontriv.update(s["nontrivial"])
    wall = time.time() - t0
    cov = {
        "evaluations": runs, "distinct_nontrivial": len(nontriv),
        "rule": "One evaluation = one simulated execution of a plan drawn from one seed: " + c["cases"] + ". Non-trivial: at least one fault, perturbation or attack fired in the run and the system under test made at least 50 system calls; distinct by the hash of its full event log.",
        "samples": [x for s in summ[:3] for x in s["samples"]][:4],
        "runs": runs, "runs_requested": count, "seeds_first": (vseed & 0xffff) * 1000000000 + 1,
        "runs_per_hour": round(runs / max(t_search, 1e-3) * 3600), "simulated_seconds": round(sims, 1), "simulated_per_wall": round(sims / max(t_search, 1e-3), 1),
        "system_calls_simulated": sum(s["steps"] for s in summ),
        "faults_fired": merge(summ, "fired"), "runs_in_which_fault_fired": merge(summ, "runs_with"), "reach_probes": merge(summ, "probes"), "workload": merge(summ, "stat"),
        "distinct_interleavings": len(scheds), "interleaving_measure": "hash of the sequence of (thread, system call) choices of a whole run",
        "distinct_states": len(states), "state_measure": "hash of one process's descriptor table and socket states at each poll(); the number kept per worker is capped at 20000",
        "repeatability_checks": sum(s.get("rechecked", 0) for s in summ), "nondeterministic_runs": sum(s["nondet"] for s in summ),
        "components_real": REAL, "components_stub": STUB, "build_s": round(t_build, 1), "search_s": round(t_search, 1), "known_findings_seen": known,
    }
    ev = {"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": reported,
          "assumptions": ["The simulated kernel matches POSIX/Linux where the code depends on it (DESIGN.md lists the model's rules).", "A clean batch is a sample of executions, not a proof.", "Cryptographic primitives are assumed hard to break; the attacker is computationally ordinary."] + c.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    f = os.path.join(HERE, "evidence", prop + ".json")
    with open(f + ".tmp", "w") as h: json.dump(ev, h, indent=1)
    os.replace(f + ".tmp", f)
    print("%s %s: %d runs, %.0f simulated seconds, %d distinct interleavings, %d violation(s), %.1f s" % (prop, tier, runs, sims, len(scheds), reported, wall))
    dead = [k for k in c.get("must_fire", []) if not any(f.startswith(k) for s in summ for f in list(s["fired"]) + list(s["probes"]))]
    if dead: print("note: never fired in this batch: " + ", ".join(dead))


def replay(path, trace):
    do_build(); sim = Sim()
    try:
        text = open(path).read(); r = sim.run_text(text, trace=trace)
        if trace: print(r["trace"])
        m = re.search(r"^# hash (\w+)", text, re.M)
        for v in r["violations"]: print("t=%.6f %s: %s" % (v["t"], v["prop"], v["msg"]))
        print("hash %s%s" % (r["hash"], "" if not m else " (as recorded)" if m.group(1) == r["hash"] else " (recorded %s: the code differs)" % m.group(1)))
        return 1 if r["violations"] else 0
    finally: sim.close()


def determinism(n):
    do_build(); sim = Sim(); bad = 0; total = 0
    try:
        for prop in CHECKS:
            res = []
            for parts in (1, 3, 8):
                ps = [subprocess.Popen(vsim_cmd(sim.tmp, "hashes", prop, 777000001 + i, parts, (n - i + parts - 1) // parts), stdout=subprocess.PIPE, text=True) for i in range(parts)]
                h = {}
                for p in ps:
                    for l in p.communicate()[0].split("\n"):
                        if l: a, b = l.split(); h[int(a)] = b
                res.append(h)
            total += len(res[0])
            for s in res[0]:
                if len({r.get(s) for r in res}) != 1: bad += 1; print("nondeterministic: %s seed %d %s" % (prop, s, [r.get(s) for r in res]))
            print("%s: %d seeds x 3 process layouts, %d divergent so far" % (prop, len(res[0]), bad), flush=True)
    finally: sim.close()
    return 1 if bad else 0


def main(a):
    try:
        if a[0] == "setup": do_build(); return 0
        if a[0] == "check": return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
        if a[0] == "replay": return replay(a[1], "--trace" in a)
        if a[0] == "determinism": return determinism(int(a[1]) if len(a) > 1 else 200)
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr); return 2
    print(__doc__); return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
