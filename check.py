#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree by static analysis:
  1. the tree is type-checked by rustc (nightly) with our driver, which writes the MIR of the
     crate, of the roots in harness/src/lib.rs and of everything they reach (dump.sh);
  2. the obligations of the property (sa/specs.py) are decided by abstract interpretation of
     that MIR.  No code of the crate is executed.
Exit 0: every obligation holds (or is a listed known finding).  Exit 1 + VIOLATION line otherwise.
"""
import json
import multiprocessing as mp
import multiprocessing.pool
import os
import re
import resource
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("REPO", "/repo")
SHARDS = int(os.environ.get("SA_SHARDS", "4"))

# configuration: (backend, debug assertions and overflow checks, optional features)
QUICK = ["u64", "u32"]
THOROUGH = ["u64", "u32", "u64-release", "u32-release", "u64-min", "u32-min"]
DEADLINE = {"quick": 640, "thorough": 2400}


def dump(cfg, out):
    """returns (ok, dropped roots, error text)"""
    src = open(os.path.join(HERE, "harness/src/lib.rs")).read().split("\n")
    dropped = []
    for attempt in range(4):
        with tempfile.NamedTemporaryFile("w", suffix=".rs", delete=False) as h:
            h.write("\n".join(src))
        try:
            r = subprocess.run(["bash", os.path.join(HERE, "dump.sh"), cfg, out, h.name], capture_output=True, text=True)
        finally:
            os.unlink(h.name)
        if r.returncode == 0:
            return True, dropped, ""
        lines = set()
        for m in re.finditer(r"^error[^\n]*\n\s*--> (\S+?):(\d+):\d+", r.stderr, re.M):
            if m.group(1) == "src/lib.rs":
                lines.add(int(m.group(2)))
        todo = []
        for ln in sorted(lines):
            m = re.match(r"\s*pub fn (\w+)\(", src[ln - 1])
            if m and src[ln - 1].rstrip().endswith("}"):
                todo.append((ln, m.group(1)))
        if not todo or len(todo) != len(lines):
            return False, dropped, r.stderr[-3000:]
        errs = [e for e in re.findall(r"^error[^\n]*", r.stderr, re.M)]
        for ln, nm in todo:
            src[ln - 1] = ""
            dropped.append((nm, errs[0] if errs else ""))
    return False, dropped, "harness does not compile"


def site(c, name):
    """crate function behind an obligation, for reports"""
    root = name.split("::", 1)[1] if name.startswith(("op::", "agree::")) else name
    if root in c.P.roots:
        i = c.target(c.P.roots[root])
        sp = i.get("sp")
        return "%s (%s:%s)" % (i["name"], c.P.file(sp).replace("/repo/", ""), sp[1]) if sp else i["name"]
    return ""


def worker(prop, cfg, path, dropped, shard, nsh, deadline, q):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    try:
        from sa import mir, specs
        c = specs.Ctx(mir.Program(path, cfg.split("-")[0]), cfg.split("-")[0])
        c.limit = 300
        c.minimal = cfg.endswith("-min")
        dn = dict(dropped)
        obs = [o for o in specs.OBS if o[0] == prop]
        for k, (_, name, desc, f) in enumerate(obs):
            if k % nsh != shard:
                continue
            t = time.time()
            root = name.split("::", 1)[1] if name.startswith(("op::", "agree::")) else name
            if c.minimal and root in specs.OPTIONAL_ROOTS:
                continue
            n, err = 0, None
            left = deadline - time.time()
            if left < 5:
                err = "not analysed: time budget of the check exhausted"
            elif root in dn:
                err = "public operation no longer exists with this signature: %s" % dn[root]
            else:
                c.limit = int(max(5, min(300, left)))
                try:
                    n = f(c)
                except specs.Fail as e:
                    err = str(e)
                except MemoryError:
                    err = "analysis budget exceeded (memory)"
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    err = "value outside the abstract domain (%s at %s:%d)" % (repr(e)[:120], os.path.basename(tb.filename), tb.lineno)
            q.put(("ob", cfg, name, desc, n if isinstance(n, int) else 1, err, site(c, name), round(time.time() - t, 2)))
        vis = {}
        for i in c.it.visited:
            inst = c.P.insts[i]
            b = c.P.body(i)
            nb = len(b.blocks)
            nc = sum(1 for bb in b.blocks if bb.t[0] == "call")
            vis[inst["name"]] = (inst["krate"], nb, nc)
        q.put(("done", cfg, shard, vis, len(c.P.insts), len(c.P.fns)))
    except BaseException as e:
        q.put(("crash", cfg, shard, traceback.format_exc()[-1500:]))


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for ln in open(p) if os.path.exists(p) else ():
        m = re.match(r"known: property=(\S+) obligation=(\S+) what=(.*)$", ln.strip())
        if m:
            out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in DEADLINE:
        tier = "quick"
    t0 = time.time()
    deadline = t0 + DEADLINE[tier]
    cfgs = QUICK if tier == "quick" else THOROUGH
    tmp = tempfile.mkdtemp(prefix="sa_")
    viol = []     # (config, obligation, where, message)
    results, visited, stats = [], {}, {}
    try:
        subprocess.run(["bash", os.path.join(HERE, "dump.sh"), "--driver"], check=True, stdout=subprocess.DEVNULL)
        with mp.pool.ThreadPool(len(cfgs)) as pool:
            dumps = pool.map(lambda c: dump(c, os.path.join(tmp, c + ".json")), cfgs)
        q = mp.Queue()
        procs = []
        for cfg, (ok, dropped, err) in zip(cfgs, dumps):
            if not ok:
                viol.append((cfg, "build", "", "configuration %s does not type-check: %s" % (cfg, err.strip()[-1200:])))
                continue
            for s in range(SHARDS):
                p = mp.Process(target=worker, args=(prop, cfg, os.path.join(tmp, cfg + ".json"), dropped, s, SHARDS, deadline, q))
                procs.append((cfg, s, p))
        live, pending, done = [], list(procs), set()
        maxp = 8
        while pending or live:
            while pending and len(live) < maxp:
                x = pending.pop(0)
                x[2].start()
                live.append(x)
            try:
                m = q.get(timeout=1.0)
            except Exception:
                m = None
            if m:
                if m[0] == "ob":
                    results.append(m[1:])
                elif m[0] == "done":
                    done.add((m[1], m[2]))
                    visited.setdefault(m[1], {}).update(m[3])
                    stats[m[1]] = (m[4], m[5])
                else:
                    done.add((m[1], m[2]))
                    viol.append((m[1], "analyser", "", m[3]))
                continue
            for x in list(live):
                if not x[2].is_alive():
                    live.remove(x)
                    x[2].join()
            if time.time() > deadline + 160:
                for x in live:
                    x[2].kill()
                pending = []
                live = []
        while True:
            try:
                m = q.get(timeout=0.3)
            except Exception:
                break
            if m[0] == "ob":
                results.append(m[1:])
            elif m[0] == "done":
                done.add((m[1], m[2]))
                visited.setdefault(m[1], {}).update(m[3])
                stats[m[1]] = (m[4], m[5])
        for cfg, s, p in procs:
            if (cfg, s) not in done:
                viol.append((cfg, "analyser", "", "analysis of shard %d did not finish (time or memory budget)" % s))
    finally:
        subprocess.run(["rm", "-rf", tmp])

    bad = [r for r in results if r[4]]
    if prop == "C31":
        # agreement: the obligation is the same specification; a backend that alone misses it disagrees with the others
        per = {}
        for r in results:
            per.setdefault(r[1], {})[r[0]] = r
        bad = [r for r in bad if any(not x[4] for x in per[r[1]].values())]
    kf = known()
    knownhits = []
    for cfg, name, desc, n, err, where, dt in bad:
        k = [x for x in kf if x[0] == prop and x[1] == name and x[2] == err]
        if k:
            knownhits.append((name, err, where))
        else:
            viol.append((cfg, name, where, err))
    for name, err, where in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s: %s %s" % (prop, name, err, where))

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    nob = len(results)
    fns = {}
    for cfg in visited:
        for nme, (kr, nb, nc) in visited[cfg].items():
            fns.setdefault(nme, []).append((cfg, kr, nb, nc))
    crate = sorted(n for n in fns if fns[n][0][1] == "ed448_goldilocks")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
        "coverage": {
            "obligations": nob, "discharged": nob - len(bad),
            "checker_cmd": "python3 /verif/check.py %s %s" % (prop, tier),
            "trusted_base": ["rustc (type checking, MIR construction)", "sa/ abstract interpreter and normal forms",
                             "fiat-crypto p448_solinas_64 functions meet their documented contracts", "subtle primitives meet their contracts",
                             "mathematical lemmas listed in DESIGN.md"],
            "rule": "abstract interpretation of MIR; an obligation holds when the abstract result equals the specified value for all inputs",
            "configurations": cfgs,
            "functions_analysed": len(fns), "crate_functions_analysed": crate,
            "basic_blocks": sum(x[2] for v in fns.values() for x in v),
            "call_sites": sum(x[3] for v in fns.values() for x in v),
            "facts_checked": sum(r[3] for r in results),
            "items": [{"config": r[0], "obligation": r[1], "about": r[2], "site": r[5], "holds": not r[4], "seconds": r[6]} for r in sorted(results, key=lambda r: (r[1], r[0]))],
        },
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if nob == 0 and not viol:
        viol.append(("-", "none", "", "no obligation was analysed"))
    if viol:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(HERE, "evidence", "replay", prop + ".txt")
        with open(rp, "w") as f:
            f.write("# re-run: cd %s && python3 check.py %s %s\n" % (HERE, prop, tier))
            for cfg, name, where, err in viol:
                f.write("[%s] %s %s\n    %s\n" % (cfg, name, where, err))
        for cfg, name, where, err in viol[:12]:
            print("  [%s] %s %s: %s" % (cfg, name, where, err[:400].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d obligations hold (%s; %d functions analysed, %.0f s)" % (prop, nob, ", ".join(cfgs), len(fns), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
