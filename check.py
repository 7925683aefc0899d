#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--families a,b] [--scale X]

Builds the instrumented library from /repo's working tree, runs the property's workloads under its monitors in
parallel worker processes, and gives a verdict:
  exit 0  held on everything explored          exit 1  VIOLATION (with a replay file)
  exit 2  inconclusive (a monitor was not reached, a build failed, a watchdog fired)
"""
import argparse
import concurrent.futures
import json
import os
import re
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from rt import build, meta  # noqa: E402

CLK = os.sysconf("SC_CLK_TCK")


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read()
        v = s[s.rindex(")") + 2:].split()
        return (int(v[11]) + int(v[12])) / CLK
    except (OSError, ValueError):
        return None


def read_heart(path):
    with open(path, "rb") as f:
        b = f.read(512)
    k, cpu, n = struct.unpack("<qdI", b[:20])
    return k, cpu, b[20:20 + n].decode(errors="replace")


class Shard:
    hang = threading.Event()

    def __init__(self, prop, flavor, site, shard, n, args, tmp, cap, limit):
        self.prop, self.flavor, self.site, self.shard, self.n = prop, flavor, site, shard, n
        self.args, self.tmp, self.cap, self.limit = args, tmp, cap, limit
        self.results, self.violations, self.errors = [], [], []

    def run(self):
        skip, t0 = 0, time.time()
        for attempt in range(4):
            cap = max(5.0, self.cap - (time.time() - t0))
            again = self.once(skip, cap, attempt)
            if again is None:
                return self
            skip = again
        return self

    def once(self, skip, cap, attempt):
        base = os.path.join(self.tmp, f"{self.flavor}-{self.shard}-{attempt}")
        heart, out, err = base + ".hb", base + ".json", base + ".err"
        with open(heart, "wb") as f:
            f.write(b"\0" * 512)
        cmd = [build.PY, "-S", "-X", "faulthandler", "-m", "rt.worker", self.prop, self.args.tier, str(self.args.seed),
               str(self.shard), str(self.n), out, heart, "--skip", str(skip), "--cap", str(cap), "--flavor", self.flavor,
               "--site", self.site, "--scale", str(self.args.scale)]
        if self.args.families:
            cmd += ["--families", self.args.families]
        if self.args.only:
            cmd += ["--only", self.args.only]
        e = build.run_env(self.flavor, self.site)
        e["VP_TMP"] = self.tmp
        for k, v in meta.PROPS[self.prop].get("env", {}).items():
            e[k] = v.replace("{VERIF}", VERIF)
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, cwd=VERIF, env=e, stderr=ef, stdout=None if self.args.only else ef,
                                 preexec_fn=meta.limit_memory if self.flavor == "plain" else meta.die_with_parent, start_new_session=True)
        last, last_wall, why = None, time.time(), None
        while True:
            try:
                rc = p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            k, c0, name = read_heart(heart)
            now = time.time()
            if (k, name) != last:
                last, last_wall = (k, name), now
            c = cpu_of(p.pid)
            if self.hang.is_set():
                why = "stopped"
            elif name and c is not None and c - c0 > self.limit:
                why = f"case {name} used more than {self.limit:.0f} s of CPU without finishing"
            elif now - last_wall > 600:
                why = "wall"
            if why:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                rc = p.wait()
                break
        text = open(err, "rb").read().decode(errors="replace")
        if os.path.exists(out) and not why:
            r = json.load(open(out))
            r["stderr"] = text
            r["rc"] = rc
            self.results.append(r)
            return None
        k, c0, name = read_heart(heart)
        if why == "wall":
            self.errors.append(f"watchdog: no progress in {name} for 600 s")
            return None
        if why == "stopped":                # another shard already reported a call that does not end
            return None
        if why:
            self.violations.append({"key": "non-termination:" + name.rsplit(":", 1)[0], "msg": why, "case": name})
            self.hang.set()                 # one is enough: further ones would only eat the time limit
            return None
        if rc < 0 or rc > 128 or "Sanitizer" in text or "runtime error:" in text:
            if not name:
                self.errors.append(f"worker died before the first case (rc {rc}): {text[-2000:]}")
                return None
            self.violations.append({"key": crash_key(text, rc, name), "case": name,
                                    "msg": f"interpreter died (rc {rc}) in case {name}\n" + crash_text(text)})
            return k + 1
        self.errors.append(f"worker failed (rc {rc}): {text[-3000:]}")
        return None


def crash_key(text, rc, name):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    fr = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*(?:convolution|wt|wavelets|common|cwt)(?:\.template)?\.c", text)
    where = ":" + fr.group(1) if fr else ""
    if m:
        return "asan:" + m.group(1) + where
    m = re.search(r"(\w+(?:\.template)?\.\w+):\d+:\d+: runtime error: ([^\n]*)", text)
    if m:
        return "ubsan:" + m.group(1) + ":" + re.sub(r"[-0-9x.e+]+", "#", m.group(2))[:60]
    s = -rc if rc < 0 else rc - 128
    return f"crash:signal{s}:" + name.rsplit(":", 1)[0]


def crash_text(text):
    for pat in ("ERROR: AddressSanitizer", "runtime error:", "Fatal Python error"):
        i = text.find(pat)
        if i >= 0:
            return text[max(0, i - 200):i + 2500]
    return text[-2500:]


def load_known(prop):
    known, path = [], os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.-]+", "_", s)[:80]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--families")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=0)
    args = ap.parse_args()
    prop, m = args.prop, meta.PROPS[args.prop]
    if args.tier == "quick":
        args.scale *= m.get("more", 1)
    t0 = time.time()
    flavors = m.get("flavors", ["plain"])
    if args.replay:
        rep = json.load(open(args.replay))
        args.seed, args.only, flavors, args.tier = rep["seed"], rep["case"], [rep["flavor"]], rep["tier"]
    if args.families or args.only:
        args.partial = True
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = {f: ex.submit(build.ensure, f) for f in flavors}
        for h in m.get("prepare", []):
            ex.submit(meta.PREPARE[h]).result()
        sites, bad = {}, None
        for f, fu in futs.items():
            try:
                sites[f] = fu.result()
            except Exception as e:
                bad = f"build of flavor {f} failed: {e}"
    if bad:
        print(bad)
        return 2
    t_build = time.time() - t0

    ncpu = len(os.sched_getaffinity(0)) or 8
    workers = args.workers or m.get("workers") or min(ncpu, 8)
    cap = m.get("cap", {}).get(args.tier, 240 if args.tier == "quick" else 780)
    limit = m.get("case_cpu", 90)
    with tempfile.TemporaryDirectory(prefix=f"vp-{prop}-") as tmp:
        shards = []
        for f in flavors:
            n = 1 if args.only else max(1, int(workers * m.get("share", {}).get(f, 1.0 / len(flavors)) + 0.5))
            lim = limit * (4 if f != "plain" else 1)
            for s in range(n):
                shards.append(Shard(prop, f, sites[f], s, n, args, tmp, cap, lim))
        with concurrent.futures.ThreadPoolExecutor(len(shards)) as ex:
            list(ex.map(lambda s: s.run(), shards))

    # ---- merge ----
    tot = {"calls": {}, "rejections": {}, "seen": {}, "cases": {}, "skipped": {}}
    sigs, worst, samples, errors, viol, oracles, done, planned, capped, extras = set(), {}, {}, [], [], 0, 0, 0, False, []
    for s in shards:
        errors += s.errors
        for v in s.violations:
            v["flavor"] = s.flavor
            viol.append(v)
        for r in s.results:
            for k in tot:
                for n, c in r[k].items():
                    tot[k][n] = tot[k].get(n, 0) + c
            sigs.update(r["sigs"])
            for k, v in r["worst"].items():
                worst[k] = max(worst.get(k, 0), v)
            for k, v in r["samples"].items():
                samples.setdefault(k, v)
            oracles += r["oracles"]
            done += r["done"]
            planned += r["planned"]
            capped |= r["capped"]
            if r.get("extra"):
                extras.append(r["extra"])
            for v in r["violations"]:
                v["flavor"] = s.flavor
                v["case"] = f"{v['family']}:{v['index']}"
                viol.append(v)
    if m.get("post"):
        viol += meta.POST[m["post"]](shards, extras, errors)

    known = load_known(prop)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    fresh, matched, by_key = [], {}, {}
    for v in viol:
        by_key.setdefault(v["key"], []).append(v)
    for key, vs in sorted(by_key.items()):
        hit = next((k for k in known if re.fullmatch(k[0], key)), None)
        if hit:
            matched[hit] = len(vs)
        else:
            fresh.append((key, vs))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k[1]} (observed {matched.get(k, 0)} times in this run)")
    for key, vs in fresh:
        v = vs[0]
        path = os.path.join(VERIF, "replays", f"{prop}-{slug(key)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "key": key, "seed": args.seed, "tier": args.tier, "case": v.get("case"),
                       "flavor": v["flavor"], "count": len(vs), "msg": v["msg"], "trace": v.get("trace"),
                       "sig": v.get("sig")}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  key={key} cases={len(vs)} first={v.get('case')}")
        print("  " + v["msg"].strip().replace("\n", "\n  ")[:1800])

    # ---- three-valued: was the monitor reached? ----
    inconclusive = list(errors)
    if not args.only and not args.families:
        for name, need in m.get("need_seen", {}).items():
            got = sum(c for k, c in {**tot["seen"], **tot["calls"]}.items() if re.fullmatch(name, k))
            if got < need * min(1.0, args.scale):
                inconclusive.append(f"monitor counter {name} saw {got} events, at least {need} needed")
        if done < m.get("min_cases", 100) * min(1.0, args.scale):
            inconclusive.append(f"only {done} cases ran")
    wall = time.time() - t0
    cov = {"evaluations": done, "distinct_nontrivial": len(sigs), "rule": m["rule"],
           "samples": [{"family": k, **v} for k, v in sorted(samples.items())][:12],
           "oracle_comparisons": oracles, "cases_by_family": tot["cases"], "skipped_by_family": tot["skipped"],
           "library_calls_observed": tot["calls"], "rejections_observed": tot["rejections"],
           "states_observed": tot["seen"], "flavors": flavors, "planned_cases": planned, "stopped_by_time_cap": capped,
           "worst_error_over_tolerance": {k: round(v, 4) for k, v in sorted(worst.items(), key=lambda t: -t[1])[:12]},
           "slowest_cases_s": sorted((v for s in shards for r in s.results for v in r.get("slow", [])), reverse=True)[:6],
           "build_s": round(t_build, 1)}
    if extras:
        cov["extra"] = extras[:8]
    ev = {"property": prop, "tier": "thorough" if args.tier == "thorough" else "quick", "seed": args.seed,
          "level": m.get("level", "exploration"), "coverage": cov,
          "assumptions": m.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    if not args.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if fresh:
        return 1
    if inconclusive:
        for i in inconclusive:
            print("INCONCLUSIVE " + i[-700:])
        return 2
    print(f"{prop}: held on {done} cases ({len(sigs)} distinct), {oracles} oracle comparisons, "
          f"{sum(tot['calls'].values())} library calls, {wall:.1f} s (build {t_build:.1f} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
