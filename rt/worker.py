"""Runs one shard of a property's cases inside an instrumented interpreter.

argv: prop tier seed shard nshards outfile heartbeat [--only family:index] [--skip n] [--cap seconds]
"""
import argparse
import contextlib
import importlib
import io
import json
import mmap
import os
import random
import struct
import sys
import time
import traceback

p = argparse.ArgumentParser()
p.add_argument("prop")
p.add_argument("tier")
p.add_argument("seed", type=int)
p.add_argument("shard", type=int)
p.add_argument("nshards", type=int)
p.add_argument("out")
p.add_argument("heart")
p.add_argument("--only")
p.add_argument("--skip", type=int, default=0)
p.add_argument("--cap", type=float, default=1e9)
p.add_argument("--flavor", default="plain")
p.add_argument("--site")
p.add_argument("--families")
p.add_argument("--scale", type=float, default=1.0)
a = p.parse_args()

import faulthandler
import warnings
faulthandler.enable()
warnings.simplefilter("ignore")

import pywt
if a.site and not os.path.realpath(pywt.__file__).startswith(os.path.realpath(a.site) + os.sep):
    print("wrong pywt: " + pywt.__file__, file=sys.stderr)
    sys.exit(3)

from rt import core, gen

mod = importlib.import_module("rt.props." + a.prop.lower())
MAXV = 12


def plan(fams, tier, scale):
    """Interleaved (family, index) list: all families advance together."""
    counts = [(f, max(1, int(round((f.quick if tier == "quick" else f.thorough) * scale)))) for f in fams]
    total = sum(c for _, c in counts)
    items = []
    for f, c in counts:
        for i in range(c):
            items.append(((i + 0.5) / c, f.name, i))
    items.sort()
    return [(n, i) for _, n, i in items], total


def main():
    fams = [f for f in mod.FAMILIES if a.flavor in f.flavors]
    if a.families:
        names = a.families.split(",")
        fams = [f for f in fams if f.name in names]
    by = {f.name: f for f in fams}
    if a.only:
        fam, idx = a.only.rsplit(":", 1)
        todo = [(fam, int(idx))]
    else:
        todo, _ = plan(fams, a.tier, a.scale)
        perm = list(range(len(todo)))
        random.Random(1).shuffle(perm)          # so that expensive families spread over the shards
        todo = [todo[i] for i in sorted(perm[a.shard::a.nshards])]
    sh = core.Shared()
    f = open(a.heart, "r+b")
    hb = mmap.mmap(f.fileno(), 512)

    def beat(k, name):
        b = name.encode()[:200]
        hb[0:512] = struct.pack("<qdI", k, time.process_time(), len(b)) + b + b"\0" * (512 - 20 - len(b))

    t0 = time.time()
    done = 0
    capped = False
    slow = []
    out = io.StringIO()                     # what the library prints: nothing
    for k, (fam, idx) in enumerate(todo):
        if k < a.skip:
            continue
        if time.time() - t0 > a.cap:
            capped = True
            break
        beat(k, f"{fam}:{idx}")
        ctx = core.Ctx(a.prop, fam, idx, a.seed, a.tier, sh)
        sh.pending_sig = None
        gen.boost(None, 1)
        if by[fam].boost and ctx.rng.random() < by[fam].boost:
            gen.boost(ctx.rng, 40 if a.tier == "quick" else 120)
            ctx.see("longer signals" if gen.LONG > 1 else "larger arrays")
        c0 = time.time()
        try:
            if a.prop == "C24":
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    by[fam].fn(ctx)
                if out.tell():
                    text = out.getvalue()
                    out.seek(0)
                    out.truncate()
                    raise core.Violation(f"prints:{fam}", f"a call wrote {text[:300]!r}")
            else:
                by[fam].fn(ctx)
        except core.Skip:
            sh.skipped[fam] += 1
            continue
        except core.Violation as v:
            sh.violations.append({"key": v.key, "msg": v.msg[:1500], "family": fam, "index": idx, "trace": ctx.trace[-12:],
                                  "sig": ctx.notes[-1:]})
        except Exception as e:
            tb = traceback.format_exc()
            sh.violations.append({"key": f"exception:{fam}:{type(e).__name__}", "msg": tb[-1500:], "family": fam,
                                  "index": idx, "trace": ctx.trace[-12:], "sig": ctx.notes[-1:]})
        slow.append((round(time.time() - c0, 3), f"{fam}:{idx}"))
        if len(slow) > 40:
            slow.sort(reverse=True)
            del slow[6:]
        sh.cases[fam] += 1
        sh.oracles += ctx.oracles
        if ctx.oracles and sh.pending_sig:
            sh.sigs.add(sh.pending_sig)
        if fam not in sh.samples and ctx.trace:
            sh.samples[fam] = {"index": idx, "sig": ctx.notes[-1:], "calls": ctx.trace[:4]}
        done += 1
        if a.only:
            for line in ctx.trace:
                print("  " + line)
            for v in sh.violations:
                print(json.dumps(v, indent=1))
        if len(sh.violations) >= MAXV:
            break
    beat(len(todo), "finish")
    extra = mod.finish(sh, a) if hasattr(mod, "finish") else None
    d = sh.dump()
    if "rt.api" in sys.modules:
        d["calls"].pop("run", None)
        for n, c in sys.modules["rt.api"].RUNS.items():
            d["calls"][n] = d["calls"].get(n, 0) + c
    d["extra"] = extra
    d["slow"] = sorted(slow, reverse=True)[:6]
    d["done"] = done
    d["planned"] = len(todo)
    d["capped"] = capped
    d["wall"] = time.time() - t0
    with open(a.out + ".tmp", "w") as o:
        json.dump(d, o, default=float)
    os.replace(a.out + ".tmp", a.out)


main()
