"""What each check runs (read by the parent process; does not import pywt)."""
import ctypes
import resource


LIBC = ctypes.CDLL(None)


def die_with_parent():
    LIBC.prctl(1, 9, 0, 0, 0)      # PR_SET_PDEATHSIG, SIGKILL


def limit_memory():
    die_with_parent()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


PREPARE = {}
POST = {}
PROPS = {}


def prop(id, rule, **kw):
    PROPS[id] = dict(rule=rule, **kw)


R = "a case counts as distinct by its configuration signature (wavelet, mode, shape, axes, level, dtype ...), and as " \
    "non-trivial when at least one oracle comparison was made in it"

prop("C01", "random (wavelet, mode, length, axis, dtype, layout, data) and a length sweep of every wavelet x mode; " + R,
     min_cases=1000, need_seen={"mode:.*": 1000, "lengths swept": 5000, "N<F": 500})
prop("C02", "random round trips through every forward/inverse pair; " + R, min_cases=1000)
prop("C03", "random and impulse coefficient arrays, with missing subbands; " + R, min_cases=1000)
prop("C04", "random ranks, axes orders, per-axis wavelets and modes; " + R, min_cases=1000, need_seen={"axes out of order": 300})
prop("C05", "random decompositions compared with predictions and level-by-level transforms; " + R, min_cases=1000)
prop("C06", "random coefficient structures with distinct values at every position; " + R, min_cases=1000,
     need_seen={"padded": 300, "tight": 100})
prop("C07", "random and swept stationary transforms against the a-trous sum; " + R, min_cases=1000,
     need_seen={"upsampled filter longer than the signal": 300})
prop("C08", "random round trips and arbitrary coefficients; " + R, min_cases=1000)
prop("C09", "random analyses, every component compared; " + R, min_cases=500)
prop("C10", "random transforms, all subband indices, and random edit histories; " + R, min_cases=500)
prop("C11", "random packet trees of all three classes, nodes read by random access patterns; " + R, min_cases=1000,
     need_seen={"class [12n]": 500, "partial trees": 200})
prop("C12", "random histories of packet tree edits replayed on an executable model of the tree; " + R, min_cases=1500,
     need_seen={"op .*": 5000, "unmodified tree reconstructed": 50, "trees rebuilt": 100, "subsets reconstructed": 100})
prop("C13", "every built-in discrete wavelet (two spellings), its metadata, identities and the filters read back out of every "
     "kernel in four dtypes with impulses; random misspelt names; random filters through the helpers; " + R, min_cases=1000,
     need_seen={"kernel filters read back": 6000, "rejected names": 1000, "vanishing moments": 1000, "bior/rbio pairs": 60})
prop("C14", "random filter banks in twelve container forms, random histories of a pool of wavelet objects against a model, "
     "bit-comparison of copies, malformed banks; " + R, min_cases=1000,
     need_seen={"history steps": 5000, "copies": 300, "form .*": 1000, "malformed .*": 200})
prop("C15", "random and built-in wavelets at random refinement levels against an independent cascade and the two-scale relation; "
     "spectral peaks recomputed; " + R, min_cases=1000,
     need_seen={"functions compared": 2000, "two-scale relations": 1000, "central frequencies": 800})
prop("C16", "random wavelets (parameters, bounds, precisions), scales, shapes, axes, dtypes and methods against the sampled-integral "
     "definition; batching, permutation and linearity relations; " + R, min_cases=1000,
     need_seen={"rows compared conv": 500, "rows compared fft": 500, "structure .*": 300, "rejected .*": 200})
prop("C17", "random continuous wavelets, parameters by name and by attribute, grids and precisions against closed forms derived "
     "symbolically; malformed names; " + R, min_cases=1000,
     need_seen={"family .*": 2000, "samples compared": 100000, "rejected .*": 300})
prop("C18", "random data concentrated on and next to the thresholds, zeros, infinities and extreme magnitudes, in ten dtypes; "
     "every element compared with the documented formula in extended precision; " + R, min_cases=1000,
     need_seen={"elements compared": 100000, "array thresholds": 500, "firm limit hard": 100, "firm limit soft": 100})
prop("C27", "random partial transforms against the multilevel ones, the definition and the convolution cascade; sums over all subbands; " + R,
     min_cases=1000, need_seen={"take (odd|even) margin": 500, "aligned": 200, "part d level [2-5]": 300, "rejected .*": 500})
prop("C28", "every signal at every length 1..40 and random lengths against elementwise formulas; random histories of loads and writes against "
     "recorded contents; " + R, min_cases=1000, need_seen={"signal .*": 3000, "samples compared": 500000, "loads of .*": 1000, "names .*": 500})
prop("C19", "random arrays, widths in every accepted form and modes against the extension formulas; padded signals transformed and compared "
     "with the implicit extension; " + R, min_cases=1000,
     need_seen={"mode:.*": 3000, "one-sided": 500, "wider than the signal": 500, "interior .*": 2000, "rejected .*": 300})
prop("C20", "random calls of every public function with arguments in random layouts; snapshots of all argument buffers, containers and wavelet "
     "settings before and after, then every result overwritten and the call repeated; the same around failing calls; " + R, min_cases=1000,
     need_seen={"call .*": 5000, "arguments compared": 20000, "results overwritten": 8000, "raised .*": 3000})
prop("C22", "random calls of every function that takes arrays, repeated with the same values in other memory layouts (Fortran order, permuted, "
     "strided, negative strides, offsets, unaligned, read-only, subclass, zero-stride, memory-mapped); " + R, min_cases=1000,
     need_seen={"layout (negative|strided|fortran)": 5000, "layout read-only": 500, "layout unaligned": 500, "broadcast .*": 1000, "memmap .*": 500})
prop("C21", "random calls of every transform with data in sixteen dtypes, mixed-dtype coefficient containers, complex data against its parts, and "
     "eight kinds of array-likes, against the double-precision result for the same values; " + R, min_cases=1000,
     need_seen={"call .*": 5000, "dtype .*": 5000, "single against double": 1500, "mixed dtypes": 1000, "complex .*": 2000, "bit-identical .*": 3000})
prop("C30", "random calls of every linear transform, short, long (10**5 samples and more) and in many-row or high-rank batches: scaled by powers of "
     "two, negated, zeroed and summed; one sample NaN or infinite; blocks of data in long signals against the same block in a short one; " + R, min_cases=1000,
     need_seen={"call .*": 4000, "sums compared": 4000, "large call": 80, "calls of 10.*": 25, "local .*": 300, "rows compared": 3000, "more than 2.*16 rows": 15, "high rank": 100, "not finite .*": 2000, "outputs that depend on the sample": 10000})


def canon_post(shards, extras, errors):
    """Canonical calls gave the same digest in every process, whatever its history."""
    first, out, n = {}, [], 0
    for s, e in enumerate(extras):
        for i, ds in e.pop("canonical", {}).items():
            for d in ds:
                if i in first and first[i][0] != d:
                    out.append({"key": "canonical:between processes", "flavor": "plain", "case": "canon:0",
                                "msg": f"canonical call {i} gave different results in processes {first[i][1]} and {s} (different histories)"})
                elif i in first:
                    n += 1
                first.setdefault(i, (d, s))
    if extras:
        extras[0]["canonical_calls_compared_between_processes"] = n
    if n < 100 and not out:
        errors.append("too few canonical calls were compared between processes")
    return out


POST["canon"] = canon_post
prop("C29", "random calls repeated after random histories of other valid and failing calls (on the same objects too); every spelling of wavelets and "
     "modes; canonical calls digested in eight processes with different histories and in fresh interpreters; " + R, min_cases=1000, post="canon",
     need_seen={"repetitions": 2000, "history raised": 1000, "history on the same object": 1000, "spelling .*": 2000, "canonical digests": 2000,
                "compared with a fresh process": 100})
prop("C24", "random valid calls with one argument moved outside the documented domain (about sixty kinds of violation), random hostile arguments of every "
     "type, and rejected packet tree accesses; each rejection judged, timed, and followed by the valid call; " + R, min_cases=1000, case_cpu=30,
     need_seen={"rejected .*": 10000, "valid call repeated": 5000, "raised .*": 5000, "packets .*": 2000})
prop("C23", "random calls of every public function in an AddressSanitizer + UndefinedBehaviorSanitizer build (valid, hostile, tiny and inconsistent extents, filter "
     "banks of any lengths, object lifetimes), each array touching both ends of its own allocation; in an ordinary build, every result compared bit for bit "
     "under two heap fill patterns and with NaN against 3e30 in the elements around the data; " + R, min_cases=1000, flavors=["plain", "asan"],
     share={"plain": .4, "asan": .6}, env={"PYTHONMALLOC": "malloc", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"},
     need_seen={"valid .*": 3000, "hostile .*": 3000, "small .*": 2000, "bank .*": 3000, "churn operations": 4000, "fills compared .*": 3000,
                "guarded .*": 3000, "guard elements": 100000})


def race_lib():
    """Compile the deliberately racing library (content-addressed, under the ignored build folder)."""
    import hashlib
    import os
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, "native", "race.c")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(os.path.dirname(here), "build", f"race-{key}.so")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-g1", "-fPIC", "-shared", "-fsanitize=thread", src, "-o", tmp], check=True)
        os.replace(tmp, out)
    os.environ["VP_RACE_LIB"] = out


PREPARE["race"] = race_lib


def tsan_post(shards, extras, errors):
    """Race reports of the worker processes; the deliberate race must be among them."""
    import re
    out, seen, ran = [], 0, 0
    for s in shards:
        for r in s.results:
            if s.flavor != "tsan":
                continue
            ran += 1
            for rep in r["stderr"].split("==================")[1:]:
                if "WARNING: ThreadSanitizer" not in rep:
                    continue
                if "vp_deliberate_race" in rep:
                    seen += 1
                    continue
                kind = re.search(r"ThreadSanitizer: ([\w -]+?) \(", rep)
                fr = re.search(r"#\d+ (\w+) [^\n]*pywt", rep)
                if not fr:
                    extras.append({"race_report_outside_the_library": rep[:600]})
                    continue
                out.append({"key": f"tsan:{kind.group(1) if kind else 'report'}:{fr.group(1)}", "flavor": "tsan", "case": None, "msg": rep[:2500]})
    if ran and not seen:
        errors.append("the race detector did not report the deliberate race")
    return out


POST["tsan"] = tsan_post
prop("C25", "random sets of two to a dozen calls (about half on the very same objects) made from two to eight threads with tiny switch intervals and yields injected "
     "between the library's Python lines; large arrays so that kernels overlap without the interpreter lock; the same in a ThreadSanitizer build; new interpreters "
     "whose first calls are concurrent; a case counts as distinct by its set of calls, as non-trivial when results were compared", min_cases=1000,
     flavors=["plain", "tsan"], share={"plain": .5, "tsan": .5}, prepare=["race"], post="tsan", env={"PYTHONMALLOC": "malloc"},
     need_seen={"overlapping pairs": 20000, "concurrent calls": 20000, "delays injected": 20000, "first calls": 100},
     assumptions=["the interpreter and numpy are not instrumented: races inside them, or in memory only they touch, are seen only through wrong results"])


def fault_lib():
    """Compile the allocation monitor (content-addressed, under the ignored build folder)."""
    import hashlib
    import os
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, "native", "vpfault.c")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    d = os.path.join(os.path.dirname(here), "build", f"fault-{key}")
    out = os.path.join(d, "vpfault.so")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-I/usr/include/python3.12",
                        "-I/opt/venv/lib/python3.12/site-packages/numpy/_core/include", src, "-o", tmp], check=True)
        os.replace(tmp, out)
    os.environ["VP_FAULT_DIR"] = d


PREPARE["fault"] = fault_lib
prop("C26", "random calls with each of their native allocations (kernel temporaries, wavelet filters), glue allocations and array buffers made to fail in turn, once or from "
     "then on, in an ordinary and an AddressSanitizer build; live native blocks, array buffers, Python blocks and objects counted over repetitions of valid, rejected and "
     "failing calls; a case counts as distinct by its call, as non-trivial when a balance or result was judged", min_cases=1000, flavors=["plain", "asan"],
     share={"plain": .6, "asan": .4}, prepare=["fault"],
     need_seen={"native failures injected": 2000, "array data failures injected": 1000, "balances checked": 10000, "recoveries": 500, "growth checked .*": 700},
     assumptions=["allocations made inside the interpreter and by numpy for anything but array data are counted through live objects only, never made to fail"])

# the quick tier runs this many times the basic number of cases
MORE = {"C01": 2, "C02": 2.5, "C03": 2.5, "C05": 2.5, "C06": 2, "C07": 2, "C08": 1.5, "C10": 4, "C11": 6, "C12": 4, "C14": 3, "C16": 4, "C17": 6, "C18": 3, "C19": 5,
        "C20": 2, "C22": 2, "C24": 1.5, "C27": 2, "C28": 4, "C29": 2, "C30": 1.5}
for k, v in MORE.items():
    PROPS[k]["more"] = v
