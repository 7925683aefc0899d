"""A fresh interpreter whose threads all make their first calls at the same moment.  argv: seed, count.  Prints one digest per thread and call."""
import random
import sys
import threading
import time

if __name__ == "__main__":
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    import numpy as np
    import scipy.fft  # noqa: F401 - the library's own state is under test, not the import lock
    import pywt
    import pywt.data
    from rt.digest import digest
    x = np.random.default_rng(seed).normal(size=(16, 16))
    W = pywt.Wavelet("db3")
    ACTS = {
        "camera": lambda: pywt.data.camera(), "ascent": lambda: pywt.data.ascent(), "aero": lambda: pywt.data.aero(), "ecg": lambda: pywt.data.ecg(),
        "nino": lambda: pywt.data.nino(), "face": lambda: pywt.data.face() if hasattr(pywt.data, "face") else None,
        "demo": lambda: pywt.data.demo_signal("Doppler", 64), "wavelist": lambda: pywt.wavelist(), "families": lambda: pywt.families(),
        "dwt": lambda: pywt.dwt(x[0], "db2"), "dwt2": lambda: pywt.dwt2(x, W, "reflect"), "wavedec2": lambda: pywt.wavedec2(x, "bior2.2", "zero", 2),
        "swt2": lambda: pywt.swt2(x, "db2", 2), "cwt": lambda: pywt.cwt(x[0], [1, 2, 5], "cmor1.5-1.0"), "fft": lambda: pywt.cwt(x[0], [1, 2], "mexh", method="fft"),
        "pack": lambda: [v.data for v in pywt.WaveletPacket2D(x, "haar", "zero").get_level(2)], "wavefun": lambda: pywt.Wavelet("sym4").wavefun(4),
        "shared": lambda: (W.filter_bank, W.orthogonal, str(W), pywt.central_frequency(W, 6)), "modes": lambda: [pywt.Modes.from_object(m) for m in pywt.Modes.modes],
        "pad": lambda: pywt.pad(x, 5, "smooth"), "cont": lambda: pywt.ContinuousWavelet("gaus5").wavefun(6), "mra": lambda: pywt.mra(x[0], "db2", 2),
    }
    rnd = random.Random(seed)
    names = rnd.sample(sorted(ACTS), 4)
    out, gate = [], threading.Barrier(n)
    sys.setswitchinterval(rnd.choice([1e-6, 1e-5, 1e-4]))

    def trace(frame, event, arg):
        if "/pywt/" not in frame.f_code.co_filename:
            return None
        if rnd.random() < .1:
            time.sleep(0)
        return trace

    def work(k):
        if seed % 2:
            sys.settrace(trace)
        gate.wait()
        for nme in (names if k % 2 else names[::-1]):
            try:
                out.append(f"{nme} {digest(ACTS[nme]())}")
            except BaseException as e:      # noqa: BLE001
                out.append(f"{nme} raised {type(e).__name__} {e}".replace("\n", " "))
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    [t.start() for t in ts]
    end = time.time() + 100
    for t in ts:
        t.join(max(0, end - time.time()))
    if any(t.is_alive() for t in ts):
        print("DEADLOCK", flush=True)
        import os
        os._exit(0)
    sys.settrace(None)
    sys.setswitchinterval(5e-3)
    for nme in names:
        out.append(f"{nme} {digest(ACTS[nme]())}")
    print("\n".join(out))
