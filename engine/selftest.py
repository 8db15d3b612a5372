"""engine self-test: every contract, sampled against the real functions (python3-vt engine/selftest.py [n] [regex])"""
import random
import re
import sys
import driver
import contract as ct
import replay


def main(n=200, rx=""):
    driver.load_specs()
    driver.setup()
    keys = [("spec", k) for k in ct.SPECS] + [("fp", k) for k in ct.SPECS_FP]
    keys = [x for x in keys if re.search(rx, ct.short(x[1]))]
    real = driver.make_real([k for _, k in keys])
    for kind, k in keys:
        sp = (ct.SPECS if kind == "spec" else ct.SPECS_FP)[k]
        f = driver.find_fn(k)
        if f is None:
            print("NOT FOUND", ct.short(k))
            continue
        if not real or not real.has(k):
            print("no shim", ct.short(k))
            continue
        rng = random.Random(1)
        for lab, inp, al in driver.configs(sp):
            cfg = driver.spec_only(sp, f, inp, al, lab)
            sk = ok = bad = 0
            first = None
            for _ in range(n):
                env = replay.sample_env(cfg, rng)
                w = replay.check_real(real, cfg, env, driver.G["types"], f)
                if w == "skip":
                    sk += 1
                elif w:
                    bad += 1
                    first = first or (w, {str(v.data): x for v, x in env.items() if hasattr(v, "data")})
                else:
                    ok += 1
            print("%-70s %-14s ok %d skip %d bad %d %s" % (ct.short(k), lab, ok, sk, bad, first or ""))


if __name__ == "__main__":
    main(int(sys.argv[1]) if len(sys.argv) > 1 else 200, sys.argv[2] if len(sys.argv) > 2 else "")
