"""Builds the engine and every harness of the registered checks (in parallel)."""
import concurrent.futures as cf
from . import build
from .props import PROPS


def main():
    plugin = build.engine()[0]
    build.model_cc(plugin)
    build.gen_include()
    keys = sorted({(r.harness, tuple(r.defs)) for p in PROPS.values() for r in p["runs"]})
    with cf.ThreadPoolExecutor(6) as ex:
        hs = list(ex.map(lambda k: build.Harness(k[0], defs=k[1]), keys))
        fs = [ex.submit(h.sym) for h in hs] + [ex.submit(h.nat) for h in hs]
        bad = 0
        for f in fs:
            try:
                f.result()
            except Exception as e:
                bad += 1
                print("setup: %s" % e)
    print("setup: %d harnesses built, %d failures" % (len(hs), bad))


main()
