"""Worker: runs its share of one property's cases against the freshly built package."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    cfg = json.load(open(sys.argv[1]))
    out, cur = cfg["out"], cfg["out"] + ".cur"
    import numpy as np
    import batoid
    assert os.path.realpath(batoid.__file__).startswith(os.path.realpath(cfg["site"])), batoid.__file__
    assert os.path.realpath(batoid._batoid.__file__).startswith(os.path.realpath(cfg["site"]))
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    from vm.ctx import Ctx, Stop, rng_for
    mod = importlib.import_module("vm." + cfg["prop"].lower())
    c = Ctx(cfg["prop"], cfg["tier"], cfg["seed"])
    c.flavour = cfg["flavour"]
    todo = []
    quick = cfg["tier"] == "quick"
    for case in mod.CASES:
        name, fn, nq, nt = case[:4]
        fls = case[4] if len(case) > 4 else ("plain",)
        if cfg["flavour"] not in fls and cfg["flavour"] not in getattr(mod, "ALLFLAVOURS", ()):
            continue
        if cfg.get("only") is not None:
            if cfg["only"][0] == name:
                todo.append((name, fn, cfg["only"][1]))
            continue
        n = nq if quick else nt
        todo += [(name, fn, i) for i in range(n)]
    if cfg.get("only") is None:
        # interleave the cases, deal them out to the workers
        order = sorted(range(len(todo)), key=lambda k: (
            (todo[k][2] + 0.5) / (1 + sum(1 for t in todo if t[0] == todo[k][0])) if len(todo) < 2000
            else hash(str(todo[k][2]) + todo[k][0]) % 1000003, k))
        todo = [todo[k] for k in order][cfg["w"]::cfg["W"]]
    t0 = time.time()
    skipped = 0
    harness_error = None
    done = 0
    slow = {}
    for name, fn, i in todo:
        if time.time() - t0 > cfg["budget"]:
            skipped += 1
            continue
        with open(cur, "w") as fh:
            json.dump([name, i, time.time()], fh)
        c.begin(name, i)
        t1 = time.time()
        try:
            fn(c, rng_for(cfg["prop"], cfg["seed"], name, i), i)
        except Stop:
            pass
        except (MemoryError, OSError, ImportError) as e:
            if isinstance(e, OSError) and not isinstance(e, FileNotFoundError) or not isinstance(e, OSError):
                harness_error = traceback.format_exc()
                break
            c_fail(c, traceback.format_exc())
        except Exception:
            c_fail(c, traceback.format_exc())
        done += 1
        slow[name] = slow.get(name, 0) + time.time() - t1
        if len(c.violations) >= 3:
            break
    d = c.dump()
    d.update(skipped=skipped, done=done, harness_error=harness_error,
             case_seconds=slow, wall=time.time() - t0)
    with open(out + ".tmp", "w") as fh:
        json.dump(d, fh)
    os.rename(out + ".tmp", out)


def c_fail(c, tb):
    from vm.ctx import Stop
    try:
        c.fail("unexpected-exception", tb[-1800:])
    except Stop:
        pass


if __name__ == "__main__":
    main()
