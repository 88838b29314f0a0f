"""C32: if the harness can't be compiled with all its types of callables and
iterators, but can with the plain ones, then some type isn't accepted any more."""
from . import runner


def run(pid, tier, seed, replay, scale, build, t0):
    rc = runner.run_default(pid, tier, seed, replay, scale, build, t0)
    text = runner.not_accepted
    if rc != 0 or not text:
        return rc
    lines = [l for l in text.splitlines() if "error:" in l]
    runner.report(pid, tier, seed, {"key": "type-not-accepted", "detail": "code that passes a callable or iterator of a type that used to be accepted doesn't compile: " + " | ".join(lines[:4]), "where": text[-3000:]})
    return 1
