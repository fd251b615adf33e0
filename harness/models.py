"""Exhaustive TLC models (spec/MC_*.tla) that belong to a property.

TLC visits every state of the model within the bounds, checks its invariants,
and prints the complete cases it reached; each becomes a history that is
executed on the real code."""
import json
import os
import threading

import core
import mcases

LINE = '<<"C", "'


class Model:
    def __init__(self, name, cfg, scratch, k, workers):
        self.name, self.cfg = name, cfg
        self.err = self.out = None
        self.sc = os.path.join(scratch, "mc-%s-%d" % (name, k))
        os.makedirs(self.sc)
        self.thread = threading.Thread(target=self.run, args=(workers,))
        self.thread.start()

    def run(self, workers):
        try:
            path = os.path.join(self.sc, "model.json")
            with open(path, "w") as f:
                json.dump(self.cfg, f)
            self.out = core.tlc(self.name, self.name + ".cfg", self.sc, env={"MODEL": path}, workers=workers, heap="3g")
        except Exception as ex:
            self.err = repr(ex)

    def cases(self):
        """The printed cases, sorted (workers print in any order)."""
        self.thread.join()
        if self.err:
            raise core.Machinery("%s: %s" % (self.name, self.err))
        if "No error has been found" not in self.out:
            log = self.out[self.out.find("Error:"):] if "Error:" in self.out else self.out
            raise core.Machinery("%s: %s" % (self.name, log[:2500]))
        st = core.STATES.findall(self.out)[-1]
        self.generated, self.distinct = int(st[0]), int(st[1])
        res = set()
        for l in self.out.split("\n"):
            if l.startswith(LINE) and l.endswith('">>'):
                res.add(l[len(LINE) - 1:-2])
        self.ncases = len(res)
        return [json.loads(json.loads(c)) for c in sorted(res)]


def start(pid, tier, seed, scratch):
    core.build_classes()
    todo = mcases.MODELS.get(pid)
    if not todo:
        return []
    todo = todo(tier == "thorough", seed)
    return [(Model(name, cfg, scratch, i, 8 // len(todo) or 1), conv) for i, (name, cfg, conv) in enumerate(todo)]


def stimuli(models, g, k):
    eps = []
    for m, conv in models:
        made = conv(g, k, m.cases())
        m.made = len(made)
        eps += made
    return eps


def finish(models):
    if not models:
        return 0, 0, None
    notes = [{"module": m.name, "bounds": m.cfg, "states": m.distinct, "transitions": m.generated, "cases": m.ncases,
              "histories_executed": m.made} for m, _ in models]
    return sum(m.distinct for m, _ in models), sum(m.generated for m, _ in models), notes
