"""Failures inside a call surface and never become a wrong result."""
import random
import hist
from hist import HistProp, EXC, shrink_list
from core import Outcome, digest


class Prop(HistProp):
    ID = "C17"
    RULE = ("one run = a seeded history of 1-4 calls in which an exception (interrupt, memory, numerical) strikes at the k-th "
            "source line or call inside the package, k drawn from all those the call passes, followed by a repetition of "
            "each struck call and 1-3 other calls, all compared with the same calls in fresh processes; non-trivial = a fault "
            "fired; distinct = distinct (call, exception, fault site, later calls)")
    PROBES = ["faults_fired", "surfaced", "repeats"]

    def case(self, group, seed, tier):
        rng = random.Random(seed)
        det = self.bykind["det"] * 2 + self.bykind.get("rng", []) + self.bykind.get("seeded", [])
        focus = [self.pick(rng, det) for _ in range(rng.randint(1, 3))]
        seeds = [self.some_seed(rng) for _ in range(rng.randint(1, 2))]
        ops = []
        for _ in range(rng.randint(1, 4)):
            c = self.vary(rng, rng.choice(focus) + [rng.choice(seeds)], 0.2, seeds)
            if rng.random() < 0.15:
                ops.append(["call", c])
            else:
                ops.append(["fault", c, round(rng.random(), 6), rng.choice(EXC)])
        probes = [self.vary(rng, rng.choice(focus) + [rng.choice(seeds + [self.some_seed(rng)])], 0.2, seeds) for _ in range(rng.randint(1, 3))]
        return dict(ops=ops, probes=probes)

    def run(self, group, case):
        # the oracle: every call in a fork of its own
        want = {}
        for c in [o[1] for o in case["ops"]] + case["probes"]:
            if tuple(c) not in want:
                want[tuple(c)] = self.alone(c)
        self.want = want
        return super().run(group, case)

    def run_in_child(self, group, case):
        st = dict(faults_fired=0, surfaced=0, absorbed=0, repeats=0, calls=0, not_reached=0)
        log = []
        bad = None

        def check(c, what):
            self.seed_rng(self.rs_of(c))
            r = self.norm_result(self.raw(c))
            st["calls"] += 1
            w = self.want[tuple(c)][0]
            log.append((c, what, repr(r[1])[:200]))
            if not self.agree(r, w):
                return "%s %s gives %s, alone it gives %s" % (self.name(c), what, self.text(r), self.text(w))
            return None

        sites = []
        for op in case["ops"]:
            c = op[1]
            if op[0] == "call":
                bad = check(c, "in the history")
            else:
                w, n = self.want[tuple(c)]
                k = op[4] if len(op) > 4 else 1 + int(op[2] * n)
                self.seed_rng(self.rs_of(c))
                r, fired = self.faulted(c, k, op[3])
                if fired is None:
                    st["not_reached"] += 1
                else:
                    st["faults_fired"] += 1
                    st["fault_" + op[3]] = st.get("fault_" + op[3], 0) + 1
                    sites.append((c[0], op[3], fired[:3]))
                    if r[0] == "exc":
                        st["surfaced"] += 1
                    else:
                        st["absorbed"] += 1
                r = self.norm_result(r)
                log.append((c, fired, repr(r[1])[:200]))
                if r[0] == "ok" and not self.agree(r, w):
                    bad = "%s struck by %s at %s returned %s instead of failing; the right result is %s" % (
                        self.name(c), op[3], fired, self.text(r), self.text(w))
                elif fired is not None and r[0] == "ok" and w[0] == "exc":
                    bad = "%s must fail, but struck by %s at %s it returned %s" % (self.name(c), op[3], fired, self.text(r))
                if not bad:
                    bad = check(c, "repeated after %s struck at %s" % (op[3], fired))
                    st["repeats"] += 1
            if bad:
                break
        if not bad:
            for c in case["probes"]:
                bad = check(c, "after the failures")
                if bad:
                    break
        key = digest(sites, case["probes"])
        return Outcome(viol=bad, vclass="wrong" if bad else None, stats=st, key=key, trivial=not st["faults_fired"],
                       digest=digest(log, bad), note="%s" % (sites[:3],))

    def shrink(self, group, case):
        for c in shrink_list(case, "ops"):
            if c["ops"]:
                yield c
        yield from shrink_list(case, "probes")
