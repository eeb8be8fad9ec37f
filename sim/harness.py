"""Running one simulated execution of a scenario."""
import hashlib
import re

from sim import engine, patches
from sim.choices import Choices, Stream


ADDRESS = re.compile(r'0x[0-9a-f]{6,}')   # differ from process to process


class Outcome(object):
    """What one execution showed."""

    def __init__(self):
        self.violations = []        # [(class, message)]
        self.counters = {}
        self.sim_ticks = 0
        self.points = 0
        self.digest = None          # of the whole event log
        self.interleaving = None    # hash of the scheduling decisions
        self.key = None             # hash identifying the case
        self.trivial = False
        self.notes = []             # readable description of the case
        self.log = []
        self.end = None

    def violate(self, cls, msg):
        self.violations.append((cls, msg))


def h(*parts):
    m = hashlib.sha1()
    for p in parts:
        m.update(repr(p).encode())
        m.update(b'\0')
    return m.hexdigest()[:16]


class Run(object):
    """One execution: a choice source, a simulation, an outcome."""

    def __init__(self, choices):
        self.choices = choices
        self.w = Stream(choices, 'w')
        self.s = Stream(choices, 's')
        self.out = Outcome()
        self.sim = None

    def simulate(self, main, setup=None, **sim_args):
        """Runs main() as the main task of a new simulation."""
        sim = self.sim = engine.Sim(self.choices, **sim_args)
        if setup is not None:
            setup(sim)
        with patches.Session():
            end = sim.run(main)
        out = self.out
        out.end = end
        out.sim_ticks += sim.now - sim.start_now
        out.points += sim.n
        for k, v in sim.counters.items():
            out.counters[k] = out.counters.get(k, 0) + v
        out.log.extend(sim.log_lines)
        out.interleaving = h(out.interleaving, sim.switches, sim.counters.get('sig-delivered'))
        for name, exc, tb in sim.task_excs:
            if isinstance(exc, engine.SimError):
                raise engine.SimError('%s in %s: %s\n%s' % (type(exc).__name__, name, exc, tb))
        return sim

    def finish(self):
        out = self.out
        rec = self.choices.rec
        out.violations = [(c, ADDRESS.sub('0x..', m) if isinstance(m, str) else m) for c, m in out.violations]
        out.key = h(rec['w'], rec['s'])
        out.digest = h(out.log, out.violations, out.sim_ticks, out.points, sorted(out.counters.items()))
        return out


def execute(scenario, seed=None, recorded=None):
    """Executes a scenario function once; returns (outcome, recording)."""
    choices = Choices(seed, recorded)
    run = Run(choices)
    scenario(run)
    out = run.finish()
    return out, {k: list(v) for k, v in choices.rec.items()}
