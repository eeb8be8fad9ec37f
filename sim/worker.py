"""A worker process: runs simulations and reports them as JSON lines.

  worker.py PROP run REPO SEED START STEP END DEADLINE [EXTRA,...]
  worker.py PROP min REPO FILE SECONDS      minimise a recording
  worker.py PROP replay REPO FILE
"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop, repo):
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    if sys.path[1:2] == [os.path.join(HERE, 'sim')]:
        del sys.path[1]
    from sim import patches, instrument
    patches.install()
    instrument.install(repo)
    from checks import CHECKS
    check = CHECKS[prop]
    return importlib.import_module(check.module).scenario(prop)


def emit(out, **msg):
    out.write(json.dumps(msg) + '\n')
    out.flush()


def summary(outcome, rec):
    return dict(violations=outcome.violations[:5], digest=outcome.digest, key=outcome.key,
                inter=outcome.interleaving, ticks=outcome.sim_ticks, points=outcome.points,
                trivial=outcome.trivial, counters=outcome.counters, end=outcome.end)


def run(out, scenario, prop, seed, start, step, end, deadline, extra):
    from sim.harness import execute
    from sim.patches import REAL
    clock = REAL['time.mono']
    stop_at = clock() + deadline

    def one(i, kind):
        out.write('{"begin": %d}\n' % i)
        out.flush()
        name = '%s:%s:%d' % (seed, prop, i)
        try:
            outcome, rec = execute(scenario, seed=name)
        except BaseException:
            emit(out, i=i, kind='error', error=traceback.format_exc())
            return
        msg = summary(outcome, rec)
        if outcome.violations:
            msg.update(rec=rec, notes=outcome.notes, seed_name=name)
        elif i < 3:
            msg.update(notes=outcome.notes)
        emit(out, i=i, kind=kind, **msg)

    # repeat cases of the neighbours: the results must be the same
    half = len(extra) // 2
    for i in extra[:half]:
        one(i, 'again')
    for i in range(start, end, step):
        if clock() > stop_at:
            break
        one(i, 'run')
    for i in extra[half:]:
        one(i, 'again')
    emit(out, kind='done')


def minimise(out, scenario, rec, cls, limit):
    """Delta debugging over the choice sequences: truncate, delete, zero,
    lower; keeps a change if the same class of violation persists."""
    from sim.harness import execute
    from sim.patches import REAL
    clock = REAL['time.mono']
    stop_at = clock() + limit
    best = {k: list(v) for k, v in rec.items()}
    runs = [0]

    def strip(v):
        v = list(v)
        while v and v[-1] == 0:
            v.pop()
        return v

    def cost(r):
        return (len(strip(r['w'])) + len(strip(r['s'])), sum(r['w']) + sum(r['s']))

    def attempt(cand):
        if clock() > stop_at:
            return False
        runs[0] += 1
        out.write('{"begin": %d}\n' % -runs[0])
        out.flush()
        try:
            outcome, used = execute(scenario, recorded=cand)
        except Exception:
            return False
        if not any(c == cls for c, _ in outcome.violations):
            return False
        used = {k: strip(v) for k, v in used.items()}
        if cost(used) < cost(best):
            best.update(used)
            return True
        return False

    for k in best:
        best[k] = strip(best[k])
    changed = True
    while changed and clock() < stop_at:
        changed = False
        for k in ('s', 'w'):
            # truncate
            n = len(best[k])
            cut = n // 2
            while cut and clock() < stop_at:
                cand = dict(best)
                cand[k] = best[k][:max(0, len(best[k]) - cut)]
                if attempt(cand):
                    changed = True
                else:
                    cut //= 2
            # zero and delete blocks
            size = max(1, len(best[k]) // 2)
            while size and clock() < stop_at:
                i = 0
                while i < len(best[k]) and clock() < stop_at:
                    cand = dict(best)
                    block = best[k][i:i + size]
                    if any(block):
                        cand[k] = best[k][:i] + [0] * len(block) + best[k][i + size:]
                        if attempt(cand):
                            changed = True
                            continue
                    cand[k] = best[k][:i] + best[k][i + size:]
                    if attempt(cand):
                        changed = True
                        continue
                    i += size
                size //= 2
            # lower single values
            for i in range(len(best[k])):
                if clock() > stop_at:
                    break
                while i < len(best[k]) and best[k][i] > 1:
                    cand = dict(best)
                    cand[k] = list(best[k])
                    cand[k][i] //= 2
                    if not attempt(cand):
                        break
                    changed = True
    outcome, used = execute(scenario, recorded=best)
    emit(out, kind='minimised', rec=best, runs=runs[0], notes=outcome.notes,
         log=[repr(x) for x in outcome.log[-400:]], **summary(outcome, used))


def main(argv):
    prop, mode, repo = argv[:3]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    try:
        scenario = load(prop, repo)
    except BaseException:
        emit(out, kind='error', i=-1, error=traceback.format_exc())
        return 3
    if mode == 'run':
        seed, start, step, end, deadline = argv[3], int(argv[4]), int(argv[5]), int(argv[6]), float(argv[7])
        extra = [int(x) for x in argv[8].split(',')] if len(argv) > 8 and argv[8] else []
        run(out, scenario, prop, seed, start, step, end, deadline, extra)
    else:
        with open(argv[3]) as f:
            data = json.load(f)
        if mode == 'min':
            minimise(out, scenario, data['choices'], data['class'], float(argv[4]))
        elif mode == 'replay':
            from sim.harness import execute
            outcome, used = execute(scenario, recorded=data['choices'])
            emit(out, kind='replayed', notes=outcome.notes, log=[repr(x) for x in outcome.log[-400:]],
                 **summary(outcome, used))
    return 0


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
