"""Run one property:  python -m lib.run C01 [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken, a shrunk replay file was
written.  Exit 3: the check itself failed (never a verdict about the code under test).
"""
import collections
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import zlib

from . import boot as _boot

NPROC = int(os.environ.get('VERIF_JOBS', '8'))
SOFT = {'quick': float(os.environ.get('VERIF_SOFT', '300')), 'thorough': float(os.environ.get('VERIF_SOFT', '3000'))}
SHRINK = {'quick': 45.0, 'thorough': 180.0}


def _mute():
    """Everything the code under test prints goes nowhere."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get('VERIF_LOUD'):
        os.dup2(fd, 2)


def _run_check(sub, case, np, ctx):
    """One case from a clean slate; returns nothing, raises on a violation."""
    random.seed(0)
    np.random.seed(0)
    sub.check(case, ctx)


def _describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in tb:
        if fr.filename.startswith(_boot.TRUNK):
            where = '%s:%s in %s' % (os.path.relpath(fr.filename, _boot.REPO), fr.lineno, fr.name)
    last = tb[-1] if tb else None
    msg = '%s: %s' % (type(exc).__name__, str(exc)[:600])
    if where:
        msg += '  [raised through %s]' % where
    elif last is not None and type(exc).__name__ != 'Violation':
        msg += '  [%s:%s]' % (os.path.basename(last.filename), last.lineno)
    return msg


def _shard(conn, prop, k, shard, n, seed, tier, deadline):
    """In a forked child: n Hypothesis examples of sub-check k."""
    try:
        _mute()
        import numpy as np
        np.seterr(all='ignore')
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        import hypothesis.internal.conjecture.engine as engine
        from . import prop as P
        engine.MAX_SHRINKING_SECONDS = SHRINK[tier]
        sub = prop.subs[k]
        os.makedirs(os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'w%d_%d' % (k, shard)), exist_ok=True)
        os.chdir(os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'w%d_%d' % (k, shard)))
        res = {'evaluations': 0, 'discarded': 0, 'skipped': 0, 'labels': collections.Counter(), 'hashes': set(),
               'samples': [], 'failure': None, 'error': None, 'flaky': False}
        state = {'fail': None, 'first': None}

        def one(case):
            if state['fail'] is None and time.time() > deadline:
                res['skipped'] += 1
                return
            text = P.canonical(case)
            case = json.loads(text)
            ctx = P.Ctx()
            try:
                _run_check(sub, case, np, ctx)
            except P.Discard:
                res['discarded'] += 1
                return
            except Exception as exc:
                if state['first'] is None:
                    state['first'] = res['evaluations']
                if state['fail'] is None or len(text) <= state['fail'][0]:
                    state['fail'] = (len(text), text, _describe(exc),
                                     traceback.format_exc(limit=-12))
                raise
            finally:
                if state['fail'] is None:
                    res['evaluations'] += 1
            if state['fail'] is None:
                res['labels'].update(ctx.labels)
                if ctx.nontrivial:
                    h = hashlib.sha1(text.encode()).digest()[:8]
                    if h not in res['hashes']:
                        res['hashes'].add(h)
                        if len(res['samples']) < 3 and len(text) < 3000:
                            res['samples'].append({'case': case, 'labels': ctx.labels})

        test = given(sub.strategy)(one)
        test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink), print_blob=False, verbosity=hypothesis.Verbosity.quiet
                        )(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except Exception as exc:
            if state['fail'] is None:
                res['error'] = 'harness: ' + ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__, limit=-8))
        if state['fail'] is not None:
            text = state['fail'][1]
            case = json.loads(text)
            again = None
            try:
                _run_check(sub, case, np, P.Ctx())
            except P.Discard:
                pass
            except Exception as exc:
                again = _describe(exc)
            res['failure'] = {'sub': sub.name, 'case': case, 'message': again or state['fail'][2],
                              'traceback': state['fail'][3], 'reproduced_alone': again is not None,
                              'shard': shard, 'n': n, 'shard_seed': seed}
        conn.send(res)
    except BaseException:
        conn.send({'error': 'harness: ' + traceback.format_exc(limit=-10), 'evaluations': 0, 'discarded': 0,
                   'skipped': 0, 'labels': {}, 'hashes': set(), 'samples': [], 'failure': None})
    finally:
        conn.close()
        os._exit(0)


def _schedule(tasks):
    """Run (index, fn-args) tasks in forked children, NPROC at a time."""
    ctx = mp.get_context('fork')
    todo = list(tasks)
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < NPROC:
            key, args = todo.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_shard, args=(w,) + args)
            p.start()
            w.close()
            live[key] = (p, r)
        ready = mp.connection.wait([r for _, r in live.values()], timeout=1.0)
        for key in list(live):
            p, r = live[key]
            if r in ready:
                try:
                    out[key] = r.recv()
                except EOFError:
                    p.join()
                    out[key] = {'error': 'harness: worker %s died (exit %s)' % (key, p.exitcode), 'evaluations': 0,
                                'discarded': 0, 'skipped': 0, 'labels': {}, 'hashes': set(), 'samples': [],
                                'failure': None}
                p.join()
                r.close()
                del live[key]
                if out[key].get('failure'):
                    # one confirmed failure is enough: let the running shards go
                    todo = []
                    for k2 in list(live):
                        live[k2][0].terminate()
                        live[k2][0].join()
                        live[k2][1].close()
                        del live[k2]
                    return out
    return out


def _findings(pid):
    path = os.path.join(_boot.VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [f for f in data.get('findings', []) if f['property'] == pid]


def main(argv):
    pid = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in SOFT:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    out = os.fdopen(os.dup(1), 'w', 1)
    try:
        _boot.boot()
        names = [f for f in sorted(os.listdir(os.path.join(_boot.VERIF, 'checks'))) if f.lower().startswith(pid.lower() + '_')]
        if len(names) != 1:
            raise RuntimeError('no single check module for %s' % pid)
        mod = importlib.import_module('checks.' + names[0][:-3])
        prop = mod.PROPERTY
    except BaseException:
        traceback.print_exc()
        out.write('ERROR property=%s the check could not be started\n' % pid)
        return 3

    import numpy as np
    np.seterr(all='ignore')
    from . import prop as P

    if replay:
        with open(replay) as f:
            data = json.load(f)
        sub = [s for s in prop.subs if s.name == data['sub']][0]
        os.chdir(os.environ.get('VERIF_SCRATCH', '/tmp'))
        ctx = P.Ctx()
        try:
            _run_check(sub, json.loads(P.canonical(data['case'])), np, ctx)
        except P.Discard:
            out.write('case is outside the domain\n')
            return 0
        except Exception as exc:
            if os.environ.get('VERIF_LOUD'):
                traceback.print_exc()
            out.write('%s\n' % _describe(exc))
            out.write('VIOLATION property=%s replay=%s\n' % (pid, replay))
            return 1
        out.write('replay holds\n')
        return 0

    subs = prop.subs
    tasks = []
    factor = float(os.environ.get('VERIF_SCALE', '1'))
    deadline = t0 + SOFT[tier]
    for k, sub in enumerate(subs):
        if only and sub.name != only:
            continue
        n = int(max(1, (sub.quick if tier == 'quick' else sub.thorough) * factor))
        # several short shards per sub-check: independent seeds, even load
        shards = sub.shards or (NPROC if n >= 160 else max(1, min(NPROC, n // 20)))
        if tier == 'thorough':
            shards = max(shards, NPROC) * 2
        per = max(1, -(-n // shards))
        for s in range(shards):
            sd = zlib.crc32(('%d/%s/%s/%d' % (seed, pid, sub.name, s)).encode())
            tasks.append((sub.weight * per / (sub.quick if sub.quick else 1), (k, s), (prop, k, s, per, sd, tier, deadline)))
    tasks = [(key, a) for _, key, a in sorted(tasks, key=lambda t: (t[1][1], -t[0], t[1]))]
    results = _schedule(tasks)

    errors = [r['error'] for r in results.values() if r.get('error')]
    failures = [r['failure'] for r in results.values() if r.get('failure')]
    violations = 0
    for f in failures:
        violations += 1
        rp = os.path.join(_boot.VERIF, 'replays', '%s_%s_%s.json' % (pid, f['sub'], hashlib.sha1(P.canonical(f['case']).encode()).hexdigest()[:10]))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as fh:
            json.dump(dict(f, property=pid, seed=seed, tier=tier), fh, indent=1, default=str)
        out.write('%s/%s: %s\n' % (pid, f['sub'], f['message']))
        out.write('  smallest case found: %s\n' % P.canonical(f['case'])[:1500])
        if not f['reproduced_alone']:
            out.write('  (the case alone does not reproduce it: state left by earlier cases of shard seed %d matters)\n' % f['shard_seed'])
        out.write('VIOLATION property=%s replay=%s\n' % (pid, rp))

    # findings on record: each has a probe that shows the failing input against the real code
    for fnd in _findings(pid):
        probe = prop.probes.get(fnd['probe'])
        still = None
        if probe is not None:
            try:
                still = probe()
            except Exception as exc:
                still = _describe(exc)
        if still:
            out.write('KNOWN-FINDING: property=%s %s\n' % (pid, fnd['what']))

    per_sub = {}
    ev = 0
    hashes = 0
    samples = []
    for k, sub in enumerate(subs):
        rs = [r for (kk, s), r in sorted(results.items()) if kk == k]
        lab = collections.Counter()
        hs = set()
        for r in rs:
            lab.update(r['labels'])
            hs |= r['hashes']
        e = sum(r['evaluations'] for r in rs)
        per_sub[sub.name] = {'evaluations': e, 'distinct_nontrivial': len(hs), 'discarded': sum(r['discarded'] for r in rs),
                             'skipped_by_time_budget': sum(r['skipped'] for r in rs), 'nontrivial_when': sub.rule,
                             'labels': dict(sorted(lab.items(), key=lambda kv: -kv[1])[:40])}
        ev += e
        hashes += len(hs)
        for r in rs:
            if r['samples']:
                samples.append(dict(sub=sub.name, **r['samples'][-1]))
                break
    evidence = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
                'coverage': {'evaluations': ev, 'distinct_nontrivial': hashes, 'rule': prop.rule,
                             'samples': samples[:12], 'per_sub_check': per_sub},
                'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(_boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(_boot.VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)

    if violations:
        return 1
    if errors:
        for e in errors[:3]:
            sys.stderr.write(e + '\n')
        out.write('ERROR property=%s the check failed on its own account\n' % pid)
        return 3
    out.write('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n' % (pid, ev, hashes, time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        json.dump(per_sub, out, indent=1)
        out.write('\n')
    return 0


if __name__ == '__main__':
    import multiprocessing.connection
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
