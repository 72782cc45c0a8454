"""Common machinery: exhaustive enumeration of bounded spaces over the real code.

A check module defines SPACES, a list of Space objects.  A Space has a
generator of cases (plain Python literals, in simplest-first order) that does
not depend on the code under test, and a function deciding one case: it runs
the real code and compares what it observes with a reference model.  The
runner enumerates *every* case (nothing is sampled, nothing is capped; the
seed only rotates which samples are written to the evidence), shards them over
the cores, writes the evidence file and one replayable artefact per violation.
"""
import ast
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def bootstrap():
    """Import asn1crypto from /repo's working tree, never from a stale .pyc."""
    sys.dont_write_bytecode = True
    # a prefix that does not exist: nothing is read from, or written to, it
    sys.pycache_prefix = '/nonexistent-pycache-prefix'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import asn1crypto
    here = os.path.dirname(os.path.realpath(asn1crypto.__file__))
    if here != os.path.join(os.path.realpath(REPO), 'asn1crypto'):
        raise SystemExit('asn1crypto imported from %s' % here)


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Rec(object):
    """What one worker observed."""

    def __init__(self):
        self.execs = 0
        self.trans = 0
        self.states = set()
        self.state_count = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []

    def op(self, n=1):
        self.trans += n

    def state(self, *key):
        """A distinct observed state (case-local canonical form)."""
        self.states.add(hash(key))

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1


class Space(object):
    def __init__(self, name, gen, check, doc='', nontrivial=None, cpu_limit=120):
        self.name = name
        self.gen = gen
        self.check = check
        self.doc = doc
        self.cpu_limit = cpu_limit


MAX_VIOLATIONS_PER_WORKER = 5


def _on_alarm(signum, frame):
    raise Hang()


def run_case(space, case, rec):
    """Returns None or the text of a violation."""
    try:
        res = space.check(case, rec)
        return res
    except Violation as e:
        return str(e)
    except Hang:
        return 'no answer: the case used %d s of CPU time' % space.cpu_limit
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException:
        tb = traceback.format_exc(limit=-6)
        return 'unexpected exception\n' + tb


def _worker(args):
    space, tier, shard, nshards, seed = args
    rec = Rec()
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, space.cpu_limit)
    n = 0
    armed_at = time.process_time()
    for i, case in enumerate(space.gen(tier)):
        if i % nshards != shard:
            continue
        n += 1
        now = time.process_time() if n % 16 == 0 else armed_at
        if now - armed_at > 1:
            signal.setitimer(signal.ITIMER_VIRTUAL, space.cpu_limit)
            armed_at = now
        rec.execs += 1
        msg = run_case(space, case, rec)
        if (n + seed) % 997 == 1 and len(rec.samples) < 2:
            rec.samples.append(repr(case)[:300])
        if msg is not None:
            rec.violations.append((i, repr(case), msg))
            signal.setitimer(signal.ITIMER_VIRTUAL, space.cpu_limit)
            if len(rec.violations) >= MAX_VIOLATIONS_PER_WORKER:
                break
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return (rec.execs, rec.trans, rec.states if len(rec.states) < 3000000 else None, len(rec.states),
            rec.outcomes, rec.samples, rec.violations)


def load_known(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except IOError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]


def main(pid, spaces, technique_doc, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    only = None
    if len(argv) >= 2 and argv[0] == '--replay':
        return replay_file(pid, spaces, argv[1])
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--space='):
            only = a.split('=', 1)[1]
    ncpu = int(os.environ.get('VERIF_JOBS') or 0) or max(1, min(8, os.cpu_count() or 1))
    known = load_known(pid)
    known_keys = dict(((k['space'], k['case']), k) for k in known)
    totals = dict(execs=0, trans=0, states=0)
    outcomes, samples, per_space = {}, [], []
    violations, known_hit = [], {}
    sys.stdout.flush()
    sys.stderr.flush()
    ctx = multiprocessing.get_context('fork')
    for sp in spaces:
        if only and sp.name != only:
            continue
        st = time.time()
        jobs = [(sp, tier, s, ncpu, seed) for s in range(ncpu)]
        # fork after the space is known: the Space object is inherited, not pickled
        results = _fork_map(ctx, jobs)
        states = set()
        nstates = 0
        se = stt = 0
        so = {}
        for execs, trans, sset, scount, outs, samp, viols in results:
            se += execs
            stt += trans
            if sset is not None:
                states |= sset
            else:
                nstates += scount
            for k, v in outs.items():
                so[k] = so.get(k, 0) + v
            samples.extend('%s: %s' % (sp.name, x) for x in samp[:1])
            for i, case, msg in viols:
                k = known_keys.get((sp.name, case))
                if k is not None:
                    known_hit[(sp.name, case)] = k
                else:
                    violations.append((sp.name, i, case, msg))
        nstates += len(states)
        totals['execs'] += se
        totals['trans'] += stt
        totals['states'] += nstates
        for k, v in so.items():
            outcomes['%s/%s' % (sp.name, k)] = v
        per_space.append(dict(space=sp.name, what=sp.doc, executions=se, states=nstates,
                              transitions=stt, distinct_outcomes=len(so), wall_s=round(time.time() - st, 2)))
        if os.environ.get('VERIF_VERBOSE'):
            print('  %-28s execs=%d states=%d trans=%d outcomes=%d %.1fs' % (
                sp.name, se, nstates, stt, len(so), time.time() - st))
            sys.stdout.flush()
    if only is None:
        _write_evidence(pid, tier, seed, totals, outcomes, samples, per_space, violations, technique_doc, t0)
    for (spn, case), k in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if violations:
        violations.sort(key=lambda v: ([s.name for s in spaces].index(v[0]), v[1]))
        outdir = os.path.join(VERIF, 'replays')
        os.makedirs(outdir, exist_ok=True)
        for n, (spn, i, case, msg) in enumerate(violations[:3]):
            h = hashlib.sha1((spn + case).encode('utf-8')).hexdigest()[:10]
            path = os.path.join(outdir, '%s-%s.json' % (pid, h))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, space=spn, case=case, message=msg,
                               replay='%s -m mc.replay %s' % (PY, path)), f, indent=1)
            if n == 0:
                print('space %s case %s' % (spn, case[:2000]))
                print(msg[:3000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        return 1
    print('OK property=%s tier=%s executions=%d states=%d transitions=%d wall=%.1fs' % (
        pid, tier, totals['execs'], totals['states'], totals['trans'], time.time() - t0))
    return 0


def _fork_map(ctx, jobs):
    if len(jobs) == 1:
        return [_worker(jobs[0])]
    procs = []
    for j in jobs:
        r, w = ctx.Pipe(duplex=False)

        def target(j=j, w=w):
            try:
                out = ('ok', _worker(j))
            except BaseException:
                out = ('err', traceback.format_exc())
            w.send(out)
            w.close()
        p = ctx.Process(target=target)
        p.start()
        w.close()
        procs.append((p, r))
    results = []
    err = None
    for p, r in procs:
        try:
            kind, val = r.recv()
        except EOFError:
            kind, val = 'err', 'worker died without an answer'
        if kind == 'ok':
            results.append(val)
        else:
            err = val
        p.join()
    if err:
        raise RuntimeError(err)
    return results


def _write_evidence(pid, tier, seed, totals, outcomes, samples, per_space, violations, technique_doc, t0):
    path = os.path.join(VERIF, 'evidence', '%s.json' % pid)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    top = dict(sorted(outcomes.items(), key=lambda kv: (-kv[1], kv[0]))[:60])
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=totals['states'],
            transitions=totals['trans'],
            traces_validated_against_impl=totals['execs'],
            samples=samples[:24] or ['(none)'],
            distinct_outcome_classes=len(outcomes),
            outcome_histogram=top,
            spaces=per_space,
            exhaustive=not violations,
            rule='states: distinct canonical observations of the real code (deduplicated by hash); '
                 'transitions: calls of the real API whose result was compared with the reference model; '
                 'traces: complete executions (one per enumerated case), each run on the real code of '
                 '/repo and compared with the reference model step by step.',
        ),
        assumptions=list(technique_doc),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, path)


def replay_file(pid, spaces, path):
    with open(path) as f:
        data = json.load(f)
    case = ast.literal_eval(data['case'])
    for sp in spaces:
        if sp.name == data['space']:
            signal.signal(signal.SIGVTALRM, _on_alarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, sp.cpu_limit)
            msg = run_case(sp, case, Rec())
            print('case %s' % data['case'])
            if msg is None:
                print('no violation')
                return 0
            print(msg)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
    print('unknown space')
    return 2


def eq(got, want, what):
    if got != want or type(got) is not type(want) and not _compat(got, want):
        raise Violation('%s:\n  observed %r\n  expected %r' % (what, got, want))


def _compat(a, b):
    return not isinstance(a, bool) and not isinstance(b, bool)


def check(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


def attempt(f, *a, **k):
    """('ok', value) or ('err', exception)"""
    try:
        return 'ok', f(*a, **k)
    except Hang:
        raise
    except Exception as e:
        return 'err', e
