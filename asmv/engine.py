"""Property-based testing engine.

A case is a function of a choice sequence: every decision a generator makes is
drawn through a Src, which records it.  A run is therefore a pure function of
(code under test, VERIF_SEED, part, case index), a failing case shrinks by
editing its recorded choices, and a replay file is the shrunk choice list.

Cases are spread over forked workers.  A run is bounded by its number of cases;
the wall clock guard only ends it early (recorded in the evidence).
"""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(20000)

from . import build

VERIF = build.VERIF
KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS')


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, key=None, repro=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key or ''
        self.repro = repro


class Discard(Exception):
    """Case outside the domain of the property (counted)."""

    def __init__(self, why='discard'):
        super().__init__(why)
        self.why = why


class judging:
    """Output under judgement that cannot even be interpreted is a violation."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, (Violation, Discard, KeyboardInterrupt, MemoryError)):
            return False
        if issubclass(et, Exception):
            raise Violation('%s cannot be interpreted: %s: %s' % (self.what, et.__name__, ev)) from ev
        return False


class Src:
    """Source of recorded choices.  Smaller draws should mean simpler cases."""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.rec = []
        self.pos = 0

    def draw(self, n):
        """Integer in [0, n]."""
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = min(v, n)
        else:
            v = self.rng.randint(0, n) if n < 1 << 30 else self.rng.getrandbits(n.bit_length()) % (n + 1)
        self.rec.append(v)
        return v

    def i(self, lo, hi):
        return lo + self.draw(hi - lo)

    def pick(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def p(self, num, den=100):
        """True with probability num/den (False is simpler)."""
        return self.draw(den - 1) >= den - num

    def w(self, *pairs):
        """Weighted choice of (weight, value) pairs; first is simplest."""
        total = sum(p[0] for p in pairs)
        v = self.draw(total - 1)
        for wt, val in pairs:
            if v < wt:
                return val
            v -= wt
        return pairs[-1][1]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq) - 1)))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def length(self, lo, hi, mean=None):
        """Roughly geometric length."""
        n = lo
        mean = mean if mean is not None else (lo + hi) / 2
        more = max(1, min(98, int(100 * (mean - lo) / (1 + mean - lo))))
        while n < hi and self.p(more):
            n += 1
        return n


class Info:
    """What a passing case covered."""
    __slots__ = ('nontrivial', 'tags', 'sample', 'digest', 'evals')

    def __init__(self, nontrivial, tags=(), sample='', digest=None, evals=1):
        self.nontrivial = nontrivial
        self.tags = tags
        self.sample = sample
        self.digest = digest
        self.evals = evals


class Env:
    """Scratch directory and executables of one worker."""

    def __init__(self, exes, tier):
        self.exes = exes
        self.tier = tier
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and _free('/dev/shm') > (256 << 20) else None
        self.dir = tempfile.mkdtemp(prefix='asmv-', dir=base)
        os.chdir(self.dir)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))    # inherited
        self.runs = 0
        self.log = None      # replay/shrink: list of commands run for the case

    def close(self):
        os.chdir('/')
        shutil.rmtree(self.dir, ignore_errors=True)


def _free(path):
    st = os.statvfs(path)
    return st.f_bavail * st.f_frsize


class Part:
    def __init__(self, name, fn, quick, thorough, rule=''):
        self.name = name
        self.fn = fn
        self.n = {'quick': quick, 'thorough': thorough}
        self.rule = rule


def rng_for(seed, prop, part, index):
    h = hashlib.blake2b(('%d/%s/%s/%d' % (seed, prop, part, index)).encode(), digest_size=16).digest()
    return random.Random(int.from_bytes(h, 'big'))


def run_one(part, src, env):
    before = env.runs
    try:
        return part.fn(src, env)
    except (Violation, Discard):
        raise
    except Exception as e:
        # After the code under test has answered, failing to make sense of
        # its answer is a violation; before that, it is an error of the check.
        if env.runs > before and not isinstance(e, (OSError, MemoryError)):
            raise Violation('the result cannot be interpreted: %s: %s (%s)' % (
                type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3].strip())) from e
        raise


# ------------------------------------------------------------------------------

def _worker(wid, nw, prop, parts, tier, seed, exes, deadline, counts, wfd, stop):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    env = Env(exes, tier)
    known = known_keys(prop)

    def send(obj):
        data = pickle.dumps(obj)
        data = len(data).to_bytes(8, 'big') + data
        while data:
            data = data[os.write(wfd, data):]

    st = dict(evals=0, nontrivial=set(), tags={}, discards={}, samples=[], cases={}, cut=False,
              known={}, runs=0)
    try:
        # interleave parts so that an early stop still touches all of them
        todo = []
        for pi, part in enumerate(parts):
            n = counts[part.name]
            for k in range(wid, n, nw):
                todo.append(((k + 0.5) / n, pi, k))
        todo.sort()
        for _, pi, k in todo:
            if stop.value:
                break
            if time.time() > deadline:
                st['cut'] = True
                break
            part = parts[pi]
            src = Src(rng_for(seed, prop, part.name, k))
            try:
                info = run_one(part, src, env)
            except Discard as d:
                key = part.name + ': ' + d.why
                st['discards'][key] = st['discards'].get(key, 0) + 1
                st['cases'][part.name] = st['cases'].get(part.name, 0) + 1
                continue
            except Violation as v:
                if v.key and v.key in known:
                    st['known'][v.key] = st['known'].get(v.key, 0) + 1
                    continue
                send(('violation', pi, k, src.rec, v.msg, v.key))
                break
            st['cases'][part.name] = st['cases'].get(part.name, 0) + 1
            st['evals'] += info.evals
            for t in info.tags:
                t = part.name + '/' + t
                st['tags'][t] = st['tags'].get(t, 0) + 1
            if info.nontrivial:
                dg = info.digest if info.digest is not None else repr(src.rec)
                st['nontrivial'].add(hashlib.blake2b((part.name + str(dg)).encode('utf8', 'surrogateescape'),
                                                     digest_size=8).digest())
                if sum(1 for s in st['samples'] if s[0] == part.name) < 2:
                    st['samples'].append((part.name, k, str(info.sample)[:1500]))
        st['runs'] = env.runs
        send(('done', st))
    except BaseException:
        try:
            send(('error', traceback.format_exc()[-4000:]))
        except Exception:
            pass
    finally:
        env.close()
        os.close(wfd)
        os._exit(0)


def known_keys(prop):
    keys = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    m = line.split(' key=', 1)[1]
                    key, _, desc = m.partition(' ')
                    keys[key.strip()] = desc.strip()
    except FileNotFoundError:
        pass
    return keys


def shrink(part, choices, env, budget=500, seconds=60, accept=None):
    """Smaller choice list that still violates."""
    deadline = time.time() + seconds
    calls = [0]

    def fails(c):
        if calls[0] >= budget or time.time() > deadline:
            return None
        calls[0] += 1
        src = Src(replay=c)
        try:
            run_one(part, src, env)
        except Violation as v:
            if accept and not accept(v):
                return None
            return src.rec[:src.pos], v
        except Discard:
            return None
        except Exception:
            return None
        return None

    def key(c):
        return (len(c), sum(min(x, 1 << 40) for x in c))

    best = list(choices)
    r = fails(best)
    if not r:
        return best, None
    best, bv = r
    improved = True
    while improved and time.time() < deadline and calls[0] < budget:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                r = fails(cand)
                if r and key(r[0]) < key(best):
                    best, bv = r
                    improved = True
                else:
                    i += size
                if calls[0] >= budget or time.time() > deadline:
                    return best, bv
            size //= 2
        i = 0
        while i < len(best):
            if best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v >= best[i]:
                        continue
                    r = fails(best[:i] + [v] + best[i + 1:])
                    if r and key(r[0]) < key(best):
                        best, bv = r
                        improved = True
                        break
            i += 1
    return best, bv


def run_check(prop, parts, tier, seed, variants=('plain',), rule='', assumptions=(),
              guard=None, workers=None, scale=1.0, only=None, extra=None, level='exploration'):
    """Run all parts; returns process exit status."""
    t0 = time.time()
    try:
        exes = {v: build.build(v) for v in variants}
    except build.BuildError as e:
        print('BUILD ERROR\n%s' % e)
        return 2
    if only:
        parts = [p for p in parts if p.name in only]
    nw = workers or int(os.environ.get('ASMV_JOBS', 0)) or min(8, os.cpu_count() or 1)
    guard = guard or (500 if tier == 'quick' else 3000)
    deadline = t0 + guard
    counts = {p.name: max(1, int(p.n[tier] * scale)) for p in parts}
    import multiprocessing
    stop = multiprocessing.Value('i', 0, lock=False)
    pids, fds = [], {}
    sys.stdout.flush()
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            for fd in fds:
                os.close(fd)
            os.close(r)
            _worker(w, nw, prop, parts, tier, seed, exes, deadline, counts, wfd, stop)
        os.close(wfd)
        pids.append(pid)
        fds[r] = b''
    done, viols, errors = [], [], []
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rl:
            data = os.read(fd, 1 << 16)
            if not data:
                del fds[fd]
                os.close(fd)
                continue
            fds[fd] += data
            while len(fds[fd]) >= 8:
                n = int.from_bytes(fds[fd][:8], 'big')
                if len(fds[fd]) < 8 + n:
                    break
                msg = pickle.loads(fds[fd][8:8 + n])
                fds[fd] = fds[fd][8 + n:]
                if msg[0] == 'done':
                    done.append(msg[1])
                elif msg[0] == 'violation':
                    viols.append(msg[1:])
                    stop.value = 1
                else:
                    errors.append(msg[1])
                    stop.value = 1
    for pid in pids:
        os.waitpid(pid, 0)
    if len(done) + len(viols) + len(errors) < nw:
        errors.append('a worker died without reporting')

    evals = sum(d['evals'] for d in done)
    nontriv = set().union(*[d['nontrivial'] for d in done]) if done else set()
    tags, disc, cases, known_hit = {}, {}, {}, {}
    samples = []
    for d in done:
        for k, v in d['tags'].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in d['discards'].items():
            disc[k] = disc.get(k, 0) + v
        for k, v in d['cases'].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in d['known'].items():
            known_hit[k] = known_hit.get(k, 0) + v
        samples += d['samples']
    samples.sort(key=lambda s: (s[0], s[1]))
    chosen, seen = [], {}
    for s in samples:
        if seen.get(s[0], 0) < 2:
            seen[s[0]] = seen.get(s[0], 0) + 1
            chosen.append({'part': s[0], 'case': s[1], 'text': s[2]})

    status = 0
    nviol = 0
    if viols:
        viols.sort(key=lambda v: (v[1], v[0]))
        pi, k, rec, msg, vkey = viols[0]
        part = parts[pi]
        env = Env(exes, tier)
        try:
            small, sv = shrink(part, rec, env)
            confirmed = 0
            last = None
            for attempt in (small, rec):
                confirmed = 0
                for _ in range(3):
                    env.log = []
                    try:
                        run_one(part, Src(replay=attempt), env)
                    except Violation as v:
                        confirmed += 1
                        last = v
                    except Discard:
                        pass
                if confirmed == 3:
                    small = attempt
                    break
            if confirmed == 3:
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                blob = dict(property=prop, part=part.name, seed=seed, index=k, tier=tier, choices=small,
                            message=last.msg, key=last.key, runs=env.log[-6:] if env.log else [])
                name = '%s-%s.json' % (prop, hashlib.sha256(repr(small).encode()).hexdigest()[:12])
                path = os.path.join(VERIF, 'replays', name)
                with open(path, 'w') as f:
                    json.dump(blob, f, indent=1)
                print('%s part %s case %d: %s' % (prop, part.name, k, last.msg))
                for r in blob['runs'][-2:]:
                    print('  $ asm6809 %s' % ' '.join(r['args']))
                    for fn, tx in r['files'].items():
                        print('  --- %s\n%s' % (fn, tx[:700]))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                status = 1
                nviol = 1
            else:
                print('%s part %s case %d: not reproducible (%d/3): %s' % (prop, part.name, k, confirmed, msg))
                status = 3
        finally:
            env.close()
    if errors and status == 0:
        print('HARNESS ERROR\n' + errors[0])
        status = 2

    ex_cov = {}
    if extra and status == 0:
        r = extra(prop, tier, seed, exes, deadline)
        if r:
            evals += r.get('evaluations', 0)
            ex_cov = r.get('coverage', {})
            if r.get('violation'):
                print(r['message'])
                print('VIOLATION property=%s replay=%s' % (prop, r['violation']))
                status, nviol = 1, 1
            elif r.get('error'):
                print('HARNESS ERROR\n' + r['error'])
                status = 2

    wall = time.time() - t0
    total = sum(cases.values())
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=rule,
                            samples=chosen, cases=cases, discarded=disc,
                            assembler_runs=sum(d['runs'] for d in done),
                            classes=dict(sorted(tags.items())), stopped_by_guard=any(d['cut'] for d in done),
                            known_findings_hit=known_hit, **ex_cov),
              assumptions=list(assumptions), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None and status in (0, 1):
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if only is not None:
        print('  '.join('%s: %d' % kv for kv in sorted(tags.items())))
    for key, desc in known_keys(prop).items():
        print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    print('%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d discarded, %.1fs -> %s' % (
        prop, tier, seed, total, evals, len(nontriv), sum(disc.values()), wall,
        {0: 'held', 1: 'VIOLATED'}.get(status, 'ERROR')))
    return status


def replay(parts, path, variants):
    with open(path) as f:
        blob = json.load(f)
    exes = {v: build.build(v) for v in variants}
    part = [p for p in parts if p.name == blob['part']][0]
    env = Env(exes, blob.get('tier', 'quick'))
    env.log = []
    try:
        run_one(part, Src(replay=blob['choices']), env)
    except Violation as v:
        print(v.msg)
        for r in env.log[-3:]:
            print('  $ asm6809 %s -> %s' % (' '.join(r['args']), r['rc']))
            for fn, tx in r['files'].items():
                print('  --- %s\n%s' % (fn, tx))
            print('  stderr: %s' % r['stderr'])
        print('VIOLATION property=%s replay=%s' % (blob['property'], path))
        return 1
    except Discard as d:
        print('discarded: %s' % d.why)
        return 2
    finally:
        env.close()
    print('held')
    return 0
