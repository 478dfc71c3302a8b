#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py <ID> [<ID>...]      run the check of a property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE [-v]    re-execute a replay file
  check.py selftest [IDs]      determinism proof: every unit twice, different worker layouts
  check.py build               build every simulator binary
"""
import hashlib, itertools, json, os, re, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from simbuild import build, BuildError  # noqa: E402
import props  # noqa: E402

OUT = os.path.join(VERIF, 'build', 'run')
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
NCPU = min(8, os.cpu_count() or 8)


def sh(cmd, timeout=None, inp=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


# ------------------------------------------------------------------ plans --
class Plan:
    def __init__(self, prop, sessions):
        self.prop, self.sessions = prop, sessions  # sessions: [(name, [line,...])]

    @staticmethod
    def parse(text):
        prop, ss = None, []
        for raw in text.splitlines():
            l = raw.split('#')[0].strip()
            if not l or l.startswith('simreplay') or l.startswith('binary') or l.startswith('class'):
                continue
            if l.startswith('property'):
                prop = l.split()[1]
            elif l.startswith('session'):
                ss.append((l.split()[1], []))
            elif ss:
                ss[-1][1].append(l)
        return Plan(prop, ss)

    def text(self, header=()):
        o = ['simreplay 1', 'property %s' % self.prop]
        o += ['# ' + h for h in header]
        for n, ls in self.sessions:
            o.append('session ' + n)
            o += ['  ' + l for l in ls]
        return '\n'.join(o) + '\n'

    def size(self):
        return sum(1 + len(ls) for _, ls in self.sessions)


RES = re.compile(r'^RESULT violation class=(\S+) session=(\d+) hash=(\w+) tags=(\S*) msg=(.*)$', re.M)


SERIAL = itertools.count()


def replay_text(binary, text, prop, tag, cpu=40, trace=False):
    path = os.path.join(OUT, 'rp.%d.%s.%d' % (os.getpid(), tag, next(SERIAL)))
    with open(path, 'w') as f:
        f.write(text)
    try:
        cmd = [binary, 'replay', path, '--property', prop, '--cpu', str(cpu)] + (['--trace'] if trace else [])
        rc, out, err = sh(cmd, timeout=300)
    finally:
        os.unlink(path)
    m = RES.search(out)
    if m:
        return dict(cls=m.group(1), session=int(m.group(2)), hash=m.group(3), tags=m.group(4), msg=m.group(5), out=out)
    if rc == 0:
        return dict(cls=None, out=out)
    return dict(cls='?error', msg=out[-400:] + err[-400:], out=out)


# ------------------------------------------------------------ minimisation --
class Minimiser:
    def __init__(self, binary, prop, cls, budget):
        self.binary, self.prop, self.cls = binary, prop, cls
        self.deadline = time.time() + budget
        self.tries = 0
        self.cache = {}
        self.cpu = 8 if cls == 'hang' else 40
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def fails(self, plan):
        t = plan.text()
        k = hashlib.sha1(t.encode()).hexdigest()
        if k not in self.cache:
            self.tries += 1
            r = replay_text(self.binary, t, self.prop, k[:10], self.cpu)
            self.cache[k] = r['cls'] == self.cls and (r['tags'] == 'all' or self.prop in r['tags'].split(','))
        return self.cache[k]

    def first(self, cands):
        """First failing candidate, evaluated in parallel batches, order kept."""
        for i in range(0, len(cands), NCPU):
            if time.time() > self.deadline:
                return None
            batch = cands[i:i + NCPU]
            for c, r in zip(batch, self.pool.map(self.fails, batch)):
                if r:
                    return c
        return None

    def ddmin(self, items, mk):
        n = 2
        while len(items) >= 1 and time.time() < self.deadline:
            size = max(1, len(items) // n)
            cands, comps = [], []
            for i in range(0, len(items), size):
                comp = items[:i] + items[i + size:]
                comps.append(comp)
                cands.append(mk(comp))
            hit = self.first(cands)
            if hit is not None:
                items = comps[next(i for i, c in enumerate(cands) if c is hit)]
                n = max(n - 1, 2)
                if size == 1 and not items:
                    break
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items

    def numbers(self, plan):
        changed = True
        rounds = 0
        while changed and time.time() < self.deadline and rounds < 3:
            changed = False
            rounds += 1
            for si in range(len(plan.sessions)):
                for li in range(len(plan.sessions[si][1])):
                    toks = plan.sessions[si][1][li].split()
                    for ti in range(1, len(toks)):
                        if not re.fullmatch(r'-?\d+', toks[ti]):
                            continue
                        v = int(toks[ti])
                        opts = [o for o in (0, 1, v // 2, v - 1) if 0 <= o < v]
                        seen, cands = set(), []
                        for o in opts:
                            if o in seen:
                                continue
                            seen.add(o)
                            t2 = toks[:ti] + [str(o)] + toks[ti + 1:]
                            ss = [(n, list(ls)) for n, ls in plan.sessions]
                            ss[si][1][li] = ' '.join(t2)
                            cands.append(Plan(plan.prop, ss))
                        hit = self.first(cands) if cands else None
                        if hit is not None:
                            plan = hit
                            toks = plan.sessions[si][1][li].split()
                            changed = True
                        if time.time() > self.deadline:
                            return plan
        return plan

    def run(self, plan, session):
        # Session level: the failing one alone, else with its predecessors.
        alone = Plan(plan.prop, [plan.sessions[session]])
        upto = Plan(plan.prop, plan.sessions[:session + 1])
        if self.fails(alone):
            plan = alone
        elif self.fails(upto):
            last = upto.sessions[-1]
            pre = self.ddmin(upto.sessions[:-1], lambda c: Plan(plan.prop, c + [last]))
            plan = Plan(plan.prop, pre + [last])
        # Line level.
        for rnd in range(3):
            before = plan.size()
            flat = [(si, l) for si, (n, ls) in enumerate(plan.sessions) for l in ls]

            def mk(items):
                ss = [(n, []) for n, _ in plan.sessions]
                for si, l in items:
                    ss[si][1].append(l)
                return Plan(plan.prop, ss)
            best = self.ddmin(flat, mk)
            cand = mk(best)
            if self.fails(cand):
                plan = cand
            plan = self.numbers(plan)
            if plan.size() == before or time.time() > self.deadline:
                break
        return plan


# ------------------------------------------------------------------- check --
def merge_bits(paths):
    acc = 0
    for p in paths:
        with open(p, 'rb') as f:
            acc |= int.from_bytes(f.read(), 'little')
    return bin(acc).count('1')


def merge_sigs(paths):
    s = set()
    for p in paths:
        with open(p, 'rb') as f:
            b = f.read()
        s.update(b[i:i + 8] for i in range(0, len(b), 8))
    return len(s)


def run_check(pid, tier, seed):
    t0 = time.time()
    spec = props.CHECKS[pid]
    bins = build(sorted(set(b for b, _ in spec['workers'])))
    t_build = time.time() - t0
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    secs = float(os.environ.get('SIM_SECONDS', 0)) or (spec.get('quick_s', 35) if tier == 'quick' else spec.get('thorough_s', 600))
    layout = [b for b, n in spec['workers'] for _ in range(n)]
    base = os.path.join(OUT, '%s.%d' % (pid, os.getpid()))
    stop = base + '.stop'
    procs = []
    for w, b in enumerate(layout):
        out = '%s.%d' % (base, w)
        procs.append((b, out, subprocess.Popen(
            [bins[b], 'run', '--property', pid, '--seed', str(seed), '--start', str(w), '--stride', str(len(layout)),
             '--seconds', str(secs), '--max-violations', '1', '--stop', stop, '--out', out],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    results = []
    pending = list(procs)
    while pending:
        for item in list(pending):
            b, out, p = item
            if p.poll() is not None:
                pending.remove(item)
                if p.returncode != 0 or not os.path.exists(out):
                    print('worker failed:', p.stderr.read().decode()[-2000:])
                    sys.exit(3)
                d = json.load(open(out))
                d['_bin'], d['_out'] = b, out
                results.append(d)
                if d['violations']:
                    open(stop, 'w').close()
        time.sleep(0.05)
    explored = time.time() - t0 - t_build
    herr = sum(d['harness_errors'] for d in results)
    counters = {}
    for d in results:
        for k, v in d['counters'].items():
            counters[k] = counters.get(k, 0) + v
    sessions = sum(d['sessions'] for d in results)
    # determinism: re-execute a sample of units in fresh processes with another layout
    det_n, det_bad = determinism_sample(pid, bins, layout, seed, 3 if tier == 'quick' else 12)
    gens = {}
    rc, sample, _ = sh([bins[layout[0]], 'gen', '--property', pid, '--seed', str(seed), '--unit', '0'])
    sp = Plan.parse(sample)
    small = sorted(sp.sessions, key=lambda s: len(s[1]))[len(sp.sessions) // 4:][:2] if sp.sessions else []
    cov = dict(
        evaluations=sessions,
        distinct_nontrivial=merge_sigs([d['_out'] + '.sigs' for d in results]),
        rule=spec['rule'],
        samples=[Plan(pid, [s]).text() for s in small],
        units=sum(d['units'] for d in results),
        nontrivial_sessions=sum(d['nontrivial'] for d in results),
        simulated_events=sum(d['events'] for d in results),
        simulated_time='the code reads no clock; simulated time is counted in scheduler events (simulated_events)',
        runs_per_hour=int(sessions / max(explored, 0.1) * 3600),
        seeds_per_hour=int(sum(d['units'] for d in results) / max(explored, 0.1) * 3600),
        distinct_states=merge_bits([d['_out'] + '.cov' for d in results]),
        distinct_states_measure=spec.get('states', 'distinct hashed (model state, event, outcome) tuples reached'),
        faults_injected={k[6:]: v for k, v in sorted(counters.items()) if k.startswith('fault.') and v},
        probes={k[6:]: v for k, v in sorted(counters.items()) if k.startswith('probe.') and v},
        events={k[6:]: v for k, v in sorted(counters.items()) if k.startswith('event.') and v},
        determinism=dict(units_re_executed=det_n, mismatches=det_bad),
        real_components=spec['real'], stub_components=spec['stub'],
        workers=['%s x%d' % w for w in spec['workers']], build_s=round(t_build, 2), explore_s=round(explored, 2),
        harness_errors=herr,
    )
    for d in results:
        for suf in ('', '.sigs', '.cov'):
            try:
                os.unlink(d['_out'] + suf)
            except OSError:
                pass
    if os.path.exists(stop):
        os.unlink(stop)
    rc = 0
    nviol = 0
    cands = [(v, d['_bin']) for d in results for v in d['violations']]
    cands.sort(key=lambda x: (x[0]['class'] == 'hang', x[0]['unit']))
    if cands:
        rc = 3
        slow = 0
        for v, b in cands[:6]:
            path = report(pid, spec, bins[b], b, seed, v, 60 if tier == 'quick' else 240)
            if path is SLOW:
                slow += 1
            elif path:
                print('VIOLATION property=%s replay=%s' % (pid, path))
                rc = 1
                nviol = len(cands)
                break
        if rc == 3 and slow == min(len(cands), 6):
            rc = 0
            cov['slow_units'] = slow
        if rc == 3:
            print('ERROR: %d violation candidate(s), none reproduced in a fresh process' % len(cands))
    elif herr:
        print('ERROR: %d harness errors: %s' % (herr, [d['herr'] for d in results if d['herr']][0]))
        rc = 3
    if det_bad:
        print('WARNING: %d of %d re-executed units gave another event log' % (det_bad, det_n))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'exploration'), coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d runs, %d distinct non-trivial, %d events, %d states, %.1fs (build %.1fs), %s' % (
        pid, sessions, cov['distinct_nontrivial'], cov['simulated_events'], cov['distinct_states'],
        time.time() - t0, t_build, 'held' if rc == 0 else 'exit %d' % rc))
    return rc


def determinism_sample(pid, bins, layout, seed, n):
    """Units 0..n-1 of each binary twice: once in one process, once each in its own."""
    bad = tot = 0
    for b in sorted(set(layout)):
        h1 = os.path.join(OUT, 'h1.%d' % os.getpid())
        sh([bins[b], 'run', '--property', pid, '--seed', str(seed), '--max-units', str(n), '--out', h1 + '.o', '--hashes', h1])
        a = dict((l.split()[0], l.split()[1:]) for l in open(h1))
        for u in range(n):
            sh([bins[b], 'run', '--property', pid, '--seed', str(seed), '--start', str(u), '--max-units', '1',
                '--out', h1 + '.o', '--hashes', h1 + '.2'])
            for l in open(h1 + '.2'):
                tot += 1
                if a.get(l.split()[0]) != l.split()[1:]:
                    bad += 1
        for p in (h1, h1 + '.2', h1 + '.o', h1 + '.o.sigs', h1 + '.o.cov'):
            if os.path.exists(p):
                os.unlink(p)
    return tot, bad


SLOW = object()


def report(pid, spec, binary, bname, seed, v, budget):
    rc, text, _ = sh([binary, 'gen', '--property', pid, '--seed', str(seed), '--unit', str(v['unit'])])
    plan = Plan.parse(text)
    # A unit that merely takes long is no violation: a hang has to last for thrice the time.
    both = lambda t: list(cf.ThreadPoolExecutor(2).map(lambda tag: replay_text(binary, t, pid, tag, 120 if v['class'] == 'hang' else 40), 'ab'))
    r1, r2 = both(plan.text())
    if v['class'] == 'hang' and r1['cls'] is None and r2['cls'] is None:
        print('NOTE: unit %d of %s is slow, but ends' % (v['unit'], bname))
        return SLOW
    if not (r1['cls'] == r2['cls'] == v['class'] and r1.get('hash') == r2.get('hash')):
        print('NOTE: candidate %s in unit %d of %s did not reproduce (%s/%s)' % (v['class'], v['unit'], bname, r1['cls'], r2['cls']))
        return None
    m = Minimiser(binary, pid, v['class'], budget)
    try:
        mini = m.run(plan, r1['session'])
    except Exception as e:  # a failure of the minimiser must not hide the violation
        print('NOTE: minimisation stopped: %r' % e)
        mini = plan
    f1, f2 = both(mini.text())
    if not (f1['cls'] == f2['cls'] == v['class'] and f1.get('hash') == f2.get('hash')):
        mini, f1 = plan, r1
    head = ['binary %s' % bname, 'class %s' % f1['cls'], 'event-log %s' % f1['hash'],
            'found by VERIF_SEED=%d unit=%d; minimised from %d to %d lines in %d replays' % (seed, v['unit'], plan.size(), mini.size(), m.tries),
            f1['msg'][:1000].replace('\n', ' ')]
    name = '%s-%s.plan' % (pid, hashlib.sha1(mini.text().encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    body = mini.text(head)
    with open(path, 'w') as f:
        f.write(body)
    print('violation class %s: %s' % (f1['cls'], f1['msg'][:1500]))
    print(body if len(body) < 6000 else body[:6000] + '...')
    return path


def cmd_replay(path, verbose):
    text = open(path).read()
    bname = re.search(r'^# binary (\S+)', text, re.M).group(1)
    want = re.search(r'^# class (\S+)', text, re.M)
    prop = Plan.parse(text).prop
    bins = build([bname])
    os.makedirs(OUT, exist_ok=True)
    r = replay_text(bins[bname], text, prop, 'r', trace=verbose)
    if verbose:
        print(r['out'])
    if r['cls'] is None:
        print('held: no violation')
        return 0
    print('class=%s hash=%s %s' % (r['cls'], r.get('hash'), r['msg']))
    if want and r['cls'] == want.group(1):
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 1


def cmd_selftest(ids):
    os.makedirs(OUT, exist_ok=True)
    bad = 0
    for pid in ids or sorted(props.CHECKS):
        spec = props.CHECKS[pid]
        bins = build(sorted(set(b for b, _ in spec['workers'])))
        for b in sorted(set(x for x, _ in spec['workers'])):
            for seed in (1, 2, 3):
                logs = []
                for W in (1, 5, 8):
                    hs, ps = {}, []
                    for w in range(W):
                        h = os.path.join(OUT, 'st.%d.%d' % (W, w))
                        per = (40 - w + W - 1) // W
                        ps.append((h, subprocess.Popen([bins[b], 'run', '--property', pid, '--seed', str(seed), '--start', str(w),
                                                        '--stride', str(W), '--max-units', str(per), '--hashes', h, '--out', h + '.o'])))
                    for h, p in ps:
                        p.wait()
                        for l in open(h):
                            hs[int(l.split()[0])] = l.split()[1:]
                        for s in ('', '.o', '.o.sigs', '.o.cov'):
                            os.unlink(h + s)
                    logs.append(hs)
                diff = sum(1 for u in logs[0] if any(l.get(u) != logs[0][u] for l in logs[1:]))
                print('%s %s seed %d: %d units at 1, 5 and 8 workers, %d differ' % (pid, b, seed, len(logs[0]), diff))
                bad += diff
    print('selftest', 'ok' if not bad else 'FAILED')
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == 'build':
            build(sorted(set(b for s in props.CHECKS.values() for b, _ in s['workers'])))
            return 0
        if a[0] == 'replay':
            return cmd_replay(a[1], '-v' in a[2:])
        if a[0] == 'selftest':
            return cmd_selftest(a[1:])
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in a:
            tier = 'thorough'
            a.remove('--thorough')
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        rc = 0
        for pid in a:
            r = run_check(pid, tier, seed)
            rc = rc or r
        return rc
    except BuildError as e:
        print('BUILD ERROR:', e)
        return 4


if __name__ == '__main__':
    sys.exit(main())
