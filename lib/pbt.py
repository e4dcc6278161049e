"""Property-based testing engine: generators draw from a recorded choice sequence, failures are shrunk by
simplifying that sequence, and a shrunk failure is replayed three times before it is reported."""
import hashlib, json, multiprocessing as mp, os, queue, random, sys, time, traceback
import driver as drv
import build

VERIF = build.VERIF


class Violation(Exception):
    pass


class Discard(Exception):
    """Case is outside of the property's domain."""


class Inconclusive(Exception):
    """No answer within the limits (wall clock): neither passed nor failed."""


class Src:
    """Source of choices. 0 is always the simplest choice."""

    def __init__(self, rng=None, replay=None):
        self.rng, self.replay, self.log, self.pos = rng, replay, [], 0

    def raw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
            if len(self.log) > 20000:
                raise Discard('too large')
        self.log.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.raw(len(seq))]

    def flip(self, num=1, den=2):
        """True with probability num/den; False is simplest"""
        return self.raw(den) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value)]; first is simplest"""
        tot = sum(w for w, _ in pairs)
        r = self.raw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w

    def list(self, lo, hi, f):
        n = self.int(lo, hi)
        return [f(self) for _ in range(n)]

    def perm(self, seq):
        s = list(seq)
        out = []
        while s:
            out.append(s.pop(self.raw(len(s))))
        return out


class Ctx:
    """Per-worker resources: driver processes, scratch directory, counters of the current case."""

    def __init__(self, scratch):
        self.drivers = {}
        self.scratch = scratch
        self.labels = []
        self.nontrivial = True
        self.items = []
        self.extra = {}

    def driver(self, name, **kw):
        key = (name, tuple(sorted(kw.items())))
        if key not in self.drivers:
            self.drivers[key] = drv.Driver(build.driver(name), **kw)
        return self.drivers[key]

    def exe(self, name):
        return build.driver(name)

    def label(self, *ls):
        self.labels.extend(ls)

    def trivial(self):
        self.nontrivial = False

    def item(self, key, nontrivial=True):
        """registers one generated input of a case that carries several (they share one run of the driver)"""
        self.items.append((key, nontrivial))

    def close(self):
        for d in self.drivers.values():
            d.close()
        self.drivers = {}


SCALE = (2.5, 1.6)  # quick, thorough


class Sub:
    """One generator + oracle of a property.
    gen(src) -> JSON-able case; check(case, ctx) raises Violation/Discard/Inconclusive."""

    def __init__(self, name, gen, check, quick=4000, thorough=None, weight=1, need=(), corpus=()):
        self.name, self.gen, self.check = name, gen, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.need = need
        self.corpus = list(corpus)


def _seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def _key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


def run_one(sub, case, ctx):
    """-> (outcome, message)"""
    ctx.labels, ctx.nontrivial, ctx.items = [], True, []
    try:
        sub.check(case, ctx)
        return 'ok', None
    except Violation as e:
        return 'violation', str(e)
    except Discard as e:
        return 'discard', str(e)
    except Inconclusive as e:
        return 'inconclusive', str(e)


def shrink(sub, log, ctx, known, deadline):
    """Greedy simplification of the choice sequence; keeps any violation that is not a known finding."""
    best = list(log)
    best_case = sub.gen(Src(replay=best))
    tried = set()

    def attempt(cand):
        nonlocal best, best_case
        if time.time() > deadline:
            return False
        src = Src(replay=cand)
        try:
            case = sub.gen(src)
        except Exception:
            return False
        norm = src.log
        if (len(norm), norm) >= (len(best), best):
            return False
        k = tuple(norm)
        if k in tried:
            return False
        tried.add(k)
        try:
            outcome, msg = run_one(sub, case, ctx)
        except Exception:
            return False
        if outcome == 'violation' and not known(sub.name, case, msg):
            best, best_case = norm, case
            return True
        return False

    progress = True
    while progress and time.time() < deadline:
        progress = False
        # delete blocks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    progress = True
                else:
                    # deletion plus decrement of a preceding length
                    done = False
                    if size <= 8:
                        for j in range(max(0, i - 4), i):
                            if best[j] > 0:
                                c = best[:j] + [best[j] - 1] + best[j + 1:i] + best[i + size:]
                                if attempt(c):
                                    progress = done = True
                                    break
                    if not done:
                        i += size
                if time.time() > deadline:
                    break
            size //= 2
        # zero and lower values
        i = 0
        while i < len(best) and time.time() < deadline:
            v = best[i]
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    progress = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1 and i < len(best):
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            progress = True
                            hi = mid
                        else:
                            lo = mid
            i += 1
    return best, best_case


def _worker(prop, wid, nworkers, seed, tier, deadline, out, stop, scratch, modname):
    try:
        import importlib
        mod = importlib.import_module(modname)
        known = load_known(prop)
        os.makedirs(scratch, exist_ok=True)
        ctx = Ctx(scratch)
        for sub in mod.SUBS:
            n = sub.quick if tier == 'quick' else sub.thorough
            scale = float(os.environ.get('PBT_SCALE', '1')) * getattr(mod, 'SCALE', SCALE)[tier == 'thorough']
            n = max(1, int(n * scale))
            cases = None
            stats = dict(evaluations=0, discards=0, inconclusive=0, known={}, labels={}, samples=[], keys=set(), nontriv=0)
            corpus = [(c, None) for k, c in enumerate(sub.corpus) if k % nworkers == wid]
            i = wid
            t_sub = time.time()
            while True:
                if stop.is_set():
                    break
                if time.time() > deadline:
                    stats['capped'] = True
                    break
                if corpus:
                    case, log = corpus.pop()
                else:
                    if i >= n:
                        break
                    src = Src(rng=random.Random(_seed(seed, prop, sub.name, i)))
                    i += nworkers
                    try:
                        case = sub.gen(src)
                    except Discard:
                        stats['discards'] += 1
                        continue
                    log = src.log
                outcome, msg = run_one(sub, case, ctx)
                if outcome == 'discard':
                    stats['discards'] += 1
                    continue
                stats['evaluations'] += max(1, len(ctx.items))
                if outcome == 'inconclusive':
                    stats['inconclusive'] += 1
                    continue
                for l in ctx.labels:
                    stats['labels'][l] = stats['labels'].get(l, 0) + 1
                if ctx.items:
                    for ik, nt in ctx.items:
                        if nt:
                            stats['nontriv'] += 1
                            stats['keys'].add(_key(ik))
                    if len(stats["samples"]) < 3 and (not stats["samples"] or (i // nworkers) % 7 == 1):
                        stats['samples'].append([ik for ik, nt in ctx.items if nt][:4])
                elif ctx.nontrivial:
                    stats['nontriv'] += 1
                    k = _key(case)
                    if k not in stats['keys']:
                        stats['keys'].add(k)
                        if len(stats["samples"]) < 3 and (not stats["samples"] or (i // nworkers) % 7 == 1):
                            stats['samples'].append(case)
                if outcome == 'violation' and 'CPU time limit' in msg:  # or is only this machine slow?
                    drv.PATIENT = True
                    patient = Ctx(scratch)
                    try:
                        outcome, m2 = run_one(sub, case, patient)
                    finally:
                        drv.PATIENT = False
                        patient.close()
                    if outcome != 'violation':
                        stats['inconclusive'] += 1
                        continue
                if outcome == 'violation':
                    kn = known(sub.name, case, msg)
                    if kn:
                        stats['known'][kn] = stats['known'].get(kn, 0) + 1
                        continue
                    if stop.is_set():
                        break
                    stop.set()  # first failure found: others stop
                    if log is not None:
                        try:
                            log2, case2 = shrink(sub, log, ctx, known, min(time.time() + (60 if tier == 'quick' else 180), max(time.time() + 15, deadline + 60)))
                        except Exception:
                            case2 = case
                    else:
                        case2 = case
                    confirmed = 0
                    msgs = []
                    for c in (case2, case):
                        confirmed = 0
                        for _ in range(3):
                            o, m = run_one(sub, c, ctx)
                            if o == 'violation':
                                confirmed += 1
                                msgs.append(m)
                        if confirmed == 3:
                            out.put(('violation', sub.name, c, msgs[-1]))
                            break
                    else:
                        out.put(('flaky', sub.name, case, msg))
                        stop.clear()
            stats['keys'] = list(stats['keys'])
            stats['wall'] = time.time() - t_sub
            out.put(('stats', sub.name, stats, None))
        ctx.close()
        out.put(('done', wid, None, None))
    except BaseException:
        out.put(('error', wid, traceback.format_exc(), None))


# ---------------------------------------------------------------- known findings
KNOWN_FILE = os.path.join(VERIF, 'known_findings.jsonl')


def known_entries(prop):
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if not line or line.startswith('fixed:'):
                continue
            e = json.loads(line)
            if e['property'] == prop:
                out.append(e)
    return out


def load_known(prop):
    """An entry names the exact failing case: {"property","id","sub","case","what"}."""
    ents = known_entries(prop)

    def match(sub, case, msg):
        for e in ents:
            if e['sub'] == sub and e['case'] == case:
                return e['id']
        return None
    return match


def save_replay(prop, sub, case, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([sub, case], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=msg,
                       how='python3 /verif/check.py %s --replay %s' % (prop, p)), f, indent=1)
    return p


def main(prop, modname, tier=None, seed=None, replay=None):
    import importlib, shutil, tempfile
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(modname)
    if os.environ.get('PBT_SUB'):  # development: one generator only
        mod.SUBS = [s for s in mod.SUBS if s.name in os.environ['PBT_SUB'].split(',')]
        mod.__dict__.pop('extra', None)
    need = sorted({n for s in mod.SUBS for n in s.need})
    try:
        for n in need:
            build.driver(n)
    except build.BuildError as e:
        print('BUILD FAILED: %s' % e)
        return 2
    base = tempfile.mkdtemp(prefix='ccalc-%s-' % prop)
    try:
        if replay:
            r = json.load(open(replay))
            ctx = Ctx(base)
            sub = [s for s in mod.SUBS if s.name == r['sub']][0]
            o, m = run_one(sub, r['case'], ctx)
            ctx.close()
            print(o, m or '')
            if o == 'violation':
                print('VIOLATION property=%s replay=%s' % (prop, replay))
                return 1
            return 0
        known = load_known(prop)
        for e in known_entries(prop):
            ctx = Ctx(base)
            subs = [s for s in mod.SUBS if s.name == e['sub']]
            if subs:
                o, m = run_one(subs[0], e['case'], ctx)
                if o == 'violation':
                    print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
            ctx.close()
        nworkers = int(os.environ.get('PBT_WORKERS', '8'))
        cap = getattr(mod, 'CAP', {}).get(tier, 300 if tier == 'quick' else 720)
        cap = float(os.environ.get('PBT_CAP', cap))
        deadline = t0 + cap
        q = mp.Queue()
        stop = mp.Event()
        ws = [mp.Process(target=_worker, args=(prop, w, nworkers, seed, tier, deadline, q, stop,
                                               os.path.join(base, 'w%d' % w), modname), daemon=False)
              for w in range(nworkers)]
        for w in ws:
            w.start()
        subs = {}
        viol, errors, flaky = [], [], []
        alive = nworkers
        while alive:
            try:
                m = q.get(timeout=5)
            except queue.Empty:
                if not any(w.is_alive() for w in ws) and q.empty():
                    errors.append('a worker ended without an answer')
                    break
                continue
            if m[0] == 'done':
                alive -= 1
            elif m[0] == 'error':
                alive -= 1
                errors.append(m[2])
                stop.set()
            elif m[0] == 'violation':
                viol.append(m[1:])
            elif m[0] == 'flaky':
                flaky.append(m[1:])
            elif m[0] == 'stats':
                s = subs.setdefault(m[1], dict(evaluations=0, discards=0, inconclusive=0, known={}, labels={},
                                               samples=[], keys=set(), nontriv=0, wall=0, capped=False))
                st = m[2]
                for k in ('evaluations', 'discards', 'inconclusive', 'nontriv'):
                    s[k] += st[k]
                for k in ('known', 'labels'):
                    for a, b in st[k].items():
                        s[k][a] = s[k].get(a, 0) + b
                s['samples'] += st['samples']
                s['keys'] |= set(st['keys'])
                s['wall'] = max(s['wall'], st['wall'])
                s['capped'] = s['capped'] or st.get('capped', False)
        for w in ws:
            w.join(20)
            if w.is_alive():
                w.kill()
        extra_viol = []
        if not viol and not errors and hasattr(mod, 'extra'):
            # additional search that does not fit the case loop (e.g. coverage-guided fuzzing)
            ev = mod.extra(tier, seed, base, deadline)
            subs[ev['name']] = dict(evaluations=ev['evaluations'], discards=0, inconclusive=0, known={},
                                    labels=ev.get('labels', {}), samples=ev.get('samples', []),
                                    keys=range(ev.get('distinct', 0)), nontriv=ev.get('distinct', 0), wall=ev['wall'],
                                    capped=False)
            for v in ev.get('violations', []):
                viol.append(v)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    total = sum(s['evaluations'] for s in subs.values())
    distinct = sum(len(s['keys']) for s in subs.values())
    samples = []
    for n, s in subs.items():
        for c in s['samples'][:4]:
            samples.append({'generator': n, 'case': c})
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=total, distinct_nontrivial=distinct, rule=mod.RULE, samples=samples,
                            generators={n: dict(evaluations=s['evaluations'], distinct_nontrivial=len(s['keys']),
                                                out_of_domain=s['discards'], inconclusive=s['inconclusive'],
                                                known_findings=s['known'],
                                                classes=dict(sorted(s['labels'].items(), key=lambda t: -t[1])[:60]),
                                                stopped_by_time_cap=s['capped'], wall_s=round(s['wall'], 2))
                                        for n, s in subs.items()},
                            unreproducible=len(flaky)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, s in subs.items():
        print('%s/%s: %d cases, %d distinct non-trivial, %d out of domain, %d inconclusive, %.1f s%s'
              % (prop, n, s['evaluations'], len(s['keys']), s['discards'], s['inconclusive'], s['wall'],
                 ' (time cap)' if s['capped'] else ''))
    for f in flaky:
        print('not reproducible, not reported: %s %s' % (f[0], f[2]))
    if errors and not viol:
        print('CHECK ERROR\n%s' % errors[0])
        return 2
    if viol:
        for sub, case, msg in viol[:1]:
            p = save_replay(prop, sub, case, msg)
            print('case: %s' % json.dumps(case)[:1500])
            print('what: %s' % msg[:2500])
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if total == 0:
        print('CHECK ERROR: nothing was explored')
        return 2
    return 0
