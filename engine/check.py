"""python3 -m engine.check <property> [--thorough]: decides one property on the current working tree of /repo."""
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(20000)
from . import build
from .ir import Program
from .report import Report, PROVED, REFUTED, UNDECIDED

ROOT = build.ROOT
KNOWN = os.path.join(ROOT, 'known_findings.txt')
# (module, function, properties the obligations of which it may produce)
LEMMAS = [
    ('lemmas_ops', 'lemma_ops', 'C01 C02 C03 C04 C05 C08 C23 C26'),
    ('lemmas_nodes', 'lemma_traversal', 'C07 C08'),
    ('lemmas_nodes', 'lemma_exactly_one', 'C08 C23 C27'),
    ('lemmas_nodes', 'lemma_bfs', 'C07 C08'),
    ('lemmas_handles', 'lemma_handles', 'C01 C02 C03 C05 C07 C08 C11 C20 C23 C27 C29'),
    ('lemmas_table', 'lemma_unique_find', 'C01 C02 C03 C05 C07 C18 C19 C23 C24 C25'),
    ('lemmas_table', 'lemma_remove_dead', 'C03 C05 C06 C18 C23 C24 C25'),
    ('lemmas_pools', 'lemma_pools', 'C03 C08 C18 C23 C24 C25 C29'),
    ('lemmas_pools', 'lemma_var_members', 'C01 C02 C03 C05 C18 C20 C24 C25 C29'),
    ('queries', 'lemma_globals', 'C20'),
    ('queries', 'lemma_output', 'C22'),
    ('queries', 'lemma_declared', 'C28'),
    ('queries', 'lemma_ownership', 'C25'),
    ('queries', 'lemma_asserts', 'C21'),
    ('lemmas_cache', 'lemma_node_cache', 'C05 C06 C19 C23 C25 C29'),
    ('lemmas_cache', 'lemma_memo', 'C04 C06 C08 C23 C29'),
    ('lemmas_eval', 'lemma_evaluate', 'C11'),
    ('lemmas_rebase', 'lemma_rebase', 'C02 C05 C08 C12 C20'),
    ('lemmas_fold', 'lemma_folds', 'C05 C09 C23'),
    ('lemmas_fold', 'lemma_cardinality', 'C05 C10 C23'),
    ('lemmas_coll', 'lemma_product', 'C02 C14 C15 C23'),
    ('lemmas_coll', 'lemma_append', 'C14 C15'),
    ('lemmas_coll', 'lemma_dispatch', 'C15'),
    ('lemmas_coll', 'lemma_keys', 'C12 C13 C14 C15 C17'),
    ('lemmas_store', 'lemma_export', 'C05 C08 C13 C23'),
    ('lemmas_store', 'lemma_import', 'C05 C08 C13'),
    ('lemmas_edit', 'lemma_rebase_stored', 'C08 C16'),
    ('lemmas_edit', 'lemma_remove', 'C08 C16'),
    ('lemmas_reduce', 'lemma_or_var', 'C08 C17'),
    ('lemmas_reduce', 'lemma_reduce', 'C08 C17'),
    ('lemmas_depth', 'lemma_depth', 'C32'),
    ('lemmas_build', 'lemma_build', 'C08 C30'),
    ('lemmas_build', 'lemma_view', 'C08 C31'),
    ('lemmas_build', 'lemma_wrap', 'C08 C14'),
    ('lemmas_cache', 'lemma_collect', 'C04 C05 C06 C20 C25'),
    ('lemmas_cache', 'lemma_teardown', 'C25'),
    ('queries', 'lemma_stale', 'C03 C04 C06'),
]


def relevant(prop):
    return [(m, f) for m, f, ps in LEMMAS if prop in ps.split()]


LIMIT, LIMIT_THOROUGH = 240, 420    # seconds for one lemma


def short(p):
    p = p or '?'
    r = build.REPO.rstrip('/') + '/'
    return p[len(r):] if p.startswith(r) else p


def known():
    """finding lines: property|rule|file|function|text contained in the message"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.strip().split('=', 1) for x in l[len('finding:'):].split('|'))
                out.append(d)
    return out


def matches(k, prop, o):
    w = o.where or ('?', 0, '?')
    return (k.get('property') == prop and k.get('rule') == o.rule and k.get('file', '') == short(w[0])
            and k.get('function', '') in (w[2] or '') and k.get('what', '') in o.msg)


class TimeUp(BaseException):
    pass


def run_lemma(P, m, f):
    R = Report()
    t = time.time()

    def late(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT_THOROUGH if getattr(P, 'thorough', False) else LIMIT)
    try:
        try:
            getattr(importlib.import_module('engine.' + m), f)(P, R)
        finally:
            signal.alarm(0)
    except TimeUp:
        # what has been decided so far stands, the remainder is undecided
        ps = next(x for a, b, x in LEMMAS if (a, b) == (m, f))
        R.ob(tuple(ps.split()), 'analysed within the time limit', None, ('', 0, m + '.' + f), '%s.%s did not end in time' % (m, f))
        R.notes.append('%s.%s did not end in time' % (m, f))
    except BaseException as e:
        R.errors.append('%s.%s: %r' % (m, f, e))
        if os.environ.get('LBDD_DEBUG'):
            traceback.print_exc()
    R.seconds = round(time.time() - t, 2)
    for o in R.obs:
        o.detail = plain(o.detail)
    return R


def plain(d):
    if d is None or isinstance(d, (str, int)):
        return d
    if isinstance(d, dict):
        return {str(a): plain(b) for a, b in d.items()}
    if isinstance(d, (list, tuple, set)):
        return [plain(x) for x in d]
    return str(d)


def run_all(P, lem):
    """each lemma in a process of its own, as many at a time as there are processors"""
    out = [None] * len(lem)
    todo = list(range(len(lem)))
    running = {}
    while todo or running:
        while todo and len(running) < (os.cpu_count() or 4):
            k = todo.pop(0)
            fd = tempfile.TemporaryFile()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    sys.setrecursionlimit(20000)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    pickle.dump(run_lemma(P, *lem[k]), fd)
                    fd.flush()
                finally:
                    os._exit(0)
            running[pid] = (k, fd)
        pid, _ = os.wait()
        if pid in running:
            k, fd = running.pop(pid)
            fd.seek(0)
            try:
                out[k] = pickle.load(fd)
            except Exception as e:
                r = Report()
                r.errors.append('%s.%s: no result (%r)' % (lem[k][0], lem[k][1], e))
                r.seconds = 0
                out[k] = r
            fd.close()
    return out


def main(argv):
    prop = argv[0]
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        path = build.dump()
    except build.BuildError as e:
        print('ERROR: the sources of the library cannot be compiled for analysis\n' + str(e))
        return 2
    P = Program(path)
    P.thorough = thorough
    R = Report()
    lem = relevant(prop)
    timing = {}
    for (m, f), r in zip(lem, run_all(P, lem)):
        timing['%s.%s' % (m, f)] = r.seconds
        R.merge(r)
    obs = {}
    for o in R.obs:
        if prop not in o.props:
            continue
        k = (o.rule, o.where, o.msg, o.status)
        if k not in obs:
            obs[k] = [o, 0]
        obs[k][1] += 1
    obs = list(obs.values())
    kn = [k for k in known() if k.get('property') == prop]
    viol, found = [], {}
    for o, n in obs:
        if o.status != REFUTED:
            continue
        for k in kn:
            if matches(k, prop, o):
                found.setdefault(k.get('id', k.get('what')), o)
                break
        else:
            viol.append(o)
    proved = [x for x in obs if x[0].status == PROVED]
    und = [x for x in obs if x[0].status == UNDECIDED]
    rules = {}
    for o, n in obs:
        rules.setdefault(o.rule, {PROVED: 0, REFUTED: 0, UNDECIDED: 0})[o.status] += n
    replay = os.path.join(evdir, prop + '.violation.txt')
    if os.path.exists(replay):
        os.unlink(replay)

    def line(o):
        w = o.where or ('?', 0, '?')
        return '%s:%s (%s): [%s] %s' % (short(w[0]), w[1], w[2], o.rule, o.msg)
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Obligations generated by the listed rules from the LLVM IR of every translation unit of the current tree '
                           '(abstract interpretation over value-numbered terms with function contracts, and queries over types, call graph and globals); '
                           'each is proved, refuted (= violation, with construct and path) or undecided.',
            'obligations': sum(n for _, n in obs), 'distinct_obligations': len(obs),
            'proved': sum(n for _, n in proved), 'undecided': sum(n for _, n in und), 'refuted': sum(n for o, n in obs if o.status == REFUTED),
            'rules': rules, 'paths': R.paths,
            'functions_analysed': len(R.functions),
            'functions': sorted(x for x in {P.demangled(f) for f in R.functions} if x.startswith('BDD::'))[:120],
            'undecided_list': [line(o) for o, _ in und][:40],
            'samples': [line(o) for o, _ in proved][:12],
            'lemma_seconds': timing, 'errors': R.errors, 'notes': R.notes[:40],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as g:
        json.dump(ev, g, indent=1)
    print('%s: %d obligations, %d proved, %d undecided, %d refuted; %d paths, %d functions; %.1f s' % (
        prop, ev['coverage']['obligations'], ev['coverage']['proved'], ev['coverage']['undecided'], ev['coverage']['refuted'],
        R.paths, len(R.functions), time.time() - t0))
    for e in R.errors:
        print('note: ' + e)
    for o, _ in und[:20]:
        print('undecided: ' + line(o))
    for k, o in found.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, line(o)))
    if viol:
        with open(replay, 'w') as g:
            for o in viol:
                g.write(line(o) + '\n')
                d = o.detail
                if isinstance(d, dict):
                    for a, b in d.items():
                        g.write('  %s: %s\n' % (a, '\n    '.join(b) if isinstance(b, list) else b))
                elif d:
                    for a in d:
                        g.write('  on the path where %s\n' % a)
        for o in viol[:10]:
            print('refuted: ' + line(o))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if not obs:
        print('ERROR: no obligations were generated for %s' % prop)
        return 2
    return 0


ASSUMPTIONS = [
    'clang 18 translates the sources as the compiler used for the build does (same standard, -O0 IR)',
    'addresses of distinct live objects differ; allocation failure surfaces as an exception',
    'callers satisfy the documented preconditions: handles belong to live managers, variables exist',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
