"""Recorded depths of nodes."""
from .terms import *
from .interp import *
from .nodes import *
from .models import Models
from . import maps
from .lemmas_ops import setup_mgr, nodesym, locof, facts, clean, check_common

DC = 'BDD::bdd_node_depth'
D1 = 'the depth recorded for a node is one more than the larger depth of its successors'
D2 = 'the depth returned is the one recorded'
D3 = 'the constants have depth zero'
D4 = 'recording the depth of a node changes nothing else'
props = ('C32',)


def lemma_depth(P, R):
    this = sym('DEPTHS', ptr=True, nonnull=True, cls=DC)
    for m in ('add_node', 'add_botsink', 'add_topsink'):
        fs = P.find(r'(\S+ )?' + DC + '::' + m + r'\(')
        if not fs:
            R.ob(props, D1, None, ('include/bdd_node_depth.h', 0, DC), m + ' not found')
            continue
        root = P.func(fs[0])
        p = {'add_botsink': BOT, 'add_topsink': TOP}.get(m) or nodesym('p')
        I = Interp(P, Models())

        def policy(I, M, mp, key):
            # the successors of the node have been recorded, the node has not
            k = I.norm(key[0])
            if k is I.norm(p):
                return False
            if k is BOT or k is TOP:
                return True, ZERO
            return True, setmeta(mk('depth', k), small=True)
        I.mappolicy = policy

        def start(I):
            setup_mgr(I)
            if m == 'add_node':
                for t in (BOT, TOP):
                    I.assume(bnot(eq(p, t)))
            for x in (lo_of(p), hi_of(p)) if m == 'add_node' else ():
                for t in (BOT, TOP):
                    I.branch(eq(x, t))
            I.S.events.clear()
            return I.run(root, [this, p])
        try:
            outs = I.explore(start, 200)
        except Budget:
            R.ob(props, D1, None, (root.file, root.line, root.dem), 'too many paths')
            continue
        R.absorb(I, outs)
        n = 0
        for o in outs:
            I.S = o.S
            check_common(I, R, o, root, 'bdd_node_depth::' + m)
            if o.kind == 'unsupported':
                R.ob(props, D1, None, locof(None, o, root), str(o.info))
                continue
            if o.kind != 'ret':
                R.ob(props, D1, None, locof(None, o, root), '%s ends with %s' % (m, o.kind))
                continue
            n += 1
            cl = clean(o)
            ins = [e for e in o.S.events if e.k == 'map_insert' and not e.present]
            mine = [e for e in ins if I.norm(e.key[0]) is I.norm(p)]
            v = None
            if mine:
                v = I.norm(I.load(addc(mine[-1].entry, 16), 8))
            if m == 'add_node':
                a, b = [ZERO if x is BOT or x is TOP else I.norm(setmeta(mk('depth', x), small=True)) for x in (I.norm(lo_of(p)), I.norm(hi_of(p)))]
                good = bad = False
                if v is not None:
                    ge = [I.prove_ge0(sub(v, addc(x, 1))) for x in (a, b)]
                    good = all(ge) and any(v is I.norm(addc(x, 1)) for x in (a, b))
                    # smaller than one of them by a fixed amount, or larger than both
                    bad = not good and (any(I.prove_ge0(sub(x, v)) for x in (a, b)) or all(I.prove_ge0(sub(v, addc(x, 2))) for x in (a, b)) or is_const(v) and not (a is ZERO and b is ZERO) or v in (addc(a, 1), addc(b, 1)))
                elif not ins:
                    bad = True
                R.ob(props, D1, True if good else (False if cl and bad else None), locof(mine[-1] if mine else None, o, root), 'recorded depth %s for successors of depths %s and %s' % (show(v, 4) if v is not None else '-', show(a, 3), show(b, 3)), facts(I, o))
                r = I.norm(o.value) if isinstance(o.value, T) else None
                R.ob(props, D2, True if r is v and v is not None else (False if cl and v is not None and r is not None and is_const(sub(r, v)) else None), locof(None, o, root), 'returns %s, records %s' % (show(r, 4) if r is not None else '-', show(v, 4) if v is not None else '-'), facts(I, o))
            else:
                R.ob(props, D3, True if v is ZERO else (False if cl and (v is None and not ins or v is not None and is_const(v)) else None), locof(mine[-1] if mine else None, o, root), '%s records %s' % (m, show(v, 3) if v is not None else 'nothing'))
            other = [e for e in ins if e not in mine] + [e for e in o.S.events if e.k in ('map_assign', 'map_clear') or e.k == 'map_erase' and e.present]
            xr = any(I.norm(x) is not ZERO for x in o.S.xd.values())
            R.ob(props, D4, True if not other and not xr else (False if cl and not xr and all(e.k in ('map_insert', 'map_erase') and is_other(I, e.key[0], p) for e in other) else None), locof(other[0] if other else None, o, root), m)
        if not n:
            R.ob(props, D1, None, (root.file, root.line, root.dem), 'no path returns')


def is_other(I, a, b):
    return I.decide(eq(I.norm(a), I.norm(b))) is False
