"""What an execution computes with values that are missing: None in arithmetic, names that were never set."""
from .ir import *
from .rules.splits import resolved, truth


def open_parts(n, seen=None):
    """n and its parts but for those of a choice that is not settled"""
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'phi':
            st.append(x.args[0])
        else:
            st += list(children(x))


def missing(events, loops, facts):
    """(event, text) of what is computed with None or unset names when the given nodes are None (facts[node] = 'none')"""
    facts = dict(facts)
    for n in list(facts):
        facts[mk('cmp', 'is', n, NONE)] = True
        facts[mk('cmp', 'is not', n, NONE)] = False
    none = {n for n, v in facts.items() if v == 'none'} | {NONE}
    for _ in range(2):
        for L in loops.values():
            for lam, b in L.back.items():
                if L.entry.get(lam) is NONE and lam not in facts and resolved(b, facts) is lam:
                    facts[lam] = 'none'
                    none.add(lam)
    memo = {}
    seen = set()
    for e in events:
        if any(truth(q[0], facts) is not None and truth(q[0], facts) != q[1] for q in e.path if isinstance(q, tuple)) or \
                any(truth(q, facts) is False for q in e.path if not isinstance(q, tuple)):
            continue
        for x in (e.target, e.value):
            if not isinstance(x, N):
                continue
            for z in open_parts(resolved(x, facts, memo)):
                w = None
                if z.op == 'bin' and z.args[0] in ('+', '-', '*', '/', '//') and any(y in none for y in z.args[1:]):
                    w = 'computes %s with None' % show(z, 3)
                elif z.op == 'unbound':
                    w = 'uses a name that is not set'
                if w and (e.site.func, w) not in seen:
                    seen.add((e.site.func, w))
                    yield e, w
