"""C02: operations do not write into the arrays and objects they are given, and
inference does not write into the model."""
import ast
import re
from ..ir import *
from ..interp import *
from ..alias import *
from ..scope import *

# methods that answer a question about a fitted model (as opposed to training or building it)
READER = re.compile(r'^(predict|transform|log_prob|log_h|log_cdf|llr|eval|compute_|generate|sample|elbo|__call__|save|get_config|'
                    r'plot|to_|score|Estep|accum_|get_|posterior|_log|_eval|_compute|norm_|logpdf|copy|filter|split|merge|__eq__)')
# filling the argument is the purpose of these
FILLERS = re.compile(r'^(add_argparse_args|add_parser|save_params|_save_params)')


# operations whose documented purpose is to take over / rename what they are given
ADOPT = {'TransformList.append'}


def scalar_default(f, nme):
    d = f.default_of(nme)
    return isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)) and d.value is not None


def none_default(f, nme):
    d = f.default_of(nme)
    return d is None or isinstance(d, ast.Constant) and d.value is None


def arrayval(n, arr):
    """n is certainly an array: element selection by an array, or arithmetic on one"""
    if n in arr or n.op in ('T',):
        return True
    if n.op == 'sub':
        return n.args[1].op in ('param', 'attr', 'cmp', 'alloc', 'call') and n.args[1].op != 'const' and (
            n.args[1] in arr or n.args[1].op in ('cmp', 'alloc')) or n.args[1].op == 'param' and n.args[0] in arr
    if n.op in ('bin',):
        return arrayval(n.args[1], arr) or arrayval(n.args[2], arr)
    if n.op == 'alloc':
        return n.args[1].op == 'call'
    return False


def check(p, rep, tier):
    nf = nm = 0
    found = []
    for f, c in entry_functions(p, inherited=True):
        if not public(f):
            continue        # helpers are judged through the operations that use them
        I = Interp(p)
        run = I.run(f, c)
        nf += 1
        A = Alias(I)
        q = qual(f)
        rep.unit(f.fq)
        arr = None
        for e in run.events:
            if e.kind not in ('mutate', 'setattr'):
                continue
            nm += 1
            tgt = e.target
            atoms = path_atoms(e.path)
            if any(v is False and is_const(k, True) for k, v in atoms.items()):
                continue
            unsure = set()
            roots = A.roots(tgt, atoms, unsure)
            bad = False
            for r in roots:
                b = base(r)
                if b is run.selfnode:
                    if e.kind == 'mutate' and r.op == 'attr' and reader(f, c) and not cache_field(r):
                        found.append(('own-state', f, c, e, '%s writes in place into %s of the object it is called on' % (
                            e.extra[0], show(r))))
                        bad = True
                    continue
                if b.op != 'param' or b.args[0] != f.fq:
                    continue
                nme = b.args[1]
                va = f.params()
                if nme in (va[1], va[3]) and r is b:
                    continue        # *args / **kwargs of this call: fresh containers
                if FILLERS.match(f.name):
                    continue
                if f.kind == 'classmethod' and nme == f.params()[0][0]:
                    continue
                if e.kind == 'setattr':
                    if f.name == '__init__' or q in ADOPT:
                        continue    # constructors adopt what they are given
                    if True:
                        found.append(('argument', f, c, e, 'assigns %s.%s of its argument' % (show(r), e.extra)))
                        bad = True
                    continue
                if e.extra[0].startswith('aug') and len(e.extra) == 1:
                    if scalar_default(f, nme):
                        continue
                    if arr is None:
                        arr = arrayish(run, I)
                    if tgt is r and r not in arr and not (none_default(f, nme) and arrayval(e.value, arr)):
                        continue    # x += 1 on something never used as an array
                found.append(('argument', f, c, e, 'writes in place (%s) into the memory of its argument %s' % (
                    e.extra[0] if not e.extra[0].startswith('store') else 'element store', show(r))))
                bad = True
            if not bad:
                if unsure:
                    rep.undec('argument', q, 'target may alias %s' % ', '.join(show(u) for u in unsure))
                else:
                    rep.discharged('argument', q, show(tgt, 3) if len(rep.samples) < 12 else None)
    # one finding per written place: at the function holding the write if it is public, else at the first operation reaching it
    best = {}
    for x in found:
        k = (x[0], str(x[3].site))
        if k not in best or (x[3].site.func is x[1] and best[k][3].site.func is not best[k][1]):
            best[k] = x
    for rule, f, c, e, msg in best.values():
        rep.violation(rule, qual(f), msg, '%s' % e.site)
    rep.require('functions analysed', nf, 500)
    rep.require('writes examined', nm, 800)


def reader(f, c):
    if c is None:
        return False
    if not any(f.mod.name == m or f.mod.name.startswith(m + '.') for m in MODEL):
        return False
    return bool(READER.match(f.name))


def cache_field(r):
    return r.args[1].startswith('_')
