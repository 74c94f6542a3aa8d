"""C02: the total Hamiltonian always equals the sum of the current terms, whatever edits happened before."""
import numpy as np
import quanguru as qg
from qgmon import model as M
from qgmon.core import Abort

RULE = ('Random single, composite and nested-composite systems are edited through the public interface (frequencies, operators, orders, '
        'dimensions, new/removed/retargeted terms and couplings, compound terms) with reads of arbitrary systems interleaved, so that every '
        'cache is warm; after every edit the Hamiltonian of the whole and of a part is compared with a dense sum over a mirror of the terms. '
        'Signature: sequence of edit kinds and shape of the system.')
MIN_EVENTS = {'edit:complex': 5, 'edit:tiny': 10, 'edit:frequency': 20, 'edit:dimension': 20, 'edit:addterm': 20, 'edit:removeterm': 10, 'edit:operator': 20,
              'edit:retarget': 5, 'compound': 5}


def _check(rng, m, root):
    nodes = list(root.walk())
    ok = M.compare_h(m, root, 'Hamiltonian of the whole system equals the sum of its current terms')
    s = nodes[int(rng.integers(len(nodes)))]
    ok = M.compare_h(m, s, 'Hamiltonian of a part equals the sum of the terms below it') and ok
    m.ev('H:read')
    if not ok:
        raise Abort


def edits(rng, m):
    root = M.build_tree(rng, hermitian=rng.random() < .5)
    M.edit_addterm(rng, root, m) if rng.random() < .7 else None
    if rng.random() < .8:
        _check(rng, m, root)
    n = int(rng.integers(4, 12))
    kinds = []
    fs = [M.edit_frequency, M.edit_order, M.edit_operator, M.edit_retarget, M.edit_dimension, M.edit_addterm, M.edit_removeterm]
    for _ in range(n):
        f = fs[int(rng.integers(len(fs)))]
        if f is M.edit_frequency and rng.random() < .2:
            M.edit_frequency(rng, root, m, complex(rng.normal(), rng.normal()))
            m.ev('edit:complex')
        else:
            f(rng, root, m)
        kinds.append(f.__name__[5:8])
        if rng.random() < .75:
            _check(rng, m, root)
        elif rng.random() < .5:
            # warm only one branch of the cache
            nodes = list(root.walk())
            nodes[int(rng.integers(len(nodes)))].lib.totalHamiltonian
    _check(rng, m, root)
    for s in root.walk():
        if not M.compare_h(m, s, 'Hamiltonian of every part equals the sum of the terms below it'):
            raise Abort
    m.sig('edits', root.describe(), tuple(kinds))
    m.sample = {'system': root.describe(), 'edits': kinds}


def compound(rng, m):
    """A term made of several couplings sharing one frequency."""
    root = M.build_tree(rng, nleaf=int(rng.integers(2, 4)), maxD=30)
    if not root.comp:
        root = M.compose(rng, [root, M.build_leaf(rng)], 0)
    parts = [M.add_coupling(rng, root, hermitian=False) for _ in range(int(rng.integers(2, 4)))]
    g = M.rfreq(rng)
    lib = qg.QTerm(qSystem=root.lib, subSys=[p.lib for p in parts], frequency=g)
    m.ev('compound')
    t = M.MTerm(root, [], g, lib=lib)
    t.parts = parts

    def want():
        pos, D = root.positions()
        return sum(g * p.matrix(pos, D, 1) for p in parts)
    for k in range(int(rng.integers(2, 5))):
        for p in parts:
            p.freq = g
        # the compound term drives its parts, which stay terms of the system
        if not M.compare_h(m, root, 'Hamiltonian follows the common frequency of a compound term'):
            raise Abort
        if rng.random() < .5:
            if not m.close(lib.totalHamiltonian, want(), 'compound term equals frequency times the sum of its parts'):
                raise Abort
        if rng.random() < .3:
            M.edit_frequency(rng, root, m)
            for p in parts:
                g2 = p.freq
            if any(p.freq != g for p in parts):
                # re-synchronise through the compound term
                g = M.rfreq(rng)
                lib.frequency = g + 1
                lib.frequency = g
        else:
            g = M.rfreq(rng)
            lib.frequency = g
        m.note('compound frequency', g)
    m.sig('compound', root.describe(), len(parts))


def rejected(rng, m):
    """Edits that are refused leave everything as it was."""
    root = M.build_tree(rng)
    _check(rng, m, root)
    leaf = root.leaves()[int(rng.integers(len(root.leaves())))]
    before = [(s, s.H()) for s in root.walk()]
    k = int(rng.integers(4))
    raised = False
    try:
        if k == 0:
            leaf.lib.frequency = 'a'
        elif k == 1:
            leaf.lib.dimension = 0 if rng.random() < .5 else 2.5
        elif k == 2:
            if leaf.dim == 2:
                leaf.lib.createTerm(operator=[qg.sigmax, qg.sigmax], frequency=1.)
            else:
                leaf.lib.operator = qg.sigmax
        else:
            leaf.lib.addSubSys(qg.Qubit())
    except (TypeError, ValueError):
        raised = True
        m.ev('rejected')
    m.check(raised, 'an inadmissible edit is refused with TypeError/ValueError', str(k))
    if not (k == 2 and not raised):
        for s, h in before:
            m.close(s.lib.totalHamiltonian, h, 'a refused edit changes nothing')
    m.sig('rej', k, root.describe())


FAMILIES = [('edits', edits, 440, 4000), ('compound', compound, 80, 500), ('rejected', rejected, 120, 600)]
