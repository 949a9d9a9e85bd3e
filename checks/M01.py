"""M01: split/coarsen histories keep trees and sub-forests consistent."""
import numpy as np
from .common import M, Or, And, Not, Iff, Imp
MODS = ['mesh']
BOUNDS = ('forests of one or two regular trees with 2 children per node to depth 2 (4 children: depth 1 and, in the thorough tier, partly 2), '
          'every tree shape (trees may be split before they enter a forest, leave it and come back), every subset of nodes carrying the sub-forest label, refinement/coarsening flags and new label, every combination of '
          'the options of refine and coarsen, sequences of two operations; irregular trees with up to 4 nodes')
OUTSIDE = 'deeper forests, more than two consecutive operations'
BUDGET = 400

def build(env, nc, n_trees, depth, kind='tree', split='free'):
    m = M('mesh')
    forest = m.Forest([m.Tree(nc) for _ in range(n_trees)])
    nodes = {}
    def grow(node, addr):
        nodes[addr] = node
        if len(addr) - 1 < depth and (split == 'full' or env.is_true(env.bit('split' + '.'.join(map(str, addr))))):
            node.split()
            for i in range(nc): grow(node.get_child(i), addr + (i,))
    for t in range(n_trees): grow(forest.get_child(t), (t,))
    return forest, nodes

def kids(nodes, a, nc): return [a + (i,) for i in range(nc)] if a + (0,) in nodes else []
def strict_desc(nodes, a): return [b for b in nodes if len(b) > len(a) and b[:len(a)] == a]
def closure(nodes, S):
    """rooted closure: roots, and every family of siblings that has a marked descendant"""
    return {a: (True if len(a) == 1 else Or(*[S[b] for b in strict_desc(nodes, a[:-1])])) for a in nodes}
def leaf_f(nodes, R, nc):
    return {a: And(R[a], *[Not(R[k]) for k in kids(nodes, a, nc)]) for a in nodes}

def structure(env, forest, nodes, nc, tag=''):
    """addresses, links, depth, type and both traversals"""
    for a, n in nodes.items():
        env.prove('find_node' + tag, forest.find_node(list(a)) is n, a)
        env.prove('address' + tag, list(n.get_node_address()) == list(a) and n.get_depth() == len(a) - 1, a)
        ks = kids(nodes, a, nc)
        env.prove('children' + tag, [c for c in n.get_children()] == [nodes[k] for k in ks] and n.has_children() == bool(ks), a)
        env.prove('children reversed' + tag, [c for c in n.get_children(reverse=True)] == [nodes[k] for k in ks][::-1], a)
        for i, k in enumerate(ks):
            env.prove('child' + tag, n.get_child(i) is nodes[k] and nodes[k].get_parent() is n and nodes[k].get_node_position() == i, k)
        env.prove('type' + tag, n.get_node_type() == ('ROOT' if len(a) == 1 else 'BRANCH' if ks else 'LEAF'), a)
        env.prove('root' + tag, n.get_root() is nodes[a[:1]], a)
        env.prove('missing' + tag, ks or forest.find_node(list(a) + [0]) is None, a)
        env.prove('tree_depth' + tag, n.tree_depth() == max(len(b) for b in nodes if b[:len(a)] == a) - 1, a)
    env.prove('depth' + tag, forest.depth() == max(len(a) for a in nodes) - 1)
    pre = sorted(nodes)
    env.prove('depth-first' + tag, [id(n) for n in forest.traverse(mode='depth-first')] == [id(nodes[a]) for a in pre])
    bf = sorted(nodes, key=lambda a: (len(a), a))
    env.prove('breadth-first' + tag, [id(n) for n in forest.traverse(mode='breadth-first')] == [id(nodes[a]) for a in bf])
    env.prove('leaves' + tag, [id(n) for n in forest.get_leaves()] == [id(nodes[a]) for a in bf if not kids(nodes, a, nc)])
    for t in range(forest.n_children()):
        tr = forest.get_child(t)
        env.prove('tree depth-first' + tag, [id(n) for n in tr.traverse()] == [id(nodes[a]) for a in pre if a[0] == t])
        env.prove('tree breadth-first' + tag, [id(n) for n in tr.traverse(mode='breadth-first')] == [id(nodes[a]) for a in bf if a[0] == t])
        env.prove('tree leaves' + tag, {id(n) for n in tr.get_leaves()} == {id(nodes[a]) for a in bf if a[0] == t and not kids(nodes, a, nc)})

def refresh(forest, nc):
    """address -> node of the forest as it is now"""
    nodes = {}
    def go(n, a):
        nodes[a] = n
        for i in range(n.n_children()):
            c = n.get_child(i)
            if c is not None: go(c, a + (i,))
    for t in range(forest.n_children()): go(forest.get_child(t), (t,))
    return nodes

def marks(env, nodes, label, name, only=None):
    out = {}
    for a, n in nodes.items():
        if only is None or only(a): out[a] = env.mark(n, label, name + '.'.join(map(str, a)))
        else: out[a] = False
    return out

def flagged(env, forest, nodes, R, label, nc, tag=''):
    """everything that reads a (rooted) label agrees with the formula R"""
    for a, n in nodes.items():
        env.prove('label' + tag, Iff(n.is_marked(label), R[a]), a)
    L = leaf_f(nodes, R, nc)
    seen = [id(n) for n in forest.traverse(flag=label)]
    lv = [id(n) for n in forest.get_leaves(subforest_flag=label)]
    env.prove('flag traversal unique' + tag, len(set(seen)) == len(seen) and len(set(lv)) == len(lv))
    for a, n in nodes.items():
        env.prove('flag traversal' + tag, Iff(id(n) in seen, R[a]), a)
        env.prove('flag leaves' + tag, Iff(id(n) in lv, L[a]), a)
    # each root-to-bottom path meets exactly one leaf of the sub-forest
    for a in nodes:
        if not kids(nodes, a, nc):
            k = sum(id(nodes[a[:i]]) in lv for i in range(1, len(a) + 1))
            env.prove('one leaf per path' + tag, k == 1, a)
    for a, n in nodes.items():
        d = n.tree_depth(flag=label)
        for k in range(len(a) - 1, max(map(len, nodes))):
            env.prove('tree_depth(flag)' + tag, Iff(d >= k, Or(len(a) - 1 >= k, *[R[b] for b in strict_desc(nodes, a) if len(b) - 1 >= k])), (a, k))
    env.prove('rooted' + tag, forest.subtrees_rooted(label))

def h_structure(env, nc=2, n_trees=2, depth=2):
    forest, nodes = build(env, nc, n_trees, depth)
    structure(env, forest, nodes, nc)

def h_root(env, nc=2, n_trees=1, depth=2, split='free'):
    """root_subtrees / subtrees_rooted for arbitrary marks"""
    forest, nodes = build(env, nc, n_trees, depth, split=split)
    S = marks(env, nodes, 's', 's')
    R = closure(nodes, S)
    env.prove('subtrees_rooted', Iff(forest.subtrees_rooted('s'), And(*[Iff(S[a], R[a]) for a in nodes])))
    forest.root_subtrees('s')
    flagged(env, forest, nodes, R, 's', nc)
    structure(env, forest, nodes, nc)

def h_tree_flags(env, nc=2, depth=2, op='make'):
    """Tree-level label operations on arbitrary marks"""
    forest, nodes = build(env, nc, 1, depth)
    S = marks(env, nodes, 's', 's')
    root = forest.get_child(0)
    anc = {a: Or(*[S[b] for b in nodes if b[:len(a)] == a]) for a in nodes}
    if op == 'make':
        env.prove('is_rooted_subtree', Iff(root.is_rooted_subtree('s'), And(*[Imp(anc[a], S[a]) for a in nodes])))
        root.make_rooted_subtree('s')
        for a, n in nodes.items(): env.prove('make_rooted_subtree', Iff(n.is_marked('s'), anc[a]), a)
        env.prove('is_rooted_subtree after', root.is_rooted_subtree('s'))
        return
    if op == 'query':
        for a, n in nodes.items():
            chain = [a[:i] for i in range(len(a), 0, -1)]
            got = n.nearest_ancestor('s')
            for i, b in enumerate(chain):
                env.prove('nearest_ancestor', Iff(got is nodes[b], And(S[b], *[Not(S[c]) for c in chain[:i]])), a)
            env.prove('nearest_ancestor none', Iff(got is None, Not(Or(*[S[b] for b in chain]))), a)
            got = n.get_parent('s')
            for i, b in enumerate(chain[1:]):
                env.prove('get_parent(flag)', Iff(got is nodes[b], And(S[b], *[Not(S[c]) for c in chain[1:1 + i]])), a)
            ks = kids(nodes, a, nc)
            env.prove('has_children(flag)', Iff(n.has_children(flag='s'), Or(*[S[k] for k in ks])), a)
            got = list(n.get_children(flag='s')); rev = list(n.get_children(flag='s', reverse=True))
            env.prove('reverse', got[::-1] == rev, a)
            for i, k in enumerate(ks):
                env.prove('get_children(flag)', Iff(nodes[k] in got, S[k]), k)
                env.prove('has_children(position,flag)', Iff(n.has_children(position=i, flag='s'), S[k]), k)
            if len(a) > 1: env.prove('has_parent(flag)', Iff(n.has_parent('s'), S[a[:-1]]), a)
            for b, m in nodes.items():
                env.prove('contains', n.contains(m) == (b[:len(a)] == a), (a, b))
        for mode in ('depth-first', 'breadth-first'):
            for b in nodes:
                every = [id(q) for q in nodes[b].traverse(mode=mode)]; got = [id(q) for q in nodes[b].traverse(flag='s', mode=mode)]
                env.prove('flag traversal of a subtree in order', got == [i for i in every if i in got], (b, mode))
                for a, n in nodes.items(): env.prove('flag traversal of a subtree', Iff(id(n) in got, And(S[a], a[:len(b)] == b)), (a, b, mode))
        fl = forest.get_leaves(flag='s')
        for a, n in nodes.items(): env.prove('get_leaves(flag) of the forest', Iff(n in fl, And(S[a], not kids(nodes, a, nc))), a)
        lv = root.get_leaves(flag='s')
        for a, n in nodes.items():
            env.prove('get_leaves(flag)', Iff(n in lv, And(S[a], not kids(nodes, a, nc))), a)
        return
    x = env.choice('x', sorted(nodes))
    if op == 'mark': nodes[x].mark('s'); f = lambda a: Or(S[a], a == x)
    elif op == 'mark-rec': nodes[x].mark('s', recursive=True); f = lambda a: Or(S[a], a[:len(x)] == x)
    elif op == 'mark-up': nodes[x].mark('s', recursive=True, reverse=True); f = lambda a: Or(S[a], x[:len(a)] == a)
    elif op == 'unmark': nodes[x].unmark('s'); f = lambda a: And(S[a], a != x)
    elif op == 'unmark-rec': nodes[x].unmark('s', recursive=True); f = lambda a: And(S[a], a[:len(x)] != x)
    elif op == 'unmark-up': nodes[x].unmark('s', recursive=True, reverse=True); f = lambda a: And(S[a], x[:len(a)] != a)
    elif op == 'unmark-all': nodes[x].unmark(None, recursive=True); f = lambda a: And(S[a], a[:len(x)] != x)
    elif op == 'record': forest.record('s'); f = lambda a: True
    elif op == 'delete':
        for n in nodes.values(): n.mark('keep')
        nodes[x].delete_children()
        left = {a: n for a, n in nodes.items() if not (len(a) > len(x) and a[:len(x)] == x)}
        structure(env, forest, left, nc, ' after delete')
        for a, n in left.items(): env.prove('delete keeps labels', And(n.is_marked('keep'), Iff(n.is_marked('s'), S[a])), a)
        return
    for a, n in nodes.items(): env.prove(op, Iff(n.is_marked('s'), f(a)), a)

def h_delete_some(env, nc=2, depth=2):
    """children removed one at a time: the others stay, and the last one leaves a leaf"""
    forest, nodes = build(env, nc, 1, depth)
    x = env.choice('x', sorted(a for a in nodes if kids(nodes, a, nc)) or [None])
    if x is None: return
    for n in nodes.values(): n.mark('keep')
    out = set(); root = forest.get_child(0)
    for r in range(nc):
        i = env.choice('i%d' % r, [i for i in range(nc) if i not in out])
        nodes[x].delete_children(i); out.add(i)
        left = {a: n for a, n in nodes.items() if not (len(a) > len(x) and a[:len(x)] == x and a[len(x)] in out)}
        n = nodes[x]
        env.prove('who is left', [c for c in n.get_children()] == [nodes[x + (k,)] for k in range(nc) if k not in out] and [c for c in n.get_children(reverse=True)] == [nodes[x + (k,)] for k in range(nc) if k not in out][::-1], (x, out))
        for k in range(nc): env.prove('has child', n.has_children(position=k) == (k not in out) and (n.get_child(k) is None) == (k in out) and n.has_children(position=k, flag='keep') == (k not in out), (x, k))
        env.prove('has any', n.has_children() == (len(out) < nc) and n.has_children(flag='keep') == (len(out) < nc))
        env.prove('type', n.get_node_type() == ('ROOT' if len(x) == 1 else 'LEAF' if len(out) == nc else 'BRANCH'), (x, out))
        env.prove('depth-first', [id(m) for m in forest.traverse()] == [id(left[a]) for a in sorted(left)])
        env.prove('leaves', [id(m) for m in forest.get_leaves()] == [id(left[a]) for a in sorted(left, key=lambda a: (len(a), a)) if not any(b[:-1] == a for b in left)])
        for a in left: env.prove('labels and addresses kept', left[a].is_marked('keep') and forest.find_node(list(a)) is left[a], a)
    nodes[x].split()
    env.prove('can be split again', [c.get_node_address() for c in nodes[x].get_children()] == [list(x) + [k] for k in range(nc)] and not any(c.is_marked() for c in nodes[x].get_children()))

def h_any_flag(env, nc=2, n=3, trees=False):
    """marking without a name, asking for any mark, clearing all marks; label sets given at creation; whole trees"""
    m = M('mesh'); flags = ['a', 'b', 7][:n]
    new = [lambda: m.Tree(nc), lambda: m.Vertex((0., 1.)), lambda: m.HalfEdge(m.Vertex((0., 0.)), m.Vertex((1., 0.)))]
    for j, make in [] if trees else enumerate(new):
        x = make(); on = [f for f in flags if env.is_true(env.bit('m%d%s' % (j, f)))]
        for f in on: x.mark(f)
        env.prove('any mark', x.is_marked() == bool(on), (j, on))
        for f in flags: env.prove('own mark', x.is_marked(f) == (f in on), (j, f))
        f = env.choice('off%d' % j, flags); x.unmark(f)
        for g in flags: env.prove('unmark one', x.is_marked(g) == (g in on and g != f), (j, g))
        env.prove('any mark left', x.is_marked() == any(g != f for g in on), (j, on))
        x.mark(); env.prove('marked without a name', x.is_marked() and x.is_marked(True))
        for g in flags: env.prove('names unaffected', x.is_marked(g) == (g in on and g != f), (j, g))
        x.unmark(); env.prove('all marks cleared', not x.is_marked() and not any(x.is_marked(g) for g in flags) and not x.is_marked(True))
    if not trees: return
    on = [f for f in flags if env.is_true(env.bit('t%s' % f))]
    t = m.Tree(nc, flag=set(on)); u = m.Tree(nc, flag='a')
    for f in flags: env.prove('marks given at creation', t.is_marked(f) == (f in on) and u.is_marked(f) == (f == 'a'), f)
    forest, nodes = build(env, nc, 1, 2)
    x = env.choice('x', sorted(nodes)); how = env.choice('how', ('mark', 'unmark'))
    up = env.choice('up', (False, True))
    if how == 'unmark':
        for q in nodes.values(): q.mark('a')
    getattr(nodes[x], how)(recursive=True, reverse=up)
    for a, q in nodes.items():
        hit = x[:len(a)] == a if up else a[:len(x)] == x
        env.prove('nameless ' + how, q.is_marked() == (hit if how == 'mark' else not hit), (x, a))

def h_contained(env, nc=2, n_trees=1, depth=2):
    forest, nodes = build(env, nc, n_trees, depth, split='full')
    T = marks(env, nodes, 't', 't'); U = marks(env, nodes, 'u', 'u')
    forest.root_subtrees('t')
    RT, RU = closure(nodes, T), U
    LT = leaf_f(nodes, RT, nc)
    # every leaf of t lies in a leaf of u  or  is marked u / has an ancestor marked u: documented as containment of meshes
    env.prove('contained', Iff(forest.is_contained_in('t', 'u'), And(*[Imp(LT[a], Or(*[RU[a[:i]] for i in range(1, len(a) + 1)])) for a in nodes])))
    env.prove('self', forest.is_contained_in('t', 't'))

def rooted_choice(env, nodes, nc, label):
    """mark a rooted sub-forest chosen node by node"""
    R = {}
    for a in sorted(nodes, key=len):
        if len(a) == 1: R[a] = True
        elif a[-1] == 0:
            b = And(R[a[:-1]], env.bit(label + '@' + '.'.join(map(str, a[:-1]))))
            for i in range(nc): R[a[:-1] + (i,)] = b
    from symx.env import Flag
    for a, n in nodes.items():
        if R[a] is True: n.mark(label)
        elif R[a] is False: pass
        elif env.symbolic: n.mark(Flag(label, R[a]))
        elif R[a]: n.mark(label)
    return R

def do_refine(env, forest, nodes, nc, sub, ref, new, clean, R, r, N, tag):
    """apply refine; returns formulas afterwards (nodes, R, r, N)"""
    base = R if sub else {a: True for a in nodes}
    L = leaf_f(nodes, base, nc)
    go = {a: And(L[a], r[a] if ref else True) for a in nodes}
    kw = {}
    if sub: kw['subforest_flag'] = 's'
    if ref: kw['refinement_flag'] = 'r'
    if new: kw['new_label'] = 'n'
    forest.refine(clean_up=clean, **kw)
    now = refresh(forest, nc)
    # structure
    for a in nodes:
        env.prove('refine: old nodes stay' + tag, a in now and now[a] is nodes[a], a)
        if not kids(nodes, a, nc):
            env.prove('refine: split exactly the flagged leaves' + tag, Iff(bool(kids(now, a, nc)), go[a]), a)
            env.prove('refine: all children' + tag, len([b for b in now if len(b) > len(a) and b[:len(a)] == a]) in (0, nc), a)
    structure(env, forest, now, nc, ' refined' + tag)
    get = lambda d, a: d.get(a, False)
    R2 = {a: get(R, a) for a in now}; N2 = {a: get(N, a) for a in now}; r2 = {a: get(r, a) for a in now}
    g = lambda a: go.get(a[:-1], False) if len(a) > 1 else False
    if new:
        N2 = closure(now, {a: Or(N2[a], L.get(a, False), g(a)) for a in now})
    elif sub: R2 = {a: Or(R2[a], g(a)) for a in now}
    if ref and clean: r2 = {a: And(r2[a], Not(go.get(a, False))) for a in now}
    for a, n in now.items():
        env.prove('refine: sub-forest' + tag, Iff(n.is_marked('s'), R2[a]), a)
        env.prove('refine: new label' + tag, Iff(n.is_marked('n'), N2[a]), a)
        env.prove('refine: flags' + tag, Iff(n.is_marked('r'), r2[a]), a)
    if sub: flagged(env, forest, now, R2, 's', nc, ' after refine' + tag)
    if new: flagged(env, forest, now, N2, 'n', nc, ' new' + tag)
    return now, R2, r2, N2

def do_coarsen(env, forest, nodes, nc, sub, ref, new, clean, R, r, N, tag):
    base = R if sub else {a: True for a in nodes}
    L = leaf_f(nodes, base, nc)
    vis = {}; go = {}
    for a in sorted(nodes, key=len):
        vis[a] = And(base[a], True if len(a) == 1 else And(vis[a[:-1]], Not(go[a[:-1]])))
        ks = kids(nodes, a, nc)
        inner = And(vis[a], Or(*[base[k] for k in ks]))
        go[a] = And(inner, r[a]) if ref else And(inner, *[L[k] for k in ks])
    kw = {}
    if sub: kw['subforest_flag'] = 's'
    if ref: kw['coarsening_flag'] = 'r'
    if new: kw['new_label'] = 'n'
    forest.coarsen(clean_up=clean, **kw)
    now = refresh(forest, nc)
    cut = {a: Or(*[go[a[:i]] for i in range(1, len(a))]) for a in nodes}
    gone = {a: (cut[a] if not new and not sub else False) for a in nodes}
    for a in nodes:
        env.prove('coarsen: removes exactly' + tag, Iff(a in now, Not(gone[a])), a)
        if a in now: env.prove('coarsen: same node' + tag, now[a] is nodes[a], a)
    env.prove('coarsen: adds nothing' + tag, all(a in nodes for a in now))
    structure(env, forest, now, nc, ' coarsened' + tag)
    R2 = {a: R[a] for a in now}; N2 = {a: N[a] for a in now}
    if new: N2 = {a: Or(N[a], vis[a]) for a in now}
    elif sub: R2 = {a: And(R[a], Not(cut[a])) for a in now}
    for a, n in now.items():
        env.prove('coarsen: sub-forest' + tag, Iff(n.is_marked('s'), R2[a]), a)
        env.prove('coarsen: new label' + tag, Iff(n.is_marked('n'), N2[a]), a)
        if not ref: env.prove('coarsen: flags' + tag, Iff(n.is_marked('r'), r[a]), a)
        else:
            env.prove('coarsen: flags kept' + tag, Imp(n.is_marked('r'), r[a]), a)
            if clean: env.prove('coarsen: flag cleaned' + tag, Imp(go[a], Not(n.is_marked('r'))), a)
            else: env.prove('coarsen: flag not cleaned' + tag, Iff(n.is_marked('r'), r[a]), a)
    if sub: flagged(env, forest, now, R2, 's', nc, ' after coarsen' + tag)
    r2 = {a: n.is_marked('r') for a, n in now.items()}
    return now, R2, r2, N2

def setup(env, nc, n_trees, depth, sub, ref, split='free', rmax=None):
    forest, nodes = build(env, nc, n_trees, depth, split=split)
    R = rooted_choice(env, nodes, nc, 's') if sub else {a: False for a in nodes}
    r = marks(env, nodes, 'r', 'r', only=rmax and (lambda a: a in rmax)) if ref else {a: False for a in nodes}
    N = {a: False for a in nodes}
    return forest, nodes, R, r, N

def h_refine(env, nc=2, n_trees=1, depth=2, sub=True, ref=True, new=False, clean=True, oldnew=False, split='free'):
    forest, nodes, R, r, N = setup(env, nc, n_trees, depth, sub, ref, split)
    if oldnew: N = marks(env, nodes, 'n', 'n')
    do_refine(env, forest, nodes, nc, sub, ref, new, clean, R, r, N, '')

def h_coarsen(env, nc=2, n_trees=1, depth=2, sub=True, ref=True, new=False, clean=True, split='free'):
    forest, nodes, R, r, N = setup(env, nc, n_trees, depth, sub, ref, split)
    do_coarsen(env, forest, nodes, nc, sub, ref, new, clean, R, r, N, '')

def h_seq(env, ops='rc', nc=2, n_trees=1, depth=1, sub=True, ref=True, new=False):
    forest, nodes, R, r, N = setup(env, nc, n_trees, depth, sub, ref)
    for k, o in enumerate(ops):
        f = do_refine if o == 'r' else do_coarsen
        nodes, R, r, N = f(env, forest, nodes, nc, sub, ref, new and k == 0, True, R, r, N, ' #%d' % k)
        if ref and k + 1 < len(ops):
            extra = {a: env.mark(n, 'r', 'r%d_' % k + '.'.join(map(str, a))) for a, n in nodes.items()}
            r = {a: Or(r[a], extra[a]) for a in nodes}

def h_irregular(env):
    """irregular trees: add_child and split(n)"""
    m = M('mesh')
    root = m.Tree(regular=False)
    forest = m.Forest([root])
    k = env.choice('k', [1, 2, 3])
    if env.is_true(env.bit('add')):
        for _ in range(k): root.add_child()
    else: root.split(k)
    j = env.choice('j', range(k)); l = env.choice('l', [0, 1, 2])
    root.get_child(j).split(l)
    nodes = {(0,): root}
    for i in range(k): nodes[(0, i)] = root.get_child(i)
    for i in range(l): nodes[(0, j, i)] = root.get_child(j).get_child(i)
    for a, n in nodes.items():
        env.prove('address', forest.find_node(list(a)) is n and list(n.get_node_address()) == list(a) and n.get_depth() == len(a) - 1, a)
        env.prove('n_children', n.n_children() == len([b for b in nodes if b[:-1] == a]))
        env.prove('type', n.get_node_type() == ('ROOT' if len(a) == 1 else 'BRANCH' if any(b[:-1] == a for b in nodes) else 'LEAF'), a)
        if len(a) > 1: env.prove('parent', n.get_parent() is nodes[a[:-1]])
    env.prove('dfs', [id(n) for n in forest.traverse()] == [id(nodes[a]) for a in sorted(nodes)])
    env.prove('bfs', [id(n) for n in forest.traverse(mode='breadth-first')] == [id(nodes[a]) for a in sorted(nodes, key=lambda a: (len(a), a))])

def h_forest_children(env, n_trees=3):
    m = M('mesh')
    trees = [m.Tree(2) for _ in range(n_trees)]
    forest = m.Forest(trees)
    b = [env.bit('s%d' % i) for i in range(n_trees)]; o = [env.bit('o%d' % i) for i in range(n_trees)]
    for i in range(n_trees):
        if env.is_true(b[i]): trees[i].mark('s')
        if env.is_true(o[i]): trees[i].mark('o')
    for rev in (False, True):
        for fl in (None, 's'):
            got = forest.get_children(flag=fl, reverse=rev)
            exp = [t for t in (trees[::-1] if rev else trees) if fl is None or t.is_marked(fl)]
            env.prove('get_children(%s,%s)' % (fl, rev), got is not None and list(got) == exp)
    env.prove('has_children(flag)', Iff(bool(forest.has_children(flag='s')), Or(*b)))

def h_plant(env, nc=2, depth=2, n=2, how='list'):
    """trees that are split before they enter a forest, and trees that leave one"""
    m = M('mesh'); rel = []
    roots = [m.Tree(nc) for _ in range(n)]
    for t, r in enumerate(roots):
        d = {}
        def grow(node, addr):
            d[addr] = node
            if len(addr) < depth and env.is_true(env.bit('split%d' % t + '.'.join(map(str, addr)))):
                node.split()
                for i in range(nc): grow(node.get_child(i), addr + (i,))
        grow(r, ()); rel.append(d)
    def loose(t):
        for a, k in rel[t].items():
            env.prove('own tree', list(k.get_node_address()) == list(a) and k.get_depth() == len(a) and k.get_root() is roots[t] and k.find_node(list(a)) is k, (t, a))
            env.prove('own tree children', list(k.get_children()) == [rel[t][a + (i,)] for i in range(nc) if a + (i,) in rel[t]], (t, a))
        env.prove('not in a forest', not roots[t].in_forest())
    def check(forest, order, tag):
        nodes = {(i,) + a: k for i, t in enumerate(order) for a, k in rel[t].items()}
        env.prove('trees' + tag, forest.n_children() == len(order) and list(forest.get_children()) == [roots[t] for t in order] and
                  all(roots[t].in_forest() and roots[t].get_node_position() == i for i, t in enumerate(order)))
        structure(env, forest, nodes, nc, tag)
    for t in range(n): loose(t)
    if how == 'list': forest = m.Forest(list(roots))
    else:
        forest = m.Forest()
        for t, r in enumerate(roots):
            forest.add_tree(r); check(forest, list(range(t + 1)), ' added'); [loose(s) for s in range(t + 1, n)]
    order = list(range(n)); check(forest, order, ' planted')
    i = env.choice('removed', range(n)); forest.remove_tree(i)
    order.pop(i); loose(i)
    if order: check(forest, order, ' removed')
    else: env.prove('empty', forest.n_children() == 0 and not forest.has_children())
    if env.is_true(env.bit('back')): forest.add_tree(roots[i]); check(forest, order + [i], ' back')

def tasks(tier):
    th = tier == 'thorough'
    T = [('h_contained', dict(nc=2, n_trees=1, depth=2)), ('h_structure', dict(nc=2, n_trees=2, depth=2)), ('h_structure', dict(nc=4, n_trees=1, depth=2)), ('h_irregular', {}), ('h_any_flag', dict(n=2)), ('h_any_flag', dict(nc=2, n=2, trees=True)), ('h_any_flag', dict(nc=4, n=1, trees=True)), ('h_delete_some', dict(nc=2)), ('h_delete_some', dict(nc=4, depth=1)), ('h_forest_children', {})]
    T += [('h_plant', dict(nc=2, depth=2, n=2, how=h)) for h in ('list', 'add')] + [('h_plant', dict(nc=4, depth=1, n=3 if th else 2, how='list')), ('h_plant', dict(nc=2, depth=1, n=3, how='add'))]
    T += [('h_root', dict(nc=2, n_trees=1, depth=2)), ('h_root', dict(nc=2, n_trees=2, depth=1)), ('h_root', dict(nc=4, n_trees=1, depth=1))]
    for op in ('make', 'query', 'mark', 'mark-rec', 'mark-up', 'unmark', 'unmark-rec', 'unmark-up', 'unmark-all', 'record', 'delete'):
        T.append(('h_tree_flags', dict(nc=2, depth=2, op=op)))
    for sub in (False, True):
        for ref in (False, True):
            for new in (False, True):
                for clean in ((True, False) if ref else (True,)):
                    o = dict(sub=sub, ref=ref, new=new, clean=clean)
                    for h in ('h_refine', 'h_coarsen'):
                        T.append((h, dict(nc=2, n_trees=1, depth=2, **o)))
                        T.append((h, dict(nc=2, n_trees=2, depth=1, **o)))
                        T.append((h, dict(nc=4, n_trees=1, depth=1, **o)))
                        if th: T.append((h, dict(nc=2, n_trees=2, depth=2, **o)))
    T.append(('h_refine', dict(nc=2, n_trees=1, depth=2, sub=True, ref=False, new=True, clean=True, oldnew=True)))
    for ops in ('rr', 'rc', 'cr', 'cc'):
        for sub in (False, True):
            for ref in (False, True):
                T.append(('h_seq', dict(ops=ops, nc=2, depth=1, sub=sub, ref=ref)))
                if th: T.append(('h_seq', dict(ops=ops, nc=2, depth=2, sub=sub, ref=ref))); T.append(('h_seq', dict(ops=ops + 'r', nc=2, depth=1, sub=sub, ref=ref)))
    return T
