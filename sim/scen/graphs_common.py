"""Graph generation, construction and reference algorithms."""


def gen_graph(rng, nmax=8, directed=None, weighted=True, dag=False, connected=False,
              neg=False, wmax=9, uniq=False, dens=None):
    n = rng.randrange(1, nmax + 1)
    form = rng.choice(["%s%d", "%s%d", "%s%d", "%s_%d"])
    names = [form % (rng.choice("abxyzq"), i) for i in range(n)]
    rng.shuffle(names)
    dens = rng.choice(dens or [0.1, 0.25, 0.4, 0.7, 1.0])
    shape = rng.choice(["random", "random", "random", "path", "star", "cycle", "two", "layers"])
    edges = []
    directed = rng.random() < .5 if directed is None else directed
    pairs = []
    if shape == "path":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif shape == "star":
        pairs = [(0, i) for i in range(1, n)]
    elif shape == "cycle" and n > 2:
        pairs = [(i, (i + 1) % n) for i in range(n)]
        if dag:
            pairs = pairs[:-1]
    elif shape == "layers":
        k = rng.choice([2, 3])
        pairs = [(i, j) for i in range(n) for j in range(n)
                 if j // k == i // k + 1 and rng.random() < .8]
    elif shape == "two":
        h = n // 2
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)
                 if (i < h) == (j < h) and rng.random() < dens]
    else:
        pairs = [(i, j) for i in range(n) for j in range(n)
                 if (i < j or (directed and not dag and i != j)) and rng.random() < dens]
    if connected:
        pairs = sorted(set(pairs) | set((rng.randrange(i), i) for i in range(1, n)))
    rng.shuffle(pairs)
    seen = set()
    ws = list(range(1, 200))
    rng.shuffle(ws)
    small = rng.choice([2, wmax, 50])
    for i, j in pairs:
        if (i, j) in seen or (not directed and (j, i) in seen):
            continue
        seen.add((i, j))
        w = ws.pop() if uniq else rng.randrange(1, small + 1)
        if neg and rng.random() < .25:
            w = -rng.randrange(1, 4)
        edges.append([i, j, w])
    return {"names": names, "edges": edges, "directed": directed}


def ok_graph(g):
    n = len(g["names"])
    return n > 0 and len(set(g["names"])) == n and all(
        len(e) == 3 and 0 <= e[0] < n and 0 <= e[1] < n for e in g["edges"]) and \
        len(set((e[0], e[1]) for e in g["edges"])) == len(g["edges"])


def adjacency(g):
    adj = {v: [] for v in g["names"]}
    for i, j, w in g["edges"]:
        u, v = g["names"][i], g["names"][j]
        if v not in adj[u]:
            adj[u].append(v)
        if not g["directed"] and u not in adj[v]:
            adj[v].append(u)
    return adj


def weights(g):
    wt = {}
    for i, j, w in g["edges"]:
        u, v = g["names"][i], g["names"][j]
        wt[u, v] = w
        if not g["directed"]:
            wt[v, u] = w
    return wt


def build_graph(g, impl, weighted=True, backend=None, data=False):
    from pydatastructs import Graph, AdjacencyListGraphNode, AdjacencyMatrixGraphNode
    cls = AdjacencyListGraphNode if impl == "adjacency_list" else AdjacencyMatrixGraphNode
    kw = {"backend": backend} if backend is not None else {}
    nodes = [cls(nm, "data of " + nm if data else None, **kw) for nm in g["names"]]
    G = Graph(*nodes, implementation=impl, **kw)
    for i, j, w in g["edges"]:
        u, v = g["names"][i], g["names"][j]
        if weighted:
            G.add_edge(u, v, w)
            if not g["directed"] and i != j:
                G.add_edge(v, u, w)
        else:
            G.add_edge(u, v)
            if not g["directed"] and i != j:
                G.add_edge(v, u)
    return G


def churn(G, g, how, weighted=True, data=False):
    """A history that leaves the graph as it was: edges and vertices come and go."""
    from pydatastructs import AdjacencyListGraphNode
    cpp = not hasattr(G, "edge_weights")
    und = not g["directed"]
    for k, i in how:
        if k == "vertex" and G._impl == "adjacency_list":
            kw = {}
            if cpp:
                from pydatastructs.utils.misc_util import Backend
                kw["backend"] = Backend.CPP
            nm, other = "tmp%d" % i, g["names"][i % len(g["names"])]
            G.add_vertex(AdjacencyListGraphNode(nm, **kw))
            for u, v in ((nm, other), (other, nm)):
                G.add_edge(u, v, 1) if weighted else G.add_edge(u, v)
            G.remove_vertex(nm)
        elif k == "again" and G._impl == "adjacency_list" and len(g["names"]) > 1:
            # a vertex and its edges come again; the first one stays the first
            kw = {}
            if cpp:
                from pydatastructs.utils.misc_util import Backend
                kw["backend"] = Backend.CPP
            a = 1 + i % (len(g["names"]) - 1)
            nm = g["names"][a]
            G.remove_vertex(nm)
            G.add_vertex(AdjacencyListGraphNode(nm, "data of " + nm if data else None, **kw))
            for s, t, w in g["edges"]:
                if a in (s, t):
                    u, v = g["names"][s], g["names"][t]
                    for x, y in ((u, v), (v, u))[:1 + (und and s != t)]:
                        G.add_edge(x, y, w) if weighted else G.add_edge(x, y)
        elif k == "ghost":
            # an edge the graph is not to have
            n = len(g["names"])
            u, v = g["names"][i % n], g["names"][i * 7 // 3 % n]
            if u != v and not G.is_adjacent(u, v) and not (und and G.is_adjacent(v, u)):
                for x, y in ((u, v), (v, u))[:1 + und]:
                    G.add_edge(x, y, 1) if weighted else G.add_edge(x, y)
                for x, y in ((u, v), (v, u))[:1 + und]:
                    G.remove_edge(x, y)
        elif k == "edge" and g["edges"]:
            a, b, w = g["edges"][i % len(g["edges"])]
            u, v = g["names"][a], g["names"][b]
            for x, y in ((u, v), (v, u))[:1 + (und and a != b)]:
                G.remove_edge(x, y)
            for x, y in ((u, v), (v, u))[:1 + (und and a != b)]:
                G.add_edge(x, y, w) if weighted else G.add_edge(x, y)


def cpp_snapshot(G, names):
    """Everything a caller can see of a C++ graph."""
    vs = sorted(names)
    edges = []
    for u in vs:
        for v in vs:
            if G.is_adjacent(u, v):
                e = G.get_edge(u, v)
                edges.append((u, v, None if e is None else e.value))
    return G.num_vertices(), G.num_edges(), \
        {u: sorted(x.name for x in G.neighbors(u)) for u in vs}, edges


def snapshot(G):
    """Everything a caller can see of a Python-backed graph."""
    vs = sorted(G.vertices)
    return (vs, {v: sorted(x.name for x in G.neighbors(v)) for v in vs},
            sorted((k, e.source.name, e.target.name, e.value)
                   for k, e in G.edge_weights.items()), [getattr(G, v).data for v in vs])


def change_tree(T):
    """Change a spanning tree in every way a caller can; the graph it is of must not notice."""
    for k in sorted(T.edge_weights):
        T.edge_weights[k].value = -77
    for v in sorted(T.vertices):
        getattr(T, v).data = "changed"
    pairs = sorted((e.source.name, e.target.name) for e in T.edge_weights.values())
    for u, v in pairs[:2]:
        T.remove_edge(u, v)
    for u, v in pairs[2:4]:
        T.add_edge(u, v, 78)
    if T._impl == "adjacency_list":
        for v in sorted(T.vertices)[:2]:
            T.remove_vertex(v)


def depths(adj, s):
    d = {s: 0}
    q = [s]
    while q:
        nq = []
        for u in q:
            for v in adj[u]:
                if v not in d:
                    d[v] = d[u] + 1
                    nq.append(v)
        q = nq
    return d


class UF(object):
    def __init__(self, xs):
        self.p = {x: x for x in xs}

    def find(self, x):
        while self.p[x] != x:
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.p[a] = b
        return True


def mst_weight(names, und):
    """(weight, number of edges) of a minimum spanning forest; und = {(u,v): w}."""
    uf = UF(names)
    tot = cnt = 0
    for w, u, v in sorted((w, u, v) for (u, v), w in und.items()):
        if uf.union(u, v):
            tot += w
            cnt += 1
    return tot, cnt


def component(adj, s):
    seen = {s}
    st = [s]
    while st:
        u = st.pop()
        for v in adj[u]:
            if v not in seen:
                seen.add(v)
                st.append(v)
    return seen


def has_cycle(adj):
    state = {}
    for r in adj:
        if r in state:
            continue
        st = [(r, iter(adj[r]))]
        state[r] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if state.get(v) == 1:
                    return True
                if v not in state:
                    state[v] = 1
                    st.append((v, iter(adj[v])))
                    break
            else:
                state[u] = 2
                st.pop()
    return False
