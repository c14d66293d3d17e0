"""Stand-in for networkx: undirected graphs and maximal cliques."""
import numpy as np


class Graph:
    def __init__(self, incoming=None):
        self.adj = {}
        if incoming is None:
            return
        if isinstance(incoming, np.ndarray):
            m = np.asarray(incoming)
            for i in range(m.shape[0]):
                self.add_node(i)
            for i, j in zip(*np.nonzero(m)):
                self.add_edge(int(i), int(j))
        elif isinstance(incoming, dict):
            for k, v in incoming.items():
                self.add_node(k)
                for w in v:
                    self.add_edge(k, w)
        elif isinstance(incoming, Graph):
            self.adj = {k: dict(v) for k, v in incoming.adj.items()}
        else:
            for e in incoming:
                self.add_edge(*e[:2])

    def add_node(self, n, **k):
        self.adj.setdefault(n, {})

    def add_nodes_from(self, ns, **k):
        for n in ns:
            self.add_node(n)

    def add_edge(self, a, b, **k):
        self.add_node(a)
        self.add_node(b)
        self.adj[a][b] = k
        self.adj[b][a] = k

    def add_edges_from(self, es, **k):
        for e in es:
            self.add_edge(*e[:2])

    def nodes(self):
        return list(self.adj)

    def edges(self):
        return [(a, b) for a in self.adj for b in self.adj[a] if repr(a) <= repr(b)]

    def neighbors(self, n):
        return iter(self.adj[n])

    def __iter__(self):
        return iter(self.adj)

    def __len__(self):
        return len(self.adj)

    def __getitem__(self, n):
        return self.adj[n]

    def has_edge(self, a, b):
        return a in self.adj and b in self.adj[a]


def from_numpy_array(m, **k):
    return Graph(np.asarray(m))


from_numpy_matrix = from_numpy_array


def find_cliques(G):
    adj = {u: {v for v in G.adj[u] if v != u} for u in G.adj}

    def bk(r, p, x):
        if not p and not x:
            yield list(r)
            return
        u = max(p | x, key=lambda q: len(adj[q] & p))
        for v in sorted(p - adj[u], key=repr):
            for c in bk(r + [v], p & adj[v], x & adj[v]):
                yield c
            p = p - {v}
            x = x | {v}
    if adj:
        for c in bk([], set(adj), set()):
            yield c


def connected_components(G):
    seen = set()
    for s in G.adj:
        if s in seen:
            continue
        comp, st = set(), [s]
        while st:
            u = st.pop()
            if u in comp:
                continue
            comp.add(u)
            st += list(G.adj[u])
        seen |= comp
        yield comp
