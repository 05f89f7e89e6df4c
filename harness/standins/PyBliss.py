"""A small replacement of PyBliss (not available here) for the interface pymnet uses.

Canonical labelings by individualisation and refinement without pruning; exact, and fast
enough for the small graphs of the checks.
"""


class Graph(object):
    def __init__(self):
        self._color = {}
        self._adj = {}

    def add_vertex(self, v, color=0):
        assert v not in self._color
        self._color[v] = color
        self._adj[v] = set()

    def add_edge(self, v1, v2):
        for v in (v1, v2):
            if v not in self._color:
                self.add_vertex(v)
        self._adj[v1].add(v2)
        self._adj[v2].add(v1)

    def get_vertices(self):
        return list(self._color)

    def nof_vertices(self):
        return len(self._color)

    # -- refinement of ordered partitions (vertex -> rank)
    def _refine(self, rank):
        n = len(set(rank.values()))
        while True:
            key = {v: (rank[v], tuple(sorted(rank[u] for u in self._adj[v]))) for v in rank}
            order = {k: i for i, k in enumerate(sorted(set(key.values())))}
            rank = {v: order[key[v]] for v in rank}
            if len(order) == n:
                return rank
            n = len(order)

    def _leaves(self):
        """all discrete partitions of the search tree: vertex -> position"""
        def go(rank):
            rank = self._refine(rank)
            cells = {}
            for v, r in rank.items():
                cells.setdefault(r, []).append(v)
            open_cells = [r for r in sorted(cells) if len(cells[r]) > 1]
            if not open_cells:
                yield rank
                return
            r = open_cells[0]
            for v in cells[r]:
                nxt = {u: 2 * x for u, x in rank.items()}
                nxt[v] -= 1
                for leaf in go(nxt):
                    yield leaf
        order = {c: i for i, c in enumerate(sorted(set(self._color.values())))}
        return go({v: order[c] for v, c in self._color.items()})

    def _form(self, lab):
        inv = {p: v for v, p in lab.items()}
        return (tuple(self._color[inv[p]] for p in range(len(lab))),
                tuple(sorted((lab[u], lab[v]) for u in self._adj for v in self._adj[u] if lab[u] <= lab[v])))

    def canonical_labeling(self):
        best = None
        for lab in self._leaves():
            f = self._form(lab)
            if best is None or f < best[0]:
                best = (f, lab)
        return best[1] if best is not None else {}

    def relabel(self, lab):
        g = Graph()
        for v in sorted(self._color, key=lambda x: lab[x]):
            g.add_vertex(lab[v], self._color[v])
        for u in self._adj:
            for v in self._adj[u]:
                g.add_edge(lab[u], lab[v])
        return g

    def get_isomorphism(self, other):
        if sorted(self._color.values()) != sorted(other._color.values()):
            return None
        a, b = self.canonical_labeling(), other.canonical_labeling()
        if self._form(a) != other._form(b):
            return None
        inv = {p: v for v, p in b.items()}
        return {v: inv[p] for v, p in a.items()}

    def find_automorphisms(self, report_function, report_function_arg=None):
        vs = list(self._color)
        first, group = None, set()
        ident = tuple(vs)
        group = {ident}
        gens = []
        for lab in self._leaves():
            f = self._form(lab)
            if first is None:
                first = (f, lab)
                continue
            if f != first[0]:
                continue
            inv = {p: v for v, p in lab.items()}
            perm = {v: inv[first[1][v]] for v in vs}
            if tuple(perm[v] for v in vs) in group:
                continue
            gens.append(perm)
            todo = list(group)
            group = set(group)
            while todo:
                g = todo.pop()
                for q in gens:
                    h = tuple(q[x] for x in g)
                    if h not in group:
                        group.add(h)
                        todo.append(h)
            report_function(perm, report_function_arg)

    def __str__(self):
        return "".join("v %s %s\n" % (v, self._color[v]) for v in sorted(self._color)) + \
            "".join("e %s %s\n" % (u, v) for u in sorted(self._adj) for v in sorted(self._adj[u]) if u <= v)
