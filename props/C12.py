"""C12: rooted level structures are breadth-first layers for every graph."""
from itertools import combinations
from pyvc.harness import case

class Adj:
    """a compressed-row adjacency matrix as the algorithms use it"""
    def __init__(self, np, n, rows):
        self.np, self.n, self.rows = np, n, rows
        self.indptr = np.zeros(n + 1, dtype=int)
    def irow(self, i):
        return self.np.array(self.rows[int(i)], dtype=int)

def graph(V, n, p=None):
    """edges of an arbitrary undirected graph on n nodes"""
    E = set()
    for i, j in combinations(range(n), 2):
        if V.proof:
            if V.choice("edge %d-%d" % (i, j), [False, True]):
                E.add((i, j))
        elif V.rng.random() < p:
            E.add((i, j))
    return E

def rows_of(n, E):
    rows = [set() for _ in range(n)]
    for i, j in E:
        rows[i].add(j)
        rows[j].add(i)
    return [sorted(r) for r in rows]

def distances(rows, root):
    """specification: the least number of edges"""
    d = {root: 0}
    k = 0
    while True:
        new = {j for i, e in d.items() if e == k for j in rows[i]} - set(d)
        if not new:
            return d
        k += 1
        d.update({j: k for j in new})

def library(V, n, rows, np):
    """the adjacency matrix in the library's format (proof: by its contract)"""
    if V.proof:
        return Adj(np, n, rows)
    A = np.zeros((n, n))
    for i, r in enumerate(rows):
        for j in r:
            A[i, j] = 1
    import scipy.sparse
    S = scipy.sparse.csr_matrix(A)
    how = V.choice("format", ["scipy", "raw"])
    csr = V.lib("linalg.sparse").csr_matrix
    if how == "scipy":
        return csr(S)
    return csr(S.data, S.indices, S.indptr, shape=S.shape)

def check_levels(V, rls, rows, root, n):
    d = distances(rows, root)
    V.true(sorted(int(k) for k in rls) == list(range(max(d.values()) + 1)), "one level per distance, none of them empty")
    for k in range(max(d.values()) + 1):
        V.true([int(x) for x in rls[k]] == sorted(j for j, e in d.items() if e == k), "level k holds exactly the nodes at distance k in increasing order")

def check_peripheral(V, res, rows, n):
    res = [int(x) for x in res]
    V.true(len(res) >= 2, "a root and the nodes farthest from it")
    r, far = res[-1], res[:-1]
    V.true(0 <= r < n, "the last entry is a node")
    d, d0 = distances(rows, r), distances(rows, 0)
    V.true(r in d0, "a node of the component searched")
    m = max(d.values())
    V.true(far == sorted(j for j, e in d.items() if e == m), "the other entries are exactly the nodes at maximal distance from it")
    V.true(m >= max(d0.values()), "that distance is no smaller than that from node zero")

@case("level structures of all small graphs", level="bounded", reps=150, paths=40000, budget=120, note="every graph of up to four nodes and every root")
def levels(V):
    np = V.np
    if V.proof:
        n = V.choice("n", [1, 2, 3, 4])
        rows = rows_of(n, graph(V, n))
    else:
        n = V.dim("n", 1, V.rng.choice([3, 6, 12, 25]))
        rows = rows_of(n, graph(V, n, V.rng.choice([0.03, 0.1, 0.25, 0.5, 0.9])))
        if V.rng.random() < 0.2:
            k = V.rng.randrange(n)
            rows[k] = sorted(set(rows[k]) | {k})
        V.used["rows"] = rows
    root = V.choice("root", list(range(n)))
    adj = library(V, n, rows, np)
    rls = V.lib("graph.utils").rooted_level_structure(adj, root)
    check_levels(V, rls, rows, root, n)
    if root == 0:
        check_levels(V, V.lib("graph.utils").rooted_level_structure(adj), rows, 0, n)

@case("pseudo-peripheral nodes of all small graphs", level="bounded", reps=150, paths=40000, budget=120, note="every graph of up to four nodes")
def peripheral(V):
    np = V.np
    if V.proof:
        n = V.choice("n", [1, 2, 3, 4])
        rows = rows_of(n, graph(V, n))
    else:
        n = V.dim("n", 1, V.rng.choice([3, 6, 12, 25]))
        rows = rows_of(n, graph(V, n, V.rng.choice([0.03, 0.1, 0.25, 0.5, 0.9])))
        V.used["rows"] = rows
    check_peripheral(V, V.lib("graph.utils").pseudo_peripheral_nodes(library(V, n, rows, np)), rows, n)

@case("graph objects: the same through the Graph class", proof=False, reps=120)
def graphs(V):
    n = V.dim("n", 1, V.rng.choice([2, 5, 9, 20]))
    kind = V.choice("kind", ["random", "path", "cycle", "star", "tree", "two parts", "complete"])
    E = graph(V, n, V.rng.choice([0.1, 0.3, 0.6]))
    if kind == "path":
        E = {(i, i + 1) for i in range(n - 1)}
    elif kind == "cycle" and n > 2:
        E = {(i, i + 1) for i in range(n - 1)} | {(0, n - 1)}
    elif kind == "star":
        c = V.rng.randrange(n)
        E = {(min(i, c), max(i, c)) for i in range(n) if i != c}
    elif kind == "tree":
        E = {(V.rng.randrange(i), i) for i in range(1, n)}
    elif kind == "two parts":
        E = {(i, j) for i, j in combinations(range(n), 2) if i % 2 == j % 2 and V.rng.random() < 0.5}
    elif kind == "complete":
        E = set(combinations(range(n), 2))
    p = list(range(n))
    V.rng.shuffle(p)
    E = {(min(p[i], p[j]), max(p[i], p[j])) for i, j in E}
    V.used["edges"] = sorted(E)
    rows = rows_of(n, E)
    G = V.lib("graph").Graph()
    G.add_nodes_from(range(n))
    e = list(E)
    V.rng.shuffle(e)
    G.add_edges_from(e)
    root = V.choice("root", list(range(n)))
    check_levels(V, G.rooted_level_structure(root), rows, root, n)
    check_levels(V, G.rooted_level_structure(), rows, 0, n)
    check_peripheral(V, G.pseudo_peripheral_nodes(), rows, n)
    A = G.adjacency_matrix()
    B = G.adjacency_matrix(to_csr=True)
    V.eq(V.np.asarray(A.todense()), B.to_numpy() if hasattr(B, "to_numpy") else B.to_scipy().toarray(), "adjacency matrix")

@case("every graph of five nodes on the compiled library", proof=False, reps=1024, level="bounded", note="exhaustive in the thorough run, a sample otherwise", thorough_only=False)
def exhaustive(V):
    pairs = list(combinations(range(5), 2))
    k = V.rep % 1024 if V.tier == "thorough" else V.rng.randrange(1024)
    V.used["graph"] = k
    rows = rows_of(5, {e for b, e in enumerate(pairs) if k >> b & 1})
    adj = library(V, 5, rows, V.np)
    for root in range(5):
        check_levels(V, V.lib("graph.utils").rooted_level_structure(adj, root), rows, root, 5)
    check_peripheral(V, V.lib("graph.utils").pseudo_peripheral_nodes(adj), rows, 5)
