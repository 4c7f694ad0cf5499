"""Graph helpers."""


def sccs(edges):
    """strongly connected components (iterative Tarjan) of {node: iterable of nodes}"""
    index, low, onst, st, out = {}, {}, set(), [], []
    for root in list(edges):
        if root in index:
            continue
        work = [(root, iter(edges.get(root, ())))]
        index[root] = low[root] = len(index)
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(edges.get(w, ()))))
                    break
                if w in onst:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out
