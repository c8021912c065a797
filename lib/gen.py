"""Instance generators (inputs only; nothing here knows the expected results)."""

INITS = ["none", "forgy", "random", "kmeanspp"]


def scale(rnd, usual, safe=True):
    """Rows are passed divided by this; now and then by a power of two far from 1 (exact, and changes no comparison)."""
    return rnd.choice([2.0 ** -140, 2.0 ** -70, 2.0 ** 70, 2.0 ** 140]) if safe and rnd.random() < 0.06 else rnd.choice(usual)



def points(rnd, n, d, style):
    if style == "tiny":                       # many ties, duplicates, empty clusters
        R = rnd.choice([1, 2, 3])
        return [[rnd.randint(-R, R) for _ in range(d)] for _ in range(n)]
    if style == "wide":
        R = rnd.choice([20, 40, 60])
        return [[rnd.randint(-R, R) for _ in range(d)] for _ in range(n)]
    if style == "blobs":
        c = [[rnd.randint(-40, 40) for _ in range(d)] for _ in range(rnd.randint(2, 5))]
        return [[x + rnd.randint(-8, 8) for x in rnd.choice(c)] for _ in range(n)]
    if style == "line":                       # geometric gaps: centres travel far
        xs, x, g = [], -60, 1
        for _ in range(n):
            xs.append(min(60, x))
            x += rnd.choice([1, 1, 2, 3, g])
            g = min(12, g + 1)
        rnd.shuffle(xs)
        return [[v] + [rnd.randint(-2, 2) for _ in range(d - 1)] for v in xs]
    if style == "dups":
        m = rnd.randint(1, max(1, n // 3))
        base = [[rnd.randint(-9, 9) for _ in range(d)] for _ in range(m)]
        return [list(rnd.choice(base)) for _ in range(n)]
    raise ValueError(style)


STYLES = ["tiny", "wide", "blobs", "line", "dups"]


def start_centers(rnd, data, k, d):
    how = rnd.choice(["rows", "clump", "far", "any"])
    if how == "rows":
        return [list(rnd.choice(data)) for _ in range(k)]
    if how == "clump":                        # all near one corner: long runs, centres move a lot
        b = rnd.choice(data)
        return [[x + rnd.randint(-2, 2) for x in b] for _ in range(k)]
    if how == "far":                          # some never get a row
        return [[rnd.choice([-64, 64, x]) for x in rnd.choice(data)] for _ in range(k)]
    return [[rnd.randint(-60, 60) for _ in range(d)] for _ in range(k)]


def exact_job(rnd, jid, engine, style=None, init=None, T=None, tol=None, nmax=40, place="mem", moved=True):
    style = style or rnd.choice(STYLES)
    moved = moved and rnd.random() < 0.05
    if moved:
        style, nmax = rnd.choice(["tiny", "dups", "tiny", "dups", style]), min(nmax, 12)
    d = rnd.choice([1, 1, 2, 2, 3])
    n = rnd.randint(3, nmax) if rnd.random() < 0.85 else rnd.randint(3, 6)
    k = rnd.randint(2, min(7, n)) if rnd.random() < 0.9 else n if n <= 8 else 2
    data = points(rnd, n, d, style)
    init = init or rnd.choice(INITS + ["none", "none"])
    j = dict(id=str(jid), engine=engine, n=n, d=d, k=k, T=T or rnd.choice([1, 2, 3, 4, 5, 7, 8, n + 2]),
             init=init, tol=rnd.choice([-1, -1, -1, 0.25, 0.125, 0.1, 0.0, 0.5]) if tol is None else tol,
             data=data, scale=scale(rnd, [1, 1, 4, 10, 1000, 0.125]), place=place)
    if moved:                                # far from the origin: only differences of coordinates may matter
        j.update(off=rnd.choice([2 ** 12, 2 ** 20, -2 ** 20, 2 ** 26, -2 ** 26]), scale=rnd.choice([1, 1, 4]))
    if init == "none":
        j["centers"] = start_centers(rnd, data, k, d)
        if moved and rnd.random() < 0.7:
            j["centers"] = [list(c) for c in rnd.sample(data, k)]
    return j


def big_job(rnd, jid, engine, n=None, T=None, tol=-1, d=2, place="mem"):
    """Many rows that repeat few points: more than one task per thread, exact arithmetic still small."""
    n = n or rnd.choice([8191, 8192, 8193, 8194, 16383, 16384, 16385, 16386, 20011, 24577])
    m = rnd.randint(5, 9)
    pts = []
    while len(pts) < m:
        p = [rnd.randint(-20, 20) for _ in range(d)]
        if p not in pts:
            pts.append(p)
    k = rnd.randint(2, 4)
    M = n // m
    rep = [i for i in range(m) for _ in range(M)]
    far = [60] * d
    r = n - M * m
    pts.append(far)
    rep += [m] * r
    how = rnd.choice(["shuffle", "sorted", "reversed", "tail"])
    if how == "shuffle":
        rnd.shuffle(rep)
    elif how == "reversed":
        rep.reverse()
    elif how == "tail":          # one point only in the last rows
        rep = [x for x in rep if x != 0] + [0] * M
    cen = [list(rnd.choice(pts[:m])) for _ in range(k)]
    if rnd.random() < 0.5:
        cen = [[x + rnd.randint(-3, 3) for x in c] for c in cen]
    cen.append(far)
    return dict(id=str(jid), engine=engine, n=n, d=d, k=k + 1, T=T or rnd.choice([1, 1, 2, 2, 3, 4]),
                init="none", tol=tol, pts=pts, rep=rep, centers=cen, scale=scale(rnd, [1, 4]), place=place)


def cos_job(rnd, jid, engine):
    d = rnd.choice([2, 2, 3])
    n = rnd.randint(3, 9)
    k = rnd.randint(2, min(3, n))
    hi = 5 if d == 2 else 3
    if rnd.random() < 0.05:
        d, n, hi = rnd.choice([4, 5, 7, 8, 9, 12, 16, 17]), rnd.randint(4, 24), 1
        k = rnd.randint(2, min(6, n))
    lo = 0 if d > 3 and rnd.random() < 0.5 else rnd.choice([1, -hi, -hi]) if d <= 3 else -1       # with negative coordinates rows may point away from a centre

    def vec():
        v = [0] * d
        while not any(v):
            v = [rnd.randint(lo, hi) for _ in range(d)]
        return v
    data = [vec() for _ in range(n)]
    j = dict(id=str(jid), engine=engine, n=n, d=d, k=k, T=rnd.choice([1, 2, 3, 4]), dist="cos",
             init=rnd.choice(["none", "forgy", "random"]), tol=rnd.choice([-1, 0.25]), data=data,
             scale=scale(rnd, [1, 4, 10]))
    if j["init"] == "none":
        j["centers"] = [vec() for _ in range(k)]
    return j


def wide_job(rnd, jid, engine, init=None, place=None):
    """Many features, centres or rows (moderate n); coordinates small so that the exact arithmetic fits."""
    how = rnd.choice(["d", "k", "n", "dk", "mid"])
    d = rnd.choice([4, 7, 8, 9, 12, 16, 17, 24, 32, 33, 50]) if "d" in how and how != "mid" else rnd.choice([1, 2, 3, 5])
    k = rnd.choice([8, 9, 10, 12, 15, 16, 17, 20, 24, 32, 33, 40]) if "k" in how else rnd.randint(2, 6)
    if d * k > 600:
        k = max(2, 600 // d)
    n = {"n": rnd.randint(60, 200), "mid": rnd.choice([100, 128, 129, 256, 257, 400])}.get(how) or rnd.randint(k, k + 40)
    R = rnd.choice([1, 2, 3, 6]) if d > 8 or n > 100 else rnd.choice([2, 6, 12])
    data = [[rnd.randint(-R, R) for _ in range(d)] for _ in range(n)]
    if rnd.random() < 0.4:                   # informative features last / first only
        z = rnd.randrange(d)
        cut = rnd.choice([range(0, z), range(z + 1, d)])
        for p in data:
            for c in cut:
                p[c] = R
    if how in ("n", "mid") and rnd.random() < 0.7:      # few different rows: clusters of many rows stay comparable
        base = data[:rnd.randint(k, k + 6)]
        data = [list(rnd.choice(base)) for _ in range(n)]
    init = init or rnd.choice(INITS + ["none", "none"])
    j = dict(id=str(jid), engine=engine, n=n, d=d, k=min(k, n), T=rnd.choice([1, 2, 3, 4, 5, 8, 9, 16, 17, 31]), init=init,
             tol=rnd.choice([-1, -1, -1, 0.1, 0.25]), data=data, scale=scale(rnd, [1, 4, 10]), place=place or "mem")
    if init == "none":
        j["centers"] = start_centers(rnd, data, j["k"], d) if R > 3 else [list(rnd.choice(data)) for _ in range(j["k"])]
        if R <= 3 and rnd.random() < 0.6:
            j["centers"] = [[x + rnd.choice([0, 0, 0, 1, -1]) for x in c] for c in j["centers"]]
    return j
