"""C04: search of the maxima of a posterior."""
from vc.spec import *
from vc.contract import VCtx
from specs import c05

FILES = ["extremum/extremum.cpp", "/verif/specs/tu/ranges.cpp"]
HARNESS = "c04"
RULE = "random, stepped and plateau-rich curves of 3..60 samples; maxima recomputed by run-length scan"
ASSUMPTIONS = ["values are numbers inside the searched interval (values that are not numbers at its ends are skipped)",
               "positions are greater than -1 and increasing, the separation lies between 0 and 1 (callers' obligation)"]
Q = "NSEpic::CExtremum::"


def idx(o):
    return o.get("m_sortedIndexes")


def ranked(ix, y):
    """ix lists every index of y once, by decreasing value"""
    n = y.n
    return [("one index per value", ix.n == n),
            ("indexes of the values", forall(iv(0), n, lambda k: AND(0 <= sel(ix.el, k), sel(ix.el, k) < n))),
            ("no index twice", forall2(iv(0), n, lambda i, j: sel(ix.el, i) != sel(ix.el, j))),
            ("decreasing values", forall2(iv(0), n, lambda i, j: at(y, sel(ix.el, i)) >= at(y, sel(ix.el, j))))]


def px(r, k):
    return sel(r.el, k).get("X").r


def py(r, k):
    return sel(r.el, k).get("Y").r


def sgn(c):
    return c.this.get("m_SignSearch").r


def maxn(c):
    return c.this.get("m_MaxPeakCount")


def peaks_pre(c):
    x, y = c.a(0), c.a(1)
    return [("one value per position", x.n == y.n), ("requested number", maxn(c) >= 0)] + ranked(idx(c.this), y)


def trunc_post(c):
    x, y, r = c.a(0), c.a(1), c.ret
    ix = idx(c.this)
    return [("as many as requested", r.n == IF(x.n < maxn(c), x.n, maxn(c))),
            ("the highest, in order", forall(iv(0), r.n, lambda k: AND(px(r, k) == at(x, sel(ix.el, k)), py(r, k) == sgn(c) * at(y, sel(ix.el, k)))))]


def trunc_loops(c, lc):
    if lc.i is None:
        return []
    x, y = c.a(0), c.a(1)
    ix = idx(c.this)
    return [("points", forall(iv(0), h.n, lambda k: AND(px(h, k) == at(x, sel(ix.el, k)), py(h, k) == sgn(c) * at(y, sel(ix.el, k)))))
            for h, e in lc.vecs() if isinstance(sel(h.el, iv(0)), StructV) and "SPoint" in sel(h.el, iv(0)).ty.p]


def isx(v):
    x = sel(v.el, iv(0))
    return isinstance(x, StructV) and "SPoint" in x.ty.p


S_ANY = z3.Int("s_any")


def sep(c):
    return c.this.get("m_extrema_separation").r


def wlow(c, x):
    return x - (x + 1) * sep(c) / (1 + sep(c) / 2)


def whigh(c, x):
    return x + (x + 1) * sep(c) / (1 - sep(c) / 2)


def apart(c, x, kept):
    """x lies outside the exclusion window of kept"""
    return OR(x < wlow(c, kept), x > whigh(c, kept))


def fo_pre(c):
    x = c.a(0)
    return peaks_pre(c) + [("increasing positions", strict2(x)), ("positions above -1", forall(iv(0), x.n, lambda k: at(x, k) > -1)),
                           ("separation", AND(sep(c) > 0, sep(c) < 1)), ("at least one", AND(maxn(c) >= 1, c.a(2) == 1))]


def fo_post(c):
    x, y, r = c.a(0), c.a(1), c.ret
    ix = idx(c.this)
    return [("at most as many as requested", r.n <= maxn(c)),
            ("the best one first", IMP(x.n > 0, AND(r.n >= 1, px(r, iv(0)) == at(x, sel(ix.el, iv(0))), py(r, iv(0)) == sgn(c) * at(y, sel(ix.el, iv(0)))))),
            ("each is a maximum", forall(iv(0), r.n, lambda k: exists(iv(0), x.n, lambda j: AND(px(r, k) == at(x, sel(ix.el, j)), py(r, k) == sgn(c) * at(y, sel(ix.el, j)))))),
            ("separated", forall2(iv(0), r.n, lambda i, j: apart(c, px(r, j), px(r, i))))]


def fo_loops(c, lc):
    x, y = c.a(0), c.a(1)
    ix = idx(c.this)
    out = []
    pts = [h for h, e in lc.vecs() if isx(h)]
    trk = [h for h, e in lc.vecs() if not isinstance(sel(h.el, iv(0)), (StructV, Fl))]
    for h in pts:
        cnt = lc.i
        if cnt is None:
            continue
        out.append(("best first", IMP(h.n > 0, AND(px(h, iv(0)) == at(x, sel(ix.el, iv(0))), py(h, iv(0)) == sgn(c) * at(y, sel(ix.el, iv(0)))))))
        out.append(("found", IMP(cnt > 0, h.n > 0)))
        out.append(("members", forall(iv(0), h.n, lambda k: exists(iv(0), cnt, lambda j: AND(px(h, k) == at(x, sel(ix.el, j)), py(h, k) == sgn(c) * at(y, sel(ix.el, j)))))))
        out.append(("separated", forall2(iv(0), h.n, lambda i, j: apart(c, px(h, j), px(h, i)))))
        for n, e in lc.ints:
            out.append(("counted", n == h.n))
        out.append(("at most", h.n <= maxn(c)))
        for t in trk:
            out.append(("nothing dropped before the first", IMP(h.n == 0, forall(iv(0), x.n, lambda j: sel(t.el, j)))))
            out.append(("ones still tracked are apart", forall(cnt, x.n, lambda j: forall(iv(0), h.n, lambda k: IMP(sel(t.el, sel(ix.el, j)), apart(c, at(x, sel(ix.el, j)), px(h, k)))))))
    return out


def cut(c):
    return c.this.get("m_meritCut").r


I_ANY = z3.Int("i_any")


def cut_pre(c):
    x, y = c.a(0), c.a(1)
    return [("one value per position", x.n == y.n), ("increasing positions", strict2(x)), ("positive cut, at least one kept", AND(cut(c) > 0, c.a(2) == 1))] + ranked(idx(c.this), y)


def within(c, j):
    y = c.a(1)
    return at(y, sel(idx(c.this).el, iv(0))) - at(y, j) <= cut(c)


def src(c, nx, ny, k, hi):
    x, y = c.a(0), c.a(1)
    return exists(iv(0), hi, lambda j: AND(at(nx, k) == at(x, j), at(ny, k) == at(y, j), within(c, j)))


def cut_post(c):
    x, y, nx, ny = c.a(0), c.a(1), c.a2(0), c.a2(1)
    one = x.n <= 1
    return [("one value per position", nx.n == ny.n), ("at least one", IMP(x.n > 0, nx.n >= 1)),
            ("increasing positions", strict2(nx)),
            ("only maxima within the cut", IMP(NOT(one), forall(iv(0), nx.n, lambda k: src(c, nx, ny, k, x.n)))),
            ("a single maximum is kept", IMP(one, AND(nx.n == x.n, forall(iv(0), nx.n, lambda k: AND(at(nx, k) == at(x, k), at(ny, k) == at(y, k)))))),
            ("every maximum within the cut", IMP(AND(0 <= I_ANY, I_ANY < x.n, within(c, I_ANY)), exists(iv(0), nx.n, lambda k: AND(at(nx, k) == at(x, I_ANY), at(ny, k) == at(y, I_ANY)))))]


def cut_loops(c, lc):
    if lc.i is None:
        return []
    x, y = c.a(0), c.a(1)
    vs = [h for h, e in lc.vecs() if isinstance(sel(h.el, iv(0)), Fl)]
    out = []
    for nx in vs:
        for ny in vs:
            if nx is ny:
                continue
            out.append(("pairs", AND(nx.n == ny.n)))
            out.append(("sources", forall(iv(0), nx.n, lambda k: src(c, nx, ny, k, lc.i))))
            out.append(("below", forall(iv(0), nx.n, lambda k: at(nx, k) < at(x, lc.i))))
            out.append(("the best is kept", IMP(sel(idx(c.this).el, iv(0)) < lc.i, nx.n >= 1)))
            out.append(("all", IMP(AND(0 <= I_ANY, I_ANY < lc.i, within(c, I_ANY)), exists(iv(0), nx.n, lambda k: AND(at(nx, k) == at(x, I_ANY), at(ny, k) == at(y, I_ANY))))))
        out.append(("increasing", strict2(nx)))
        out.append(("last", IMP(nx.n > 0, AND(lc.i > 0, at(nx, nx.n - 1) <= at(x, lc.i - 1)))))
    return out


RA, RB = z3.Array("run_begin", I, I), z3.Array("run_end", I, I)
P_ANY, K1 = z3.Int("p_any"), z3.Int("k_one")
TY = z3.Array("signed_value", I, R)


def step(y, j, b, e):
    """two neighbours belong to the same run exactly when their values agree: run_begin and run_end are the first and
    last index of the run of equal values an index belongs to"""
    return IMP(AND(b <= j, j < e), AND(b <= RA[j], RA[j] <= j, j <= RB[j], RB[j] <= e,
               IF(TY[j] == TY[j + 1], AND(RA[j + 1] == RA[j], RB[j] == RB[j + 1]), AND(RB[j] == j, RA[j + 1] == j + 1))))


def fap(c):
    """x, y, begin, end, sign, border allowed"""
    s = IF(c.a(4), -sgn(c), sgn(c))
    return c.a(0), c.a(1), c.a(2), c.a(3), s, c.this.get("m_allow_extrema_at_border")


def upok(c, p):
    x, y, b, e, s, al = fap(c)
    return IF(RA[p] == b, al, TY[RA[p] - 1] < TY[p])


def dnok(c, p):
    x, y, b, e, s, al = fap(c)
    return IF(RB[p] == e, al, TY[RB[p] + 1] < TY[p])


def mid(p):
    """middle of the run of p"""
    n = RB[p] - RA[p] + 1
    return RB[p] - n / 2


def peak(c, p):
    return AND(upok(c, p), dnok(c, p), p == mid(p))


NP, PK, KP, NM = z3.Array("maxima_before", I, I), z3.Array("kth_maximum", I, I), z3.Array("rank_of_maximum", I, I), z3.Int("number_of_maxima")


def ends(c, j):
    """j is the last index of the run of a maximum"""
    return AND(RB[j] == j, upok(c, j), dnok(c, j))


def fap_pre(c):
    x, y, b, e, s, al = fap(c)
    out = [("one value per position", x.n == y.n), ("increasing positions", strict2(x)), ("interval", AND(0 <= b, b <= e, e < x.n)),
           ("sign", OR(sgn(c) == 1, sgn(c) == -1))]
    if isinstance(c, VCtx):
        j = K("j")
        k = K("k")
        out.append(("ghost: signed values", z3.ForAll([k], IMP(AND(0 <= k, k < y.n), TY[k] == IF(s > 0, at(y, k), -at(y, k))), patterns=[sel(y.el, k).r])))
        out.append(("ghost: first and last run", AND(RA[b] == b, RB[e] == e, b <= RA[e], RA[e] <= e, RB[b] >= b, RB[b] <= e)))
        out.append(("ghost: neighbours of one run", z3.ForAll([k], step(y, k, b, e), patterns=[sel(y.el, k).r])))
        p, q = K("p"), K("q")
        out.append(("ghost: maxima counted by the end of their run", AND(NP[b] == 0, NP[e + 1] == NM, NM >= 0, z3.ForAll([j], IMP(AND(b <= j, j <= e), AND(
            NP[j] >= 0, NP[j] <= NM, NP[j + 1] == NP[j] + IF(ends(c, j), iv(1), iv(0)), IMP(ends(c, j), PK[NP[j]] == mid(j)))), patterns=[sel(y.el, j).r]))))
        out.append(("ghost: the maxima in increasing order", AND(
            z3.ForAll([p], IMP(AND(0 <= p, p < NM), AND(b <= PK[p], PK[p] <= e, peak(c, PK[p]))), patterns=[PK[p]]),
            z3.ForAll([p, q], IMP(AND(0 <= p, p < q, q < NM), PK[p] < PK[q]), patterns=[z3.MultiPattern(PK[p], PK[q])]))))
        out.append(("ghost: every maximum is listed", z3.ForAll([p], IMP(AND(b <= p, p <= e, peak(c, p)), AND(0 <= KP[p], KP[p] < NM, PK[KP[p]] == p)), patterns=[KP[p]])))
    return out


def fap_post(c):
    x, y, b, e, s, al = fap(c)
    X, Y = c.ret.get("first"), c.ret.get("second")
    return [("one value per maximum", X.n == Y.n), ("only maxima of the interval", IMP(AND(0 <= K1, K1 < X.n), AND(b <= PK[K1], PK[K1] <= e, at(X, K1) == at(x, PK[K1]), peak(c, PK[K1])))),
            ("every maximum of the interval", IMP(AND(b <= P_ANY, P_ANY <= e, peak(c, P_ANY)), AND(0 <= KP[P_ANY], KP[P_ANY] < X.n, PK[KP[P_ANY]] == P_ANY)))]


def fap_loops(c, lc):
    x, y, b, e, s, al = fap(c)
    i = lc.i
    if i is None:
        return []
    out = []
    pl = AND(TY[i - 1] == TY[i], upok(c, i - 1))
    for h, _ in lc.bools:
        out.append(("in a high plateau", h == pl))
    for h, _ in lc.ints:
        out.append(("length of the plateau", h == IF(pl, i - RA[i - 1], iv(0))))
    vs = [h for h, _ in lc.vecs() if isinstance(sel(h.el, iv(0)), Fl)]
    for X in vs:
        out.append(("counted", X.n == NP[i]))
        if X is vs[0]:
            out.append(("x of one", IMP(AND(0 <= K1, K1 < X.n), at(X, K1) == at(x, PK[K1]))))
    return out


def contracts():
    use = [x for x in c05.contracts() if x.q.endswith("getClosedIntervalIndices")]
    for x in use:
        x.usable = True
    return use + [
        Contract(Q + "SortIndexes", post=lambda c: ranked(idx(c.this2), c.a(0)), modifies=(("this", "m_sortedIndexes"),), usable=True),
        Contract(Q + "FilterOutNeighboringPeaksAndTruncate", pre=fo_pre, post=fo_post, loops=fo_loops, usable=True, budget=3),
        Contract(Q + "Cut_Threshold", pre=cut_pre, post=cut_post, loops=cut_loops, usable=True, modifies=(0, 1),
                 throws=lambda c: {"INTERNAL_ERROR": c.a(0).n == 0}),
        Contract(Q + "applySign", usable=True, pre=lambda c: [("sign", OR(sgn(c) == 1, sgn(c) == -1))],
                 post=lambda c: [("one value each", c.ret.n == c.a(0).n), ("signed values", forall(iv(0), c.ret.n, lambda k: at(c.ret, k) == IF(IF(c.a(1), -sgn(c), sgn(c)) > 0, at(c.a(0), k), -at(c.a(0), k))))]),
        Contract(Q + "FindAllPeaks", pre=fap_pre, post=fap_post, loops=fap_loops, budget=4, opts=dict(hard_inv=True), throws=lambda c: {"INTERNAL_ERROR": c.a(3) - c.a(2) < 2}),
        Contract(Q + "Truncate", pre=peaks_pre, post=trunc_post, loops=trunc_loops, usable=True),
    ]
