"""Published Runge-Kutta tableaux (exact fractions) and the rooted-tree order conditions."""
from fractions import Fraction as F
RK4_A = [[0, 0, 0, 0], [F(1, 2), 0, 0, 0], [0, F(1, 2), 0, 0], [0, 0, 1, 0]]
RK4_b = [F(1, 6), F(1, 3), F(1, 3), F(1, 6)]
# Bogacki & Shampine (1996), 5(4) pair with eight stages, first same as last
BS5_A = [[0]*8, [F(1, 6)] + [0]*7, [F(2, 27), F(4, 27)] + [0]*6,
         [F(183, 1372), F(-162, 343), F(1053, 1372)] + [0]*5,
         [F(68, 297), F(-4, 11), F(42, 143), F(1960, 3861)] + [0]*4,
         [F(597, 22528), F(81, 352), F(63099, 585728), F(58653, 366080), F(4617, 20480)] + [0]*3,
         [F(174197, 959244), F(-30942, 79937), F(8152137, 19744439), F(666106, 1039181), F(-29421, 29068), F(482048, 414219), 0, 0],
         [F(587, 8064), 0, F(4440339, 15491840), F(24353, 124800), F(387, 44800), F(2152, 5985), F(7267, 94080), 0]]
BS5_b = list(BS5_A[7])
BS5_bhat = [F(2479, 34992), F(0), F(123, 416), F(612941, 3411720), F(43, 1440), F(2272, 6561), F(79937, 1113912), F(3293, 556956)]


def trees(order):
    """Rooted trees with up to `order` nodes, as sorted nested tuples."""
    by = {1: [()]}
    def parts(n, mx):          # multisets of trees with n nodes in total
        if n == 0: yield (); return
        for size in range(min(n, mx), 0, -1):
            for t in by[size]:
                for rest in parts(n - size, size): yield tuple(sorted((t,) + rest))
    for n in range(2, order + 1):
        by[n] = sorted(set(parts(n - 1, n - 1)))
    return by

def size(t): return 1 + sum(size(c) for c in t)
def gamma(t):
    g = size(t)
    for c in t: g *= gamma(c)
    return g
def weights(A, t):
    """Elementary weight vector of tree t."""
    s = len(A); out = [F(1)] * s
    for c in t:
        w = weights(A, c)
        Aw = [sum(A[i][j] * w[j] for j in range(s)) for i in range(s)]
        out = [o * a for o, a in zip(out, Aw)]
    return out
def order_defects(A, b, order):
    """[(tree, b.phi - 1/gamma)] over all trees up to the order."""
    out = []
    for n, ts in trees(order).items():
        for t in ts:
            out.append((t, sum(bi * w for bi, w in zip(b, weights(A, t))) - F(1, gamma(t))))
    return out
if __name__ == "__main__":
    print({n: len(t) for n, t in trees(5).items()})
    print([d for d in order_defects(RK4_A, RK4_b, 4) if d[1]], [d for d in order_defects(BS5_A, BS5_b, 5) if d[1]],
          [d for d in order_defects(BS5_A, BS5_bhat, 4) if d[1]])
