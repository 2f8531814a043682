"""
Small executable reference model, written from the documentation, sharing no code with
/repo: the Carbon bonding curve, optimal order matching, pair/price conventions, and an
order book.
"""
import math
from decimal import Decimal, localcontext


def D(x):
    return x if isinstance(x, Decimal) else Decimal(x) if isinstance(x, (int, float)) else Decimal(str(x))


class RefPair:
    def __init__(self, slash):
        self.b, self.q = slash.upper().split("/")
        self.slash = f"{self.b}/{self.q}"

    def other(self, t):
        return self.q if t == self.b else self.b if t == self.q else None

    def to_curve(self, p, tkn):
        """price in pair convention -> price of one unit of the *other* token in `tkn` (dy/dx)"""
        return p if tkn == self.q else 1 / p

    from_curve = to_curve


class RefOrder:
    """one curve: sells `tkn`; balances y, capacity z, price range [pl, ph] in dy/dx"""
    __slots__ = ("id", "tkn", "pair", "y", "z", "pl", "ph", "disabled", "link", "cid")

    def __init__(self, id, tkn, pair, y, z, pl, ph, disabled=False, link=None, cid=""):
        self.id, self.tkn, self.pair = id, tkn, pair
        self.y, self.z = D(y), D(z)
        self.pl, self.ph = D(pl), D(ph)
        self.disabled, self.link, self.cid = disabled, link, cid


def curve_BS(pl, ph):
    with localcontext() as c:
        c.prec = 60
        b = D(pl).sqrt()
        s = D(ph).sqrt() - b
    return b, s


def dx_for_dy(y, z, pl, ph, dy):
    """amount of the other token the curve must receive for selling dy"""
    with localcontext() as c:
        c.prec = 60
        b, s = curve_BS(pl, ph)
        y, z, dy = D(y), D(z), D(dy)
        m = s * y + b * z
        den = m * (m - s * dy)
        if den == 0:
            return None
        return dy * z * z / den


def dy_for_dx(y, z, pl, ph, dx):
    with localcontext() as c:
        c.prec = 60
        b, s = curve_BS(pl, ph)
        y, z, dx = D(y), D(z), D(dx)
        m = s * y + b * z
        return dx * m * m / (s * dx * m + z * z)


def marg(y, z, pl, ph):
    """marginal price dy/dx at balance y"""
    b, s = curve_BS(pl, ph)
    if not z:
        return (b + s) ** 2
    return (b + s * D(y) / D(z)) ** 2


class _C:
    """float view of a curve for the optimiser"""
    __slots__ = ("y", "z", "B", "S", "flat")

    def __init__(self, y, z, pl, ph):
        b, s = curve_BS(pl, ph)
        self.y, self.z, self.B, self.S = float(y), float(z), float(b), float(s)
        self.flat = self.S < 1e-6 * max(self.B, 1e-300)

    def top(self):
        return self.B + (self.S * self.y / self.z if self.z and not self.flat else 0.0)

    def sold_to(self, r):
        """amount sold when the marginal sqrt-price is pushed down to r"""
        if self.flat:
            return self.y if r <= self.B else 0.0
        t = self.z * (r - self.B) / self.S
        t = min(max(t, 0.0), self.y)
        return self.y - t

    def dx(self, dy):
        m = self.S * self.y + self.B * self.z
        return dy * self.z * self.z / (m * (m - self.S * dy))


def optimal(curves, dy=None, dx=None):
    """
    Best execution over `curves` [(y,z,pl,ph)], infinitely divisible.
    Given total dy: returns minimal total dx. Given total dx: returns maximal total dy.
    None when liquidity is insufficient.
    """
    cs = [_C(*c) for c in curves if c[0] > 0]
    if not cs:
        return None
    hi = max(c.top() for c in cs) * (1 + 1e-15)
    lo = min(c.B for c in cs) * (1 - 1e-15)

    def cost(c, s):
        return c.dx(s) if s > 0 else 0.0

    def at(r):
        sold = [c.sold_to(r) for c in cs]
        return sum(sold), sum(cost(c, s) for c, s in zip(cs, sold))

    tot_dy, tot_dx = at(lo)
    if dy is not None and dy > tot_dy * (1 + 1e-12):
        return None
    if dx is not None and dx > tot_dx * (1 + 1e-12):
        return None
    a, b = lo, hi     # at(a) covers, at(b) does not
    for _ in range(200):
        m = 0.5 * (a + b)
        if m <= a or m >= b:
            break
        sy, sx = at(m)
        if (dy is not None and sy >= dy) or (dx is not None and sx >= dx):
            a = m
        else:
            b = m
    sy, sx = at(b)
    if dy is not None:
        return sx + max(dy - sy, 0.0) / (a * a)
    return sy + max(dx - sx, 0.0) * (a * a)


def capacity(curves):
    """(sum of y, total dx needed to empty all)"""
    cs = [_C(*c) for c in curves if c[0] > 0]
    return sum(c.y for c in cs), sum(c.dx(c.y) for c in cs)
