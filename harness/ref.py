"""Exact reference model.

Numbers of the quadratic fields the library computes in, and exact perp-space
geometry over them.  Nothing in this file imports the code under test.

A library number is an int triple (a,b,c) = (a + b*theta)/c with
    ico : theta = (1+sqrt5)/2   theta^2 = theta + 1
    dode: theta = sqrt3/2       theta^2 = 3/4
Here a number is Q(p,q) = p + q*theta with p,q Fractions, bound to a field.
"""
from fractions import Fraction as F
from itertools import combinations, permutations
from math import gcd, sqrt


class Field:
    """theta^2 = u + v*theta, theta > 0 irrational."""

    def __init__(self, name, u, v, theta):
        self.name, self.u, self.v, self.theta = name, F(u), F(v), theta
        # theta = (v + sqrt(v^2+4u))/2
        self.disc = self.v * self.v + 4 * self.u

    def sign(self, p, q):
        """sign of p + q*theta, exactly."""
        x = p + q * self.v / 2          # p + q*theta = x + y*sqrt(disc)
        y = q / 2
        if y == 0:
            return (x > 0) - (x < 0)
        if x == 0:
            return (y > 0) - (y < 0)
        if x > 0 and y > 0:
            return 1
        if x < 0 and y < 0:
            return -1
        d = x * x - y * y * self.disc
        s = (d > 0) - (d < 0)
        return s if x > 0 else -s


ICO = Field('ico', 1, 1, (1 + sqrt(5)) / 2)
DODE = Field('dode', F(3, 4), 0, sqrt(3) / 2)


class Q:
    __slots__ = ('p', 'q', 'f')

    def __init__(self, p, q, f):
        self.p, self.q, self.f = p, q, f

    @staticmethod
    def tri(t, f):
        c = int(t[2])
        return Q(F(int(t[0]), c), F(int(t[1]), c), f)

    def _o(self, o):
        return o if isinstance(o, Q) else Q(F(o), F(0), self.f)

    def __add__(self, o):
        o = self._o(o)
        return Q(self.p + o.p, self.q + o.q, self.f)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        return Q(self.p - o.p, self.q - o.q, self.f)

    def __rsub__(self, o):
        return self._o(o) - self

    def __neg__(self):
        return Q(-self.p, -self.q, self.f)

    def __mul__(self, o):
        o = self._o(o)
        f = self.f
        qq = self.q * o.q
        return Q(self.p * o.p + f.u * qq, self.p * o.q + self.q * o.p + f.v * qq, f)
    __rmul__ = __mul__

    def inv(self):
        # conj(theta) = v - theta ; norm = (p+q theta)(p+q v - q theta)
        f = self.f
        n = self.p * self.p + self.p * self.q * f.v - self.q * self.q * f.u
        return Q((self.p + self.q * f.v) / n, -self.q / n, f)

    def __truediv__(self, o):
        return self * self._o(o).inv()

    def __eq__(self, o):
        o = self._o(o)
        return self.p == o.p and self.q == o.q

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.p, self.q))

    def sign(self):
        return self.f.sign(self.p, self.q)

    def __lt__(self, o):
        return (self - o).sign() < 0

    def __le__(self, o):
        return (self - o).sign() <= 0

    def __gt__(self, o):
        return (self - o).sign() > 0

    def __ge__(self, o):
        return (self - o).sign() >= 0

    def __abs__(self):
        return -self if self.sign() < 0 else self

    def __float__(self):
        return float(self.p) + float(self.q) * self.f.theta

    def iszero(self):
        return self.p == 0 and self.q == 0

    def triple(self):
        """the canonical library triple: gcd(a,b,c)=1, c>0"""
        c = self.p.denominator * self.q.denominator // gcd(self.p.denominator, self.q.denominator)
        a, b = int(self.p * c), int(self.q * c)
        g = gcd(gcd(a, b), c)
        return (a // g, b // g, c // g)

    def __repr__(self):
        return 'Q%r' % (self.triple(),)


def canon(t, f):
    return Q.tri(t, f).triple()


# ---------------------------------------------------------------- projections
def _m(rows, f):
    out = []
    for r in rows:
        out.append([Q(F(a), F(b), f) for (a, b) in r])
    return out


_T = (0, 1)
_t = (0, -1)
_h = (F(-1, 2), 0)
EPAR = {
    'ico': _m([[(1, 0), _T, _T, (0, 0), (-1, 0), (0, 0)],
               [_T, (0, 0), (0, 0), (1, 0), _T, (1, 0)],
               [(0, 0), (1, 0), (-1, 0), _t, (0, 0), _T]], ICO),
    'dode': _m([[_T, (1, 0), (0, 0), _h, (0, 0), (0, 0)],
                [_h, (0, 0), (1, 0), _T, (0, 0), (0, 0)],
                [(0, 0), (0, 0), (0, 0), (0, 0), (1, 0), (0, 0)]], DODE),
}
EPERP = {
    'ico': _m([[_T, (-1, 0), (-1, 0), (0, 0), _t, (0, 0)],
               [(-1, 0), (0, 0), (0, 0), _T, (-1, 0), _T],
               [(0, 0), _T, _t, (1, 0), (0, 0), (-1, 0)]], ICO),
    'dode': _m([[_t, (1, 0), (0, 0), _h, (0, 0), (0, 0)],
                [_h, (0, 0), (1, 0), _t, (0, 0), (0, 0)],
                [(0, 0), (0, 0), (0, 0), (0, 0), (0, 0), (1, 0)]], DODE),
}


def qvec(v, f):
    return [Q.tri(t, f) for t in v]


def matvec(m, v):
    out = []
    for r in m:
        s = r[0] * v[0]
        for a, b in zip(r[1:], v[1:]):
            s = s + a * b
        out.append(s)
    return out


def perp(v6, f):
    return matvec(EPERP[f.name], qvec(v6, f))


def par(v6, f):
    return matvec(EPAR[f.name], qvec(v6, f))


# ---------------------------------------------------------------- plain linear algebra
def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det3(a, b, c):
    return dot(a, cross(b, c))


def signed6vol(p):
    return det3(vsub(p[1], p[0]), vsub(p[2], p[0]), vsub(p[3], p[0]))


def tetvol(p):
    """volume of a tetrahedron given by 4 perp points"""
    return abs(signed6vol(p)) * F(1, 6)


def signed2area(p):
    a, b = vsub(p[1], p[0]), vsub(p[2], p[0])
    return a[0] * b[1] - a[1] * b[0]


def triarea(p):
    return abs(signed2area(p)) * F(1, 2)


# ---------------------------------------------------------------- fast homogeneous kernel
# ring elements: int pairs (a,b) = a + b*theta' with theta'^2 = u + v theta', theta' chosen
# integral: ico theta'=tau ; dode theta'=sqrt3 = 2*theta.
class Ring:
    def __init__(self, name):
        if name == 'ico':
            self.u, self.v, self.scale = 1, 1, 1
            self.disc = 5
        else:
            self.u, self.v, self.scale = 3, 0, 2
            self.disc = 3
        self.name = name
        self.field = ICO if name == 'ico' else DODE

    def mul(self, x, y):
        a, b = x
        c, d = y
        bd = b * d
        return (a * c + self.u * bd, a * d + b * c + self.v * bd)

    def sgn(self, x):
        a, b = x
        if b == 0:
            return (a > 0) - (a < 0)
        if self.v:                       # a + b tau -> (2a+b) + b sqrt5
            a = 2 * a + b
            D = 5
        else:
            D = 3
        if a >= 0 and b > 0:
            return 1
        if a <= 0 and b < 0:
            return -1
        d = a * a - D * b * b
        s = (d > 0) - (d < 0)
        return s if a > 0 else -s

    def fromQ(self, q, den):
        """q*den as ring element (must be integral)"""
        a = q.p * den
        b = q.q * den / self.scale       # theta = theta'/scale
        assert a.denominator == 1 and b.denominator == 1
        return (int(a), int(b))

    def toQ(self, num, den):
        """num/den -> Q"""
        n = Q(F(num[0]), F(num[1] * self.scale), self.field)
        d = Q(F(den[0]), F(den[1] * self.scale), self.field)
        return n / d


RICO, RDODE = Ring('ico'), Ring('dode')


def ring(f):
    return RICO if f.name == 'ico' else RDODE


def _lcm(a, b):
    return a * b // gcd(a, b)


def homog(points, f, den=None):
    """Q points -> homogeneous ring points with one common integer weight"""
    R = ring(f)
    if den is None:
        den = 1
        for p in points:
            for c in p:
                den = _lcm(den, c.p.denominator)
                den = _lcm(den, (c.q / R.scale).denominator)
    return [tuple(R.fromQ(c, den) for c in p) + ((den, 0),) for p in points], den


def _det4(R, rows):
    """determinant of a 4x4 (or nxn) ring matrix by Laplace expansion"""
    n = len(rows)
    if n == 1:
        return rows[0][0]
    if n == 2:
        x = R.mul(rows[0][0], rows[1][1])
        y = R.mul(rows[0][1], rows[1][0])
        return (x[0] - y[0], x[1] - y[1])
    tot = (0, 0)
    sg = 1
    for j in range(n):
        c = rows[0][j]
        if c != (0, 0):
            minor = [r[:j] + r[j + 1:] for r in rows[1:]]
            m = R.mul(c, _det4(R, minor))
            tot = (tot[0] + sg * m[0], tot[1] + sg * m[1])
        sg = -sg
    return tot


def _plane(R, pts):
    """coefficients h with h.x = det(x, pts...) for homogeneous x"""
    n = len(pts) + 1
    h = []
    sg = 1
    for j in range(n):
        minor = [p[:j] + p[j + 1:] for p in pts]
        d = _det4(R, minor)
        h.append((sg * d[0], sg * d[1]))
        sg = -sg
    return h


def _ev(R, h, x):
    a = b = 0
    for c, y in zip(h, x):
        m = R.mul(c, y)
        a += m[0]
        b += m[1]
    return (a, b)


def _neg(h):
    return [(-a, -b) for a, b in h]


def _reduce(x):
    g = 0
    for a, b in x:
        g = gcd(gcd(g, a), b)
    if g > 1:
        x = tuple((a // g, b // g) for a, b in x)
    return x


def halfspaces(R, simplex):
    """planes h>=0 inside, for a nondegenerate simplex in homogeneous points (w>0)"""
    out = []
    n = len(simplex)
    for i in range(n):
        others = [simplex[j] for j in range(n) if j != i]
        h = _plane(R, others)
        s = R.sgn(_ev(R, h, simplex[i]))
        if s == 0:
            return None
        out.append(h if s > 0 else _neg(h))
    return out


def _edgepoint(R, p, fp, q, fq):
    # fp>0>fq : point = p*(-fq) + q*fp, weights stay positive
    nfq = (-fq[0], -fq[1])
    x = []
    for a, b in zip(p, q):
        m = R.mul(a, nfq)
        n = R.mul(b, fp)
        x.append((m[0] + n[0], m[1] + n[1]))
    return _reduce(tuple(x))


def clip_polygon(R, poly, h):
    out = []
    n = len(poly)
    vals = [_ev(R, h, p) for p in poly]
    sg = [R.sgn(v) for v in vals]
    for i in range(n):
        j = (i + 1) % n
        if sg[i] >= 0:
            out.append(poly[i])
        if sg[i] * sg[j] < 0:
            if sg[i] > 0:
                out.append(_edgepoint(R, poly[i], vals[i], poly[j], vals[j]))
            else:
                out.append(_edgepoint(R, poly[j], vals[j], poly[i], vals[i]))
    return out


def same_hpoint(R, p, q):
    for a, b in zip(p[:-1], q[:-1]):
        if R.mul(a, q[-1]) != R.mul(b, p[-1]):
            return False
    return True


def tri_intersection_area(t1, t2, f):
    """exact area of the intersection of two triangles given by perp Q points"""
    R = ring(f)
    hp, den = homog([p[:2] for p in list(t1) + list(t2)], f)
    a, b = hp[:3], hp[3:]
    hs = halfspaces(R, b)
    if hs is None or halfspaces(R, a) is None:
        return Q(F(0), F(0), f)
    poly = list(a)
    for h in hs:
        poly = clip_polygon(R, poly, h)
        if len(poly) < 3:
            return Q(F(0), F(0), f)
    tot = Q(F(0), F(0), f)
    p0 = poly[0]
    for i in range(1, len(poly) - 1):
        d = _det4(R, [p0, poly[i], poly[i + 1]])
        if R.sgn(d) < 0:
            d = (-d[0], -d[1])
        w = R.mul(R.mul(p0[2], poly[i][2]), poly[i + 1][2])
        tot = tot + R.toQ(d, w)
    return tot * F(1, 2)


def clip_polytope(R, faces, h):
    """faces: list of polygons (cyclic). Returns clipped faces incl. the cap (or [] )."""
    new = []
    cap = []
    anyout = False
    for poly in faces:
        vals = [_ev(R, h, p) for p in poly]
        sg = [R.sgn(v) for v in vals]
        if all(s >= 0 for s in sg):
            new.append(poly)
            continue
        anyout = True
        n = len(poly)
        out = []
        for i in range(n):
            j = (i + 1) % n
            if sg[i] >= 0:
                out.append(poly[i])
                if sg[i] == 0:
                    cap.append(poly[i])
            if sg[i] * sg[j] < 0:
                if sg[i] > 0:
                    p = _edgepoint(R, poly[i], vals[i], poly[j], vals[j])
                else:
                    p = _edgepoint(R, poly[j], vals[j], poly[i], vals[i])
                out.append(p)
                cap.append(p)
        if len(out) >= 3:
            new.append(out)
    if not anyout:
        return faces
    # the cap need not be listed as a face for the volume: see polytope_volume
    return new


def polytope_volume(R, faces, apex, f):
    """sum of |tet(apex, fan of face)|: exact when every face not containing apex is listed
    (apex a vertex of the polytope lying on every clipped-off plane is not needed: caller passes
    the complete face list)"""
    tot = Q(F(0), F(0), f)
    for poly in faces:
        for i in range(1, len(poly) - 1):
            d = _det4(R, [apex, poly[0], poly[i], poly[i + 1]])
            s = R.sgn(d)
            if s == 0:
                continue
            if s < 0:
                d = (-d[0], -d[1])
            w = R.mul(R.mul(apex[3], poly[0][3]), R.mul(poly[i][3], poly[i + 1][3]))
            tot = tot + R.toQ(d, w)
    return tot * F(1, 6)


def tet_intersection_volume(t1, t2, f):
    """exact volume of the intersection of two tetrahedra given by perp Q points.

    Clip the faces of A by the 4 half spaces of B and the faces of B by those of A: together
    these are all faces of the intersection (faces on a common plane appear twice and are
    counted once)."""
    R = ring(f)
    hp, den = homog(list(t1) + list(t2), f)
    A, B = hp[:4], hp[4:]
    hA, hB = halfspaces(R, A), halfspaces(R, B)
    zero = Q(F(0), F(0), f)
    if hA is None or hB is None:
        return zero
    faces = []
    for i in range(4):
        poly = [A[j] for j in range(4) if j != i]
        for h in hB:
            poly = clip_polygon(R, poly, h)
            if len(poly) < 3:
                break
        if len(poly) >= 3:
            faces.append(poly)
    for i in range(4):
        tri = [B[j] for j in range(4) if j != i]
        # skip a face of B coplanar with a face of A and on the same side (already counted)
        skip = False
        for h in hA:
            if all(_ev(R, h, p) == (0, 0) for p in tri):
                skip = True
                break
        if skip:
            continue
        poly = tri
        for h in hA:
            poly = clip_polygon(R, poly, h)
            if len(poly) < 3:
                break
        if len(poly) >= 3:
            faces.append(poly)
    if not faces:
        return zero
    apex = faces[0][0]
    return polytope_volume(R, faces, apex, f)


# ---------------------------------------------------------------- exact predicates
def in_tet(p, t):
    """1 interior, 0 boundary, -1 outside (nondegenerate t)"""
    base = signed6vol(t).sign()
    res = 1
    for i in range(4):
        q = list(t)
        q[i] = p
        s = signed6vol(q).sign() * base
        if s < 0:
            return -1
        if s == 0:
            res = 0
    return res


def in_tri2(p, t):
    base = signed2area(t).sign()
    res = 1
    for i in range(3):
        q = list(t)
        q[i] = p
        s = signed2area(q).sign() * base
        if s < 0:
            return -1
        if s == 0:
            res = 0
    return res


def on_segment(p, a, b):
    """point on closed segment ab, any dimension"""
    ab, ap = vsub(b, a), vsub(p, a)
    n = len(p)
    for i in range(n):
        for j in range(i + 1, n):
            if not (ab[i] * ap[j] - ab[j] * ap[i]).iszero():
                return False
    d = dot(ab, ap)
    return d.sign() >= 0 and (dot(ab, ab) - d).sign() >= 0


def collinear(a, b, c):
    ab, ac = vsub(b, a), vsub(c, a)
    n = len(a)
    for i in range(n):
        for j in range(i + 1, n):
            if not (ab[i] * ac[j] - ab[j] * ac[i]).iszero():
                return False
    return True


def coplanar(points):
    """do all 3-d points lie in one plane"""
    pts = list(points)
    if len(pts) < 4:
        return True
    a = pts[0]
    vs = [vsub(p, a) for p in pts[1:]]
    # find an independent pair
    for i in range(len(vs)):
        for j in range(i + 1, len(vs)):
            n = cross(vs[i], vs[j])
            if not all(c.iszero() for c in n):
                return all(dot(n, v).iszero() for v in vs)
    return True
