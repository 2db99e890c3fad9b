// Q01: quaternion algebra
#include <vmmlib/quaternion.hpp>

#include "gen.hpp"

#include <list>

using namespace pbt;
const char* const pbt::LABELS[] = {"component-wise", "product", "own operand",
                                   "scalar", "vector operand", "inverse",
                                   "comparison", "construction", "division by zero", 0};
const char* const pbt::RULE =
    "Random quaternions through every operator and form, including one as its "
    "own operand, against the textbook definitions (Hamilton product, conjugate, "
    "norm, inverse, products with pure quaternions) in long double; non-trivial = "
    "at least three components of each operand are non-zero.";

template <class T>
struct Ref
{
    LD v[4], mag[4];
};
// Hamilton product of (x, y, z, w)
template <class T>
Ref<T> hamilton(const T* a, const T* b)
{
    Ref<T> r;
    const LD ax = a[0], ay = a[1], az = a[2], aw = a[3];
    const LD bx = b[0], by = b[1], bz = b[2], bw = b[3];
    r.v[0] = aw * bx + ax * bw + ay * bz - az * by;
    r.v[1] = aw * by + ay * bw + az * bx - ax * bz;
    r.v[2] = aw * bz + az * bw + ax * by - ay * bx;
    r.v[3] = aw * bw - ax * bx - ay * by - az * bz;
    const LD m = (fabsl(ax) + fabsl(ay) + fabsl(az) + fabsl(aw)) *
                 (fabsl(bx) + fabsl(by) + fabsl(bz) + fabsl(bw));
    for (int i = 0; i < 4; ++i)
        r.mag[i] = m;
    return r;
}

template <class T>
bool rich(const T* a, int n)
{
    int k = 0;
    for (int i = 0; i < n; ++i)
        k += a[i] != 0;
    return k >= n - 1;
}

template <class T>
void match(Src& s, const vmml::Quaternion<T>& q, const Ref<T>& w, LD k, const char* what)
{
    for (int i = 0; i < 4; ++i)
        s.near(q.array[i], w.v[i], w.mag[i], k, what, i);
}

template <class T>
void arith(Src& s)
{
    typedef vmml::Quaternion<T> Q;
    Gen<T> g(s, 16, 4);
    T a[4], b[4], v[3];
    fill(g, a, 4);
    fill(g, b, 4);
    fill(g, v, 3);
    const T k = g();
    const Q qa(a[0], a[1], a[2], a[3]), qb(b[0], b[1], b[2], b[3]);
    const vmml::Vector<3, T> vec(v[0], v[1], v[2]);
    Q r = qa, r2;
    const int op = (int)s.draw(16);
    s.show("op", op);
    s.show("a", a, 4);
    s.show("b", b, 4);
    s.show("v", v, 3);
    s.show("k", k);
    Ref<T> w;
#define EACH(expr)                                                             \
    for (int i = 0; i < 4; ++i)                                                \
    {                                                                          \
        const LD x = a[i], y = b[i], u = i < 3 ? (LD)v[i] : 0;                 \
        (void)y;                                                               \
        (void)u;                                                               \
        w.v[i] = (expr);                                                       \
        w.mag[i] = fabsl(w.v[i]);                                              \
    }
    LD tol = 2;
    const T pure[4] = {v[0], v[1], v[2], 0};
    switch (op)
    {
    case 0:
        EACH(x + y) r += qb;
        r2 = qa + qb;
        s.label(0);
        break;
    case 1:
        EACH(x - y) r -= qb;
        r2 = qa - qb;
        s.label(0);
        break;
    case 2:
        w = hamilton(a, b);
        tol = 8;
        r *= qb;
        r2 = qa * qb;
        s.label(1);
        break;
    case 3:
        w = hamilton(a, a);
        tol = 8;
        r *= r;
        r2 = qa * qa;
        s.label(2);
        break;
    case 4:
        EACH(x * k) r *= k;
        r2 = qa * k;
        s.label(3);
        break;
    case 5:
    {
        s.label(3);
        if (k == 0)
        {
            s.label(8);
            s.same(throws<std::exception>([&] { r /= k; }), true, "/= 0 is refused");
            s.same(throws<std::exception>([&] { r2 = qa / k; }), true, "/ 0 is refused");
            s.expect(r == qa, "a refused division changes nothing");
            return;
        }
        EACH(x / k) tol = 4;
        r /= k;
        r2 = qa / k;
        break;
    }
    case 6:
        EACH(x + u) r += vec;
        r2 = qa + vec;
        s.label(4);
        break;
    case 7:
        EACH(x - u) r -= vec;
        r2 = qa - vec;
        s.label(4);
        break;
    case 8:
        w = hamilton(a, pure);
        tol = 8;
        r *= vec;
        r2 = qa * vec;
        s.label(4);
        break;
    case 9:
        EACH(-x) r = -qa;
        r2 = qa.negate();
        s.label(0);
        break;
    case 10:
        EACH(i == 3 ? x : -x) r.conjugate();
        r2 = qa.get_conjugate();
        s.label(0);
        break;
    case 11:
        EACH(2 * x) r += r;
        r2 = qa + qa;
        s.label(2);
        break;
    case 12:
        EACH(0) r -= r;
        r2 = qa - qa;
        s.label(2);
        break;
    case 13:
        // component by component, with a component as the scalar
        EACH(x * a[1]) r *= r.array[1];
        r2 = qa * qa.array[1];
        s.label(3);
        break;
    case 14:
    {
        if (a[2] == 0)
            return;
        EACH(x / a[2]) tol = 4;
        r /= r.array[2];
        r2 = qa / qa.array[2];
        s.label(3);
        break;
    }
    default:
        EACH(x) r2 = qa;
        r = qb;
        r = qa;
        r = r;
    }
    match(s, r, w, tol, "in-place form");
    match(s, r2, w, tol, "operator form");
    for (int i = 0; i < 4; ++i)
    {
        s.same(qa.array[i], a[i], "the left operand is unchanged", i);
        s.same(qb.array[i], b[i], "the right operand is unchanged", i);
    }
    s.nontrivial(rich(a, 4) && rich(b, 4));
}

template <class T>
void norms(Src& s)
{
    typedef vmml::Quaternion<T> Q;
    Gen<T> g(s, 16, 4);
    T a[4], b[4];
    fill(g, a, 4);
    fill(g, b, 4);
    s.show("a", a, 4);
    s.show("b", b, 4);
    Q qa(a[0], a[1], a[2], a[3]);
    const Q qb(b[0], b[1], b[2], b[3]);
    LD n2 = 0, dot = 0, dm = 0;
    for (int i = 0; i < 4; ++i)
    {
        n2 += (LD)a[i] * a[i];
        dot += (LD)a[i] * b[i];
        dm += fabsl((LD)a[i] * b[i]);
    }
    s.near(qa.squared_abs(), n2, n2, 6, "squared_abs()");
    s.near(qa.abs(), sqrtl(n2), sqrtl(n2), 6, "abs()");
    s.near(qa.dot(qb), dot, dm, 6, "a.dot(b)");
    s.near(Q::dot(qa, qb), dot, dm, 6, "dot(a, b)");
    const vmml::Vector<3, T> c = qa.cross(qb);
    for (int i = 0; i < 3; ++i)
    {
        const int j = (i + 1) % 3, k = (i + 2) % 3;
        s.near(c.array[i], (LD)a[j] * b[k] - (LD)a[k] * b[j],
               fabsl((LD)a[j] * b[k]) + fabsl((LD)a[k] * b[j]), 3, "cross()", i);
    }
    if (n2 == 0)
    {
        const T l = qa.normalize();
        s.same(l, T(0), "normalize() of zero");
        for (int i = 0; i < 4; ++i)
            s.same(qa.array[i], T(0), "normalized zero", i);
        return;
    }
    s.label(5);
    const Q inv = qa.inverse();
    for (int i = 0; i < 4; ++i)
    {
        const LD w = (i == 3 ? a[i] : -(LD)a[i]) / n2;
        s.near(inv.array[i], w, w, 10, "inverse()", i);
        s.same(qa.array[i], a[i], "inverse() leaves the quaternion", i);
    }
    const Q n = qa.get_normalized();
    const T f = qa.normalize();
    s.near(f, 1 / sqrtl(n2), 1 / sqrtl(n2), 8, "factor that normalize() returns");
    for (int i = 0; i < 4; ++i)
    {
        const LD w = a[i] / sqrtl(n2);
        s.near(qa.array[i], w, w, 10, "normalize()", i);
        s.near(n.array[i], w, w, 10, "get_normalized()", i);
    }
    s.nontrivial(rich(a, 4) && rich(b, 4));
}

template <class T>
void misc(Src& s)
{
    typedef vmml::Quaternion<T> Q;
    Gen<T> g(s, 16, 4);
    T a[4];
    fill(g, a, 4);
    s.show("a", a, 4);
    const Q q(a[0], a[1], a[2], a[3]);
    vmml::Vector<3, T> xyz(a[0], a[1], a[2]);
    Q r[5];
    s.expect(r[0].x() == 0 && r[0].y() == 0 && r[0].z() == 0 && r[0].w() == 1,
             "a default quaternion is the identity");
    for (int i = 0; i < 5; ++i)
        garbage(r[i].array, 4);
    r[0].set(a[0], a[1], a[2], a[3]);
    r[1].set(xyz, a[3]);
    std::list<T> l(a, a + 4);
    r[2].set(l.begin(), l.end());
    r[3] = vmml::Vector<4, T>(a[0], a[1], a[2], a[3]);
    r[4] = Q(xyz, a[3]);
    for (int i = 0; i < 4; ++i)
    {
        s.same(q.array[i], a[i], "Quaternion(x, y, z, w)", i);
        s.same(r[0].array[i], a[i], "set(x, y, z, w)", i);
        s.same(r[1].array[i], a[i], "set(xyz, w)", i);
        s.same(r[2].array[i], a[i], "set(begin, end)", i);
        s.same(r[3].array[i], a[i], "assignment of a Vector<4>", i);
        s.same(r[4].array[i], a[i], "Quaternion(xyz, w)", i);
        s.same(Q(xyz).array[i], i < 3 ? a[i] : T(0), "Quaternion(xyz)", i);
        s.same(q.at(i), a[i], "at()", i);
        s.same(q(i), a[i], "operator()", i);
    }
    s.same(q.x(), a[0], "x()");
    s.same(q.y(), a[1], "y()");
    s.same(q.z(), a[2], "z()");
    s.same(q.w(), a[3], "w()");
    s.label(7);
    // comparison
    T b[4] = {a[0], a[1], a[2], a[3]};
    const int at = (int)s.draw(4);
    if (s.coin())
        b[at] = g();
    const Q qb(b[0], b[1], b[2], b[3]);
    const bool eq = b[at] == a[at];
    s.same(q == qb, eq, "a == b");
    s.same(q != qb, !eq, "a != b");
    const vmml::Vector<4, T> vb(b[0], b[1], b[2], b[3]);
    s.same(q == vb, eq, "a == Vector<4>");
    s.same(q != vb, !eq, "a != Vector<4>");
    Q real(s.coin() ? T(0) : a[0], s.coin() ? T(0) : a[1], s.coin() ? T(0) : a[2], a[3]);
    // components which vanish when they are squared or added to another
    // still count
    if (s.chance(1, 3))
    {
        const int c = (int)s.draw(4);
        real.array[c] = (T)std::ldexp((T)(s.coin() ? 1 : -1),
                                      -(int)s.range(1, 1 - std::numeric_limits<T>::min_exponent));
        s.show("real", real.array, 4);
        Q r2 = real;
        s.expect(r2 == real && !(r2 != real), "a copy compares equal");
        r2.array[c] = s.coin() ? T(0) : T(2 * real.array[c]);
        s.expect(!(r2 == real) && r2 != real, "a tiny difference is a difference");
        const vmml::Vector<4, T> v2(r2.array[0], r2.array[1], r2.array[2], r2.array[3]);
        s.expect(!(real == v2) && real != v2, "a tiny difference to a Vector<4> is a difference");
    }
    const T t = s.coin() ? real.w() : s.coin() ? a[3] : b[3];
    const bool isT = real.x() == 0 && real.y() == 0 && real.z() == 0 && real.w() == t;
    s.same(real == t, isT, "a == scalar");
    s.same(real != t, !isT, "a != scalar");
    s.label(6);
    // is_akin
    Q near = q;
    // down to the precision of the components, and far beyond it
    static const double D[] = {1e-5, 1e-3, 0.1, 1, 1e-9, 1e-14, 1e-30, 1e30};
    const T delta = (T)D[s.draw(8)];
    static const double F[] = {0, 0.5, 0.9, 1.1, 2, -0.9, -1.1};
    LD worst = 0;
    for (int i = 0; i < 4; ++i)
    {
        near.array[i] += delta * (T)F[s.chance(3, 4) ? s.draw(3) : s.draw(7)];
        worst = std::max(worst, fabsl((LD)near.array[i] - q.array[i]));
    }
    s.show("near", near.array, 4);
    s.show("delta", delta);
    s.expect(Q(q).is_akin(q, T(0)) && Q(q).is_akin(q, delta), "is_akin() of itself");
    {
        // exactly as far apart as allowed, without any rounding
        const T unit = (T)std::ldexp(1.0, (int)s.zigzag(20));
        Q e, o;
        for (int i = 0; i < 4; ++i)
        {
            e.array[i] = unit * (T)s.zigzag(8);
            o.array[i] = e.array[i] + unit * (T)((int)s.draw(3) - 1);
        }
        s.expect(e.is_akin(o, unit) && o.is_akin(e, unit), "is_akin() exactly at delta");
        // equal but for one component, by the least or any difference
        Q f = q;
        const int k = (int)s.draw(4);
        T d = (T)std::ldexp(1.0, (int)s.zigzag(100));
        if (s.coin())
            f.array[k] = 0, d = s.coin() ? std::numeric_limits<T>::min() : d * d;
        const T least = f.array[k];
        f.array[k] += d;
        Q g = f;
        g.array[k] = least;
        if (f.array[k] != least)
            s.expect(!f.is_akin(g, T(0)) && !g.is_akin(f, T(0)), "is_akin() of unequal quaternions, delta 0");
        d = std::abs(f.array[k] - least);
        if ((LD)d == fabsl((LD)f.array[k] - least))
            s.expect(f.is_akin(g, d) && g.is_akin(f, d), "is_akin() of one component at delta");
        s.expect(!(d > 0) || !f.is_akin(g, d / 2) || d / 2 == d, "is_akin() of one component at half the distance");
    }
    // the difference may be rounded to the component type, but no further
    const LD slack = 2 * (LD)std::numeric_limits<T>::epsilon();
    if (worst < delta * (1 - slack))
        s.same(near.is_akin(q, delta), true, "is_akin() within delta");
    if (worst > delta * (1 + slack))
        s.same(near.is_akin(q, delta), false, "is_akin() beyond delta");
    Q z = q;
    z.zero();
    for (int i = 0; i < 4; ++i)
        s.same(z.array[i], T(0), "zero()", i);
    z.identity();
    s.expect(z == Q::IDENTITY && z == T(1), "identity()");
    const Q I = Q::QUATERI, J = Q::QUATERJ, K = Q::QUATERK;
    s.expect(I * J == K && J * K == I && K * I == J, "ij = k, jk = i, ki = j");
    s.expect(I * I == T(-1) && J * J == T(-1) && K * K == T(-1), "ii = jj = kk = -1");
    s.nontrivial(rich(a, 4));
}

PBT_REG("arith_f", (arith<float>), 48);
PBT_REG("arith_d", (arith<double>), 48);
PBT_REG("norms_f", (norms<float>));
PBT_REG("norms_d", (norms<double>));
PBT_REG("misc_f", (misc<float>));
PBT_REG("misc_d", (misc<double>));
