// Q03: spherical linear interpolation
#include <vmmlib/quaternion.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"start", "end", "inside", "shorter way round",
                                   "nearly equal", "nearly opposite", "equal",
                                   "not unit length", "orthogonal", 0};
const char* const pbt::RULE =
    "Random pairs of quaternions (general, nearly equal, nearly opposite, "
    "orthogonal, not of unit length) and parameters in [0, 1] against the slerp "
    "formula in long double; non-trivial = the parameter is inside and the angle "
    "is not zero.";

template <class T>
void slerp(Src& s)
{
    typedef vmml::Quaternion<T> Q;
    T p[4], q[4];
    unitVec<T, 4>(s, p);
    const int kind = (int)s.draw(6);
    if (kind <= 2)
        unitVec<T, 4>(s, q);
    else if (kind == 3 || kind == 4)
    {
        const LD d = powl(10, -(LD)s.range(1, 9));
        LD n = 0, w[4];
        for (int i = 0; i < 4; ++i)
        {
            w[i] = (kind == 3 ? 1 : -1) * (LD)p[i] + d * (2 * s.unit53() - 1);
            n += w[i] * w[i];
        }
        for (int i = 0; i < 4; ++i)
            q[i] = (T)(w[i] / sqrtl(n));
        s.label(kind + 1);
    }
    else
    {
        const bool neg = s.coin();
        for (int i = 0; i < 4; ++i)
            q[i] = neg ? -p[i] : p[i];
        s.label(6);
    }
    if (s.chance(1, 3))
    {
        const int e = s.chance(1, 3) ? 40 : 8;
        const T f = (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(e));
        const T h = (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(e));
        for (int i = 0; i < 4; ++i)
        {
            p[i] *= f;
            q[i] *= h;
        }
        s.label(7);
    }
    T a;
    switch (s.draw(4))
    {
    case 0:
        a = 0;
        s.label(0);
        break;
    case 1:
        a = 1;
        s.label(1);
        break;
    default:
        a = (T)s.unit53();
        if (s.chance(1, 4))
        {
            // next to an end
            const T d = (T)std::ldexp(1 + s.unit53(), -(int)s.range(3, std::numeric_limits<T>::digits));
            a = s.coin() ? d : 1 - d;
        }
        s.label(2);
    }
    s.show("p", p, 4);
    s.show("q", q, 4);
    s.show("a", a);
    LD np = 0, nq = 0, c = 0;
    for (int i = 0; i < 4; ++i)
    {
        np += (LD)p[i] * p[i];
        nq += (LD)q[i] * q[i];
        c += (LD)p[i] * q[i];
    }
    np = sqrtl(np);
    nq = sqrtl(nq);
    c /= np * nq;
    LD flip = 1;
    const LD eps = std::numeric_limits<T>::epsilon();
    if (fabsl(c) < 16 * eps)
    {
        s.label(8);
        return; // both ways round are equally long
    }
    if (c < 0)
    {
        flip = -1;
        s.label(3);
    }
    // angle from the chord, accurate for small angles too
    LD ch = 0, su = 0;
    for (int i = 0; i < 4; ++i)
    {
        const LD x = p[i] / np, y = flip * q[i] / nq;
        ch += (x - y) * (x - y);
        su += (x + y) * (x + y);
    }
    const LD th = 2 * atan2l(sqrtl(ch), sqrtl(su));
    LD c1, c2;
    if (th < 1e-15L)
    {
        c1 = 1 - (LD)a;
        c2 = a;
    }
    else
    {
        c1 = sinl((1 - (LD)a) * th) / sinl(th);
        c2 = sinl((LD)a * th) / sinl(th);
    }
    const Q qp(p[0], p[1], p[2], p[3]), qq(q[0], q[1], q[2], q[3]);
    const Q r = Q::slerp(a, qp, qq);
    LD n = 0;
    for (int i = 0; i < 4; ++i)
    {
        const LD w = c1 * p[i] / np + c2 * flip * q[i] / nq;
        s.within(r.array[i], w, 64 * eps, "slerp()", i);
        n += (LD)r.array[i] * r.array[i];
    }
    s.within(n, 1, 128 * eps, "slerp() gives a unit quaternion");
    // from a quaternion to itself: all the way through it
    const Q own = Q::slerp(a, qp, qp);
    for (int i = 0; i < 4; ++i)
        s.within(own.array[i], p[i] / np, 64 * eps, "slerp() from a quaternion to itself", i);
    // the same path from the other end
    const Q b = Q::slerp((T)(1 - a), qq, qp);
    LD dot = 0;
    for (int i = 0; i < 4; ++i)
        dot += (LD)b.array[i] * r.array[i];
    s.within(fabsl(dot), 1, 128 * eps, "slerp() from the other end");
    for (int i = 0; i < 4; ++i)
    {
        s.same(qp.array[i], p[i], "the operands are unchanged", i);
        s.same(qq.array[i], q[i], "the operands are unchanged", i);
    }
    s.nontrivial(a > 0 && a < 1 && th > 1e-7L);
}

// a generous epsilon switches to linear interpolation: still unit length, on
// the arc, and exact at the ends
template <class T>
void coarse(Src& s)
{
    typedef vmml::Quaternion<T> Q;
    T p[4], q[4];
    unitVec<T, 4>(s, p);
    unitVec<T, 4>(s, q);
    const T e = (T)(s.coin() ? 0.5 : 1e-3);
    const T a = (T)s.unit53();
    s.show("p", p, 4);
    s.show("q", q, 4);
    s.show("a", a);
    s.show("epsilon", e);
    const Q qp(p[0], p[1], p[2], p[3]), qq(q[0], q[1], q[2], q[3]);
    const Q r = Q::slerp(a, qp, qq, e);
    const LD eps = std::numeric_limits<T>::epsilon();
    LD n = 0, c = 0, rp = 0, rq = 0;
    for (int i = 0; i < 4; ++i)
    {
        n += (LD)r.array[i] * r.array[i];
        c += (LD)p[i] * q[i];
        rp += (LD)r.array[i] * p[i];
        rq += (LD)r.array[i] * q[i];
    }
    if (fabsl(c) < 16 * eps)
        return;
    s.within(n, 1, 128 * eps, "slerp() gives a unit quaternion");
    // the angles to both ends add up to the angle between them
    const LD th = acosl(std::min(1.0L, fabsl(c)));
    const LD t1 = acosl(std::max(-1.0L, std::min(1.0L, rp)));
    const LD t2 = acosl(std::max(-1.0L, std::min(1.0L, c < 0 ? -rq : rq)));
    s.within(t1 + t2, th, 64 * sqrtl(eps), "the result is on the arc");
    s.nontrivial(th > 1e-3L && a > 0);
}

PBT_REG("slerp_f", (slerp<float>));
PBT_REG("slerp_d", (slerp<double>));
PBT_REG("coarse_f", (coarse<float>), 4);
PBT_REG("coarse_d", (coarse<double>), 4);
