// G05: axis-aligned bounding boxes
#include <vmmlib/aabb.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"merge point", "merge box", "set", "scalar op",
                                   "setEmpty", "point on the surface", "inside",
                                   "outside", "sphere inside", "sphere outside",
                                   "flat in one direction", "inverted in one direction", 0};
const char* const pbt::RULE =
    "Random histories of box operations (float, double, int, unsigned) against a "
    "model of the two corners, with containment queries aimed at the surface; "
    "non-trivial = at least two merges or a query within the bounds.";

template <class T>
struct Model
{
    T lo[3], hi[3];
    bool empty() const
    {
        return lo[0] >= hi[0] || lo[1] >= hi[1] || lo[2] >= hi[2];
    }
};

template <class T>
struct AnyVec
{
    typedef vmml::Vector<3, T> V;
};

template <class T>
void verify(Src& s, const vmml::AABB<T>& b, const Model<T>& m, const char* what)
{
    for (int k = 0; k < 3; ++k)
    {
        s.same(b.getMin().array[k], m.lo[k], what, k);
        s.same(b.getMax().array[k], m.hi[k], what, 3 + k);
    }
}

template <class T>
LD relTol()
{
    return std::is_floating_point<T>::value
               ? 4 * (LD)std::numeric_limits<T>::epsilon()
               : 0;
}

template <class T>
void queries(Src& s, vmml::AABB<T>& b, const Model<T>& m, Gen<T>& g)
{
    typedef vmml::Vector<3, T> V;
    bool flat = false, inv = false;
    for (int k = 0; k < 3; ++k)
    {
        flat = flat || m.lo[k] == m.hi[k];
        inv = inv || m.lo[k] > m.hi[k];
    }
    s.same((int)b.isEmpty(), (int)m.empty(), "isEmpty()");
    if (flat)
        s.label(10);
    if (inv)
        s.label(11);
    // points: mixtures of corner coordinates, coordinates between and beyond
    for (int q = 0; q < 3; ++q)
    {
        T p[3];
        bool surface = false;
        for (int k = 0; k < 3; ++k)
        {
            switch (s.draw(6))
            {
            case 0:
                p[k] = m.lo[k];
                surface = true;
                break;
            case 1:
                p[k] = m.hi[k];
                surface = true;
                break;
            case 2:
            case 3:
                p[k] = (T)(m.lo[k] / 2 + m.hi[k] / 2);
                break;
            case 4:
                p[k] = s.coin() ? (T)(m.hi[k] + 1) : (T)(m.lo[k] - 1);
                break;
            default:
                p[k] = g();
            }
        }
        s.show("p", p, 3);
        bool in = true, in2 = true;
        for (int k = 0; k < 3; ++k)
        {
            const bool ok = p[k] >= m.lo[k] && p[k] <= m.hi[k];
            in = in && ok;
            if (k < 2)
                in2 = in2 && ok;
        }
        const V v(p[0], p[1], p[2]);
        s.same((int)b.isIn(v), (int)in, "isIn(point)");
        s.same((int)b.isIn2d(v), (int)in2, "isIn2d(point)");
        if (in && surface)
            s.label(5);
        s.label(in ? 6 : 7);
        s.nontrivial(in);
    }
    if (std::is_unsigned<T>::value)
        return;
    // a sphere is in the box if its extent along every axis is
    T c[4];
    for (int k = 0; k < 3; ++k)
        c[k] = s.coin() ? (T)(m.lo[k] / 2 + m.hi[k] / 2) : g();
    c[3] = (T)std::abs((long double)g());
    if (s.coin())
    {
        // as large as fits
        T r = 0;
        bool first = true;
        for (int k = 0; k < 3; ++k)
        {
            const LD room = std::min((LD)c[k] - m.lo[k], (LD)m.hi[k] - c[k]);
            if (first || room < (LD)r)
                r = (T)room;
            first = false;
        }
        if (r >= 0)
            c[3] = s.coin() ? r : (T)(r / 2);
    }
    s.show("sphere", c, 4);
    bool in = true, open = false;
    for (int k = 0; k < 3; ++k)
    {
        const LD up = (LD)c[k] + c[3], dn = (LD)c[k] - c[3];
        const LD tol = 3 * relTol<T>() * (fabsl((LD)c[k]) + c[3]) +
                       relTol<T>() * (fabsl((LD)m.hi[k]) + fabsl((LD)m.lo[k]));
        // exactly representable sums carry no error
        const bool ex = (LD)(T)up == up && (LD)(T)dn == dn &&
                        (LD)(T)(2 * (LD)c[3]) == 2 * (LD)c[3];
        const LD t = ex ? 0 : tol;
        if (up > m.hi[k] + t || dn < m.lo[k] - t)
            in = false;
        else if (up > m.hi[k] - t || dn < m.lo[k] + t)
            open = open || t > 0;
    }
    const bool got = b.isIn(vmml::Vector<4, T>(c[0], c[1], c[2], c[3]));
    if (!open || !in)
        s.same((int)got, (int)in, "isIn(sphere)");
    s.label(in ? 8 : 9);
}

template <class T>
void history(Src& s)
{
    typedef vmml::AABB<T> B;
    typedef vmml::Vector<3, T> V;
    const bool fp = std::is_floating_point<T>::value;
    // sums of a few coordinates and sizes do not wrap
    Gen<T> g(s, fp ? 10 : s.coin() ? 6 : std::numeric_limits<T>::digits - 5, 3);
    Model<T> m;
    B b;
    s.same((int)b.isEmpty(), 1, "a new box is empty");
    bool undefined = true; // an empty box has no defined corners
    int merges = 0;
    const int n = (int)s.range(1, 8);
    for (int step = 0; step < n; ++step)
    {
        T p[6];
        fill(g, p, 6);
        switch (s.draw(9))
        {
        case 0:
        case 1:
            s.show("merge point", p, 3);
            b.merge(V(p[0], p[1], p[2]));
            for (int k = 0; k < 3; ++k)
            {
                m.lo[k] = undefined ? p[k] : std::min(m.lo[k], p[k]);
                m.hi[k] = undefined ? p[k] : std::max(m.hi[k], p[k]);
            }
            undefined = false;
            ++merges;
            s.label(0);
            break;
        case 2:
        {
            for (int k = 0; k < 3; ++k)
                if (p[k] > p[3 + k])
                    std::swap(p[k], p[3 + k]);
            s.show("merge box", p, 6);
            B o;
            // the box itself, or one of its own corners, adds nothing
            if (!undefined && s.chance(1, 4))
            {
                bool ordered = true;
                for (int k = 0; k < 3; ++k)
                    ordered = ordered && m.lo[k] <= m.hi[k];
                const int own = (int)s.draw(ordered ? 5 : 1);
                s.show("merge of its own", own);
                const B& c = b;
                if (own == 0)
                    b.merge(b);
                else if (own == 1)
                    b.merge(b.getMin());
                else if (own == 2)
                    b.merge(b.getMax());
                else if (own == 3)
                    b = B(c.getMin(), c.getMax());
                else
                    b.set(c.getMin(), c.getMax());
                s.label(1);
                break;
            }
            const bool e = s.chance(1, 5);
            if (!e)
                o = B(V(p[0], p[1], p[2]), V(p[3], p[4], p[5]));
            b.merge(o);
            if (!e)
            {
                for (int k = 0; k < 3; ++k)
                {
                    m.lo[k] = undefined ? p[k] : std::min(m.lo[k], p[k]);
                    m.hi[k] = undefined ? p[3 + k] : std::max(m.hi[k], p[3 + k]);
                }
                undefined = false;
                ++merges;
            }
            else
                s.show("(empty)", 1);
            s.label(1);
            break;
        }
        case 3:
        {
            s.show("set", p, 6);
            if (s.coin())
                b.set(V(p[0], p[1], p[2]), V(p[3], p[4], p[5]));
            else
                b = B(V(p[0], p[1], p[2]), V(p[3], p[4], p[5]));
            for (int k = 0; k < 3; ++k)
            {
                m.lo[k] = p[k];
                m.hi[k] = p[3 + k];
            }
            undefined = false;
            s.label(2);
            break;
        }
        case 4:
        {
            // centre and half size; small, so that integers do not wrap
            const T sz = p[3] < 0 ? (T)-p[3] : p[3];
            if (std::is_unsigned<T>::value)
                for (int k = 0; k < 3; ++k)
                    p[k] = (T)(p[k] + sz);
            s.show("set centre", p, 3);
            s.show("size", sz);
            if (s.coin())
                b.set(p[0], p[1], p[2], sz);
            else if (s.coin())
                b = B(p[0], p[1], p[2], sz);
            else
                b = B(vmml::Vector<4, T>(p[0], p[1], p[2], sz));
            for (int k = 0; k < 3; ++k)
            {
                s.within(b.getMin().array[k], (LD)p[k] - sz,
                         relTol<T>() * (fabsl((LD)p[k]) + sz), "centre - size", k);
                s.within(b.getMax().array[k], (LD)p[k] + sz,
                         relTol<T>() * (fabsl((LD)p[k]) + sz), "centre + size", k);
                m.lo[k] = b.getMin().array[k];
                m.hi[k] = b.getMax().array[k];
            }
            undefined = false;
            s.label(2);
            break;
        }
        case 5:
            if (undefined)
                break;
            s.show("setMin/Max", p, 3);
            if (s.coin())
            {
                if (s.coin())
                    b.setMin(V(p[0], p[1], p[2]));
                else
                    b.getMin() = V(p[0], p[1], p[2]);
                for (int k = 0; k < 3; ++k)
                    m.lo[k] = p[k];
            }
            else
            {
                if (s.coin())
                    b.setMax(V(p[0], p[1], p[2]));
                else
                    b.getMax() = V(p[0], p[1], p[2]);
                for (int k = 0; k < 3; ++k)
                    m.hi[k] = p[k];
            }
            s.label(2);
            break;
        case 6:
            if (s.coin())
            {
                s.show("setEmpty", 1);
                b.setEmpty();
                s.same((int)b.isEmpty(), 1, "setEmpty() makes the box empty");
                undefined = true;
                s.label(4);
            }
            break;
        case 7:
        {
            if (undefined)
                break;
            const int op = (int)s.draw(4);
            T x = p[0];
            if (!fp)
            {
                // stay within the type
                x = (T)((long long)x % 4);
                bool big = false;
                for (int k = 0; k < 3; ++k)
                    big = big || std::abs((LD)m.lo[k]) > 4096 ||
                          std::abs((LD)m.hi[k]) > 4096 ||
                          (op == 1 && std::is_unsigned<T>::value &&
                           (m.lo[k] < x || m.hi[k] < x));
                if (big)
                    break;
            }
            if (op == 3 && x == 0)
                x = 1;
            s.show("op", op);
            s.show("x", x);
            B r;
            B c = b;
            const B& cb = b;
            switch (op)
            {
            case 0:
                r = cb + x;
                c += x;
                break;
            case 1:
                r = cb - x;
                c -= x;
                break;
            case 2:
                r = cb * x;
                c *= x;
                break;
            default:
                r = cb / x;
                c /= x;
            }
            verify(s, b, m, "the operand is unchanged");
            for (int k = 0; k < 6; ++k)
            {
                const LD o = k < 3 ? m.lo[k % 3] : m.hi[k % 3];
                const LD w = op == 0   ? o + x
                             : op == 1 ? o - x
                             : op == 2 ? o * x
                             : fp      ? o / x
                                       : truncl(o / x);
                const LD mag = op < 2 ? fabsl(o) + fabsl((LD)x) : fabsl(w);
                const T gr = (k < 3 ? r.getMin() : r.getMax()).array[k % 3];
                const T gc = (k < 3 ? c.getMin() : c.getMax()).array[k % 3];
                s.within(gr, w, relTol<T>() * mag + (fp ? 1e-30L : 0),
                         "box op scalar", k);
                s.within(gc, w, relTol<T>() * mag + (fp ? 1e-30L : 0),
                         "box op= scalar", k);
            }
            b = s.coin() ? r : c;
            for (int k = 0; k < 3; ++k)
            {
                m.lo[k] = b.getMin().array[k];
                m.hi[k] = b.getMax().array[k];
            }
            bool big = false;
            for (int k = 0; k < 3; ++k)
                big = big || std::abs((LD)m.lo[k]) > 1e7L || std::abs((LD)m.hi[k]) > 1e7L;
            s.label(3);
            if (big)
                return;
            break;
        }
        default:
        {
            if (undefined)
                break;
            // comparison
            const B& cb = b;
            B o(cb);
            s.expect(o == cb && !(o != cb), "a copy compares equal");
            const int k = (int)s.draw(6);
            V& side = k < 3 ? o.getMin() : o.getMax();
            T& value = side.array[k % 3];
            const T other = (T)(value + 1);
            value = other != value ? other : T(2 * value);
            s.expect(!(o == cb) && o != cb && !(cb == o) && cb != o,
                     "a box that differs in one coordinate compares different");
            break;
        }
        }
        if (undefined)
        {
            s.same((int)b.isEmpty(), 1, "still empty");
            continue;
        }
        verify(s, b, m, "corners");
        queries(s, b, m, g);
        bool proper = true;
        for (int k = 0; k < 3; ++k)
            proper = proper && m.lo[k] <= m.hi[k];
        if (proper)
        {
            const B& cb = b;
            const V c = cb.getCenter(), d = cb.getDimension();
            for (int k = 0; k < 3; ++k)
            {
                const LD mag = fabsl((LD)m.lo[k]) + fabsl((LD)m.hi[k]);
                s.within(d.array[k], (LD)m.hi[k] - m.lo[k], relTol<T>() * mag,
                         "getDimension()", k);
                s.within(c.array[k], ((LD)m.hi[k] + m.lo[k]) / 2,
                         fp ? relTol<T>() * mag : 0.5L, "getCenter()", k);
                s.expect(c.array[k] >= m.lo[k] && c.array[k] <= m.hi[k],
                         "the centre is inside");
            }
        }
        verify(s, b, m, "queries leave the box alone");
    }
    s.nontrivial(merges >= 2);
    const B u = B::makeUnitBox();
    for (int k = 0; k < 3; ++k)
    {
        s.same(u.getMin().array[k], 0, "makeUnitBox()", k);
        s.same(u.getMax().array[k], 1, "makeUnitBox()", k);
    }
}

// extreme points, including the limits of the type
template <class T>
void limits(Src& s)
{
    typedef vmml::Vector<3, T> V;
    const T big = std::numeric_limits<T>::max(), low = std::numeric_limits<T>::lowest();
    const T S[] = {low, big, 0, 1, T(big / 2), T(low / 2), T(big / 4 * 3), T(low / 4 * 3)};
    vmml::AABB<T> b;
    if (s.coin())
        b.setEmpty();
    T lo[3], hi[3];
    const int n = (int)s.range(1, 4);
    for (int i = 0; i < n; ++i)
    {
        T p[3];
        for (int k = 0; k < 3; ++k)
        {
            p[k] = S[s.draw(8)];
            lo[k] = i ? std::min(lo[k], p[k]) : p[k];
            hi[k] = i ? std::max(hi[k], p[k]) : p[k];
        }
        s.show("merge", p, 3);
        b.merge(V(p[0], p[1], p[2]));
    }
    for (int k = 0; k < 3; ++k)
    {
        s.same(b.getMin().array[k], lo[k], "minimum", k);
        s.same(b.getMax().array[k], hi[k], "maximum", k);
    }
    // the centre is the midpoint and the dimension the difference wherever the
    // dimension can be represented
    bool fits = true;
    for (int k = 0; k < 3; ++k)
        fits = fits && (LD)hi[k] - (LD)lo[k] <= (LD)big;
    if (fits)
    {
        const vmml::AABB<T>& cb = b;
        const V c = cb.getCenter(), d = cb.getDimension();
        for (int k = 0; k < 3; ++k)
        {
            const LD mag = fabsl((LD)lo[k]) / 2 + fabsl((LD)hi[k]) / 2;
            s.within(d.array[k], (LD)hi[k] - lo[k], 2 * relTol<T>() * mag, "getDimension()", k);
            s.within(c.array[k], (LD)hi[k] / 2 + (LD)lo[k] / 2,
                     std::is_floating_point<T>::value ? 2 * relTol<T>() * mag : 0.5L,
                     "getCenter()", k);
        }
    }
    s.nontrivial(n > 1);
}

PBT_REG("history_f", (history<float>));
PBT_REG("history_d", (history<double>));
PBT_REG("history_i", (history<int>));
PBT_REG("history_u", (history<unsigned>), 8);
PBT_REG("history_l", (history<int64_t>), 4);
PBT_REG("limits_l", (limits<int64_t>), 4);
PBT_REG("limits_b", (limits<int8_t>), 4);
PBT_REG("limits_ld", (limits<long double>), 4);
PBT_REG("limits_f", (limits<float>), 4);
PBT_REG("limits_d", (limits<double>), 4);
PBT_REG("limits_i", (limits<int>), 4);
PBT_REG("limits_u", (limits<unsigned>), 4);
