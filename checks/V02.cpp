// V02: products, lengths, distances and normalisation
#include <vmmlib/vector.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"zero vector", "degenerate triangle",
                                   "exact arithmetic", "free function", 0};
const char* const pbt::RULE =
    "Random vector pairs/triples (exact integers to 2^-24..2^24 magnitudes); "
    "every metric function is compared with a long double reference within a "
    "rounding-error bound; non-trivial = the vectors are non-zero and not all "
    "components equal.";
#endif

template <class T, size_t M>
bool rich(const T* a)
{
    bool d = M == 1;
    for (size_t i = 1; i < M; ++i)
        d = d || a[i] != a[0];
    return d;
}

template <size_t M, class T>
void metric(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, 20, 2);
    V a, b;
    fill(g, a.array, M);
    fill(g, b.array, M);
    if (s.chance(1, 40))
        for (size_t i = 0; i < M; ++i)
            a.array[i] = 0;
    const V a0 = a, b0 = b;
    if (g.exact())
        s.label(2);
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    LD dot = 0, dmag = 0, la = 0, dist = 0, prod = 1;
    for (size_t i = 0; i < M; ++i)
    {
        const LD x = a.array[i], y = b.array[i];
        dot += x * y;
        dmag += fabsl(x * y);
        la += x * x;
        dist += (x - y) * (x - y);
        prod *= x;
    }
    const LD k = M + 6;
    s.near(a.dot(b), dot, dmag, k, "a.dot(b)");
    s.near(dot == dot ? vmml::dot(a, b) : T(0), dot, dmag, k, "dot(a, b)");
    s.near(a.squared_length(), la, la, k, "squared_length()");
    s.near(a.length(), sqrtl(la), sqrtl(la), k, "length()");
    s.near((double)a.norm(), sqrtl(la),
           sqrtl(la) * (std::numeric_limits<T>::epsilon() /
                        std::numeric_limits<double>::epsilon()),
           k, "norm()");
    s.near(a.squared_distance(b), dist, dist, k, "squared_distance()");
    s.near(a.distance(b), sqrtl(dist), sqrtl(dist), k, "distance()");
    s.near(b.distance(a), sqrtl(dist), sqrtl(dist), k, "b.distance(a)");
    s.near(a.distance(a), 0, 0, k, "distance to itself");
    if (M <= 4 && g.unit() == 1)
        s.near(a.product(), prod, prod, k, "product()");
    s.near(a.dot(a), la, la, k, "a.dot(a)");

    // normalize
    V n = a;
    const T len = n.normalize();
    const V f = vmml::normalize(a);
    s.near(len, sqrtl(la), sqrtl(la), k, "value returned by normalize()");
    if (la == 0)
    {
        s.label(0);
        for (size_t i = 0; i < M; ++i)
        {
            s.same(n.array[i], T(0), "normalised zero vector", i);
            s.same(f.array[i], T(0), "normalize(zero vector)", i);
        }
    }
    else
        for (size_t i = 0; i < M; ++i)
        {
            const LD w = a0.array[i] / sqrtl(la);
            s.near(n.array[i], w, w, k + 4, "normalize() component", i);
            s.near(f.array[i], w, w, k + 4, "normalize(v) component", i);
        }
    for (size_t i = 0; i < M; ++i)
    {
        s.same(a.array[i], a0.array[i], "first operand unchanged", i);
        s.same(b.array[i], b0.array[i], "second operand unchanged", i);
    }
    s.nontrivial(la != 0 && dist != 0 && rich<T, M>(a.array));
}

template <class T>
void cross3(Src& s)
{
    typedef vmml::Vector<3, T> V;
    Gen<T> g(s, 24, 2);
    V a, b, r, r2;
    fill(g, a.array, 3);
    fill(g, b.array, 3);
    garbage(r.array, 3);
    garbage(r2.array, 3);
    const V a0 = a, b0 = b;
    s.show("a", a.array, 3);
    s.show("b", b.array, 3);
    r = a.cross(b);
    r2.cross(a, b);
    const V r3 = vmml::cross<3>(a, b);
    const V self = a.cross(a);
    for (size_t i = 0; i < 3; ++i)
    {
        const size_t j = (i + 1) % 3, k = (i + 2) % 3;
        const LD p = (LD)a0.array[j] * b0.array[k],
                 q = (LD)a0.array[k] * b0.array[j];
        const LD mag = fabsl(p) + fabsl(q);
        s.near(r.array[i], p - q, mag, 3, "a.cross(b)", i);
        s.near(r2.array[i], p - q, mag, 3, "r.cross(a, b)", i);
        s.near(r3.array[i], p - q, mag, 3, "cross(a, b)", i);
        s.near(self.array[i], 0,
               fabsl((LD)a0.array[j] * a0.array[k]), 3, "a x a", i);
        s.same(a.array[i], a0.array[i], "a unchanged", i);
        s.same(b.array[i], b0.array[i], "b unchanged", i);
    }
    s.nontrivial(rich<T, 3>(a.array) && rich<T, 3>(b.array));
}

template <class T>
void normal3(Src& s)
{
    typedef vmml::Vector<3, T> V;
    Gen<T> g(s, 12, 4);
    V p[3], r, r2;
    for (int i = 0; i < 3; ++i)
        fill(g, p[i].array, 3);
    if (s.chance(1, 20))
        p[2] = p[s.draw(2)];
    for (int i = 0; i < 3; ++i)
        s.show("p", p[i].array, 3);
    garbage(r.array, 3);
    r.compute_normal(p[0], p[1], p[2]);
    r2 = p[0].compute_normal(p[1], p[2]);
    // the target may be one of the corners; equal corners have no normal
    for (int k = 0; k < 3; ++k)
    {
        V t[3] = {p[0], p[1], p[2]};
        t[k].compute_normal(t[0], t[1], t[2]);
        for (int i = 0; i < 3; ++i)
            s.expect(t[k].array[i] == r.array[i] || r.array[i] != r.array[i],
                     "compute_normal() of a corner itself");
        const V d = k ? p[0].compute_normal(p[k], p[0]) : p[0].compute_normal(p[0], p[1]);
        s.expect(d.x() == 0 && d.y() == 0 && d.z() == 0, "compute_normal() with equal corners");
    }
    LD u[3], v[3], n[3], lu = 0, lv = 0, ln = 0;
    for (int i = 0; i < 3; ++i)
    {
        u[i] = (LD)p[1].array[i] - p[0].array[i];
        v[i] = (LD)p[2].array[i] - p[0].array[i];
        lu += u[i] * u[i];
        lv += v[i] * v[i];
    }
    for (int i = 0; i < 3; ++i)
    {
        n[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3];
        ln += n[i] * n[i];
    }
    ln = sqrtl(ln);
    const LD cond = ln > 0 ? sqrtl(lu) * sqrtl(lv) / ln : 1e30L;
    const LD eps = std::numeric_limits<T>::epsilon();
    if (lu == 0 || lv == 0)
    {
        // coinciding corners: no normal
        s.label(1);
        for (int i = 0; i < 3; ++i)
            s.same(r.array[i], T(0), "normal of coinciding points", i);
        return;
    }
    // a thin triangle leaves little of the cross product
    if (cond * eps > 1e-2L)
    {
        s.label(1);
        return;
    }
    for (int i = 0; i < 3; ++i)
    {
        s.within(r.array[i], n[i] / ln, 24 * eps * cond, "compute_normal(a,b,c)", i);
        s.within(r2.array[i], n[i] / ln, 24 * eps * cond, "a.compute_normal(b,c)", i);
    }
    s.nontrivial();
}

template <size_t M, class T>
void ints(Src& s)
{
    typedef vmml::Vector<M, T> V;
    // the sum of M squared differences is defined
    const int d = std::numeric_limits<T>::digits;
    int l = 0;
    while ((size_t(1) << l) < M)
        ++l;
    Gen<T> g(s, wraps<T>() ? d : (std::max(d, 31) - 1 - l) / 2 - 1);
    V a, b;
    fill(g, a.array, M);
    fill(g, b.array, M);
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    T dot = 0, la = 0, dist = 0;
    for (size_t i = 0; i < M; ++i)
    {
        const T x = a.array[i], y = b.array[i];
        dot += x * y;
        la += x * x;
        dist += (T)((x - y) * (x - y));
    }
    s.same(a.dot(b), dot, "a.dot(b)");
    s.same(vmml::dot(b, a), dot, "dot(b, a)");
    s.same(a.squared_length(), la, "squared_length()");
    s.same(a.squared_distance(b), dist, "squared_distance()");
    if ((LD)la < 4503599627370496.0L && (LD)dist < 4503599627370496.0L)
    {
        s.same(a.length(), (T)sqrtl(la), "length()");
        s.same(a.distance(b), (T)sqrtl(dist), "distance()");
    }
    // of any magnitude
    Gen<T> full(s, FULL);
    V big;
    fill(full, big.array, M);
    s.show("big", big.array, M);
    LD sq = 0;
    for (size_t i = 0; i < M; ++i)
        sq += (LD)big.array[i] * big.array[i];
    s.within(big.norm(), sqrtl(sq), (M + 4) * (LD)std::numeric_limits<double>::epsilon() * sqrtl(sq),
             "norm()");
    V c = a;
    T prod = 1;
    for (size_t i = 0; i < M; ++i)
    {
        c.array[i] = c.array[i] % (T)(M > 20 ? 2 : M > 5 ? 3 : 50);
        prod *= c.array[i];
    }
    s.same(c.product(), prod, "product()");
    s.nontrivial(la != 0 && dist != 0 && rich<T, M>(a.array));
}

// of vectors of another element type, whose precision the products have
template <class T, class TT>
void crossMixed(Src& s)
{
    Gen<TT> g(s, std::is_floating_point<TT>::value ? 24 : 10);
    vmml::Vector<3, TT> a, b;
    fill(g, a.array, 3);
    fill(g, b.array, 3);
    if (s.coin()) // almost parallel
    {
        b = a;
        b.array[s.draw(3)] += (TT)(s.coin() ? 1 : 0.001);
    }
    vmml::Vector<3, T> r;
    garbage(r.array, 3);
    s.show("a", a.array, 3);
    s.show("b", b.array, 3);
    r.cross(a, b);
    for (size_t i = 0; i < 3; ++i)
    {
        const size_t j = (i + 1) % 3, k = (i + 2) % 3;
        const LD p = (LD)a.array[j] * b.array[k], q = (LD)a.array[k] * b.array[j];
        const LD eps = std::numeric_limits<TT>::epsilon();
        s.within(r.array[i], p - q,
                 3 * eps * (fabsl(p) + fabsl(q)) +
                     (LD)std::numeric_limits<T>::epsilon() * fabsl(p - q),
                 "r.cross(a, b) of another type", i);
    }
    s.nontrivial(rich<TT, 3>(a.array) && rich<TT, 3>(b.array));
}

template <class T>
void intcross(Src& s)
{
    int bitsA, bitsB;
    productBits<T>(s, 2, bitsA, bitsB);
    Gen<T> g(s, bitsA), h(s, bitsB);
    vmml::Vector<3, T> a, b;
    fill(g, a.array, 3);
    fill(h, b.array, 3);
    s.show("a", a.array, 3);
    s.show("b", b.array, 3);
    const vmml::Vector<3, T> r = a.cross(b);
    for (size_t i = 0; i < 3; ++i)
    {
        const size_t j = (i + 1) % 3, k = (i + 2) % 3;
        s.same(r.array[i], (T)(a.array[j] * b.array[k] - a.array[k] * b.array[j]),
               "integer cross", i);
    }
    s.nontrivial(rich<T, 3>(a.array) && rich<T, 3>(b.array));
}

#if PBT_PART == 0
PBT_REG("metric_f2", metric<2, float>);
PBT_REG("metric_f3", metric<3, float>, 32);
PBT_REG("metric_f4", metric<4, float>);
PBT_REG("metric_f9", metric<9, float>, 8);
PBT_REG("metric_d1", metric<1, double>, 4);
PBT_REG("metric_d3", metric<3, double>, 32);
PBT_REG("metric_d4", metric<4, double>);
PBT_REG("metric_d6", metric<6, double>, 8);
PBT_REG("cross_f", cross3<float>, 32);
PBT_REG("cross_d", cross3<double>, 32);
PBT_REG("normal_f", normal3<float>, 32);
PBT_REG("normal_d", normal3<double>, 32);
PBT_REG("int3", ints<3, int>);
PBT_REG("int4", ints<4, int>);
PBT_REG("int64_5", ints<5, int64_t>);
PBT_REG("unsigned4", ints<4, unsigned>);
PBT_REG("intcross", intcross<int>);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("metric_1_float", (metric<1, float>), 3);
PBT_REG("metric_2_double", (metric<2, double>), 3);
PBT_REG("metric_5_float", (metric<5, float>), 3);
PBT_REG("metric_6_float", (metric<6, float>), 3);
PBT_REG("metric_7_float", (metric<7, float>), 3);
PBT_REG("metric_8_float", (metric<8, float>), 3);
PBT_REG("metric_16_float", (metric<16, float>), 3);
PBT_REG("metric_33_float", (metric<33, float>), 3);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("metric_5_double", (metric<5, double>), 3);
PBT_REG("metric_7_double", (metric<7, double>), 3);
PBT_REG("metric_8_double", (metric<8, double>), 3);
PBT_REG("metric_9_double", (metric<9, double>), 3);
PBT_REG("metric_12_double", (metric<12, double>), 3);
PBT_REG("metric_17_double", (metric<17, double>), 3);
PBT_REG("ints_1_int", (ints<1, int>), 2);
PBT_REG("ints_2_int", (ints<2, int>), 2);
PBT_REG("ints_5_int", (ints<5, int>), 2);
PBT_REG("ints_8_int", (ints<8, int>), 2);
PBT_REG("ints_17_int", (ints<17, int>), 2);
PBT_REG("ints_3_int64_t", (ints<3, int64_t>), 2);
PBT_REG("ints_2_unsigned", (ints<2, unsigned>), 2);
PBT_REG("cross_float_double", (crossMixed<float, double>), 2);
PBT_REG("cross_double_float", (crossMixed<double, float>), 2);
PBT_REG("cross_double_int", (crossMixed<double, int>), 2);
PBT_REG("cross_int64_int", (crossMixed<int64_t, int>), 2);
PBT_REG("intcross_int64_t", (intcross<int64_t>), 2);
PBT_REG("intcross_short", (intcross<short>), 2);
PBT_REG("metric_300_float", (metric<300, float>), 1);
PBT_REG("metric_257_double", (metric<257, double>), 1);
PBT_REG("ints_270_int", (ints<270, int>), 1);
#endif
