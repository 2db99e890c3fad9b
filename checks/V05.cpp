// V05: extremes, clamping, counting and element-wise maps
#include <vmmlib/util.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"all negative", "ties", "contains zero",
                                   "asymmetric range", "default arguments", 0};
const char* const pbt::RULE =
    "Random vectors with forced ties, signs, zeros and unit vectors through "
    "every extreme/clamp/map function against a loop over the components; "
    "non-trivial = the components are not all equal.";
#endif

template <size_t M, class T>
bool rich(const vmml::Vector<M, T>& v)
{
    for (size_t i = 1; i < M; ++i)
        if (v.array[i] != v.array[0])
            return true;
    return false;
}

template <size_t M, class T>
void extremes(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : 64, 1);
    V v;
    const int sign = (int)s.draw(4); // 0,1 any, 2 negative, 3 positive
    for (size_t i = 0; i < M; ++i)
    {
        v.array[i] = g();
        if (std::is_signed<T>::value && sign >= 2)
        {
            const T a = v.array[i] < 0 ? (T)(-v.array[i]) : v.array[i];
            v.array[i] = sign == 2 ? (T)(-a) : a;
        }
    }
    extreme(s, v.array, M);
    if (s.chance(1, 3))
        v.array[s.draw(M)] = v.array[s.draw(M)];
    s.show("v", v.array, M);
    if (sign == 2)
        s.label(0);
    T lo = v.array[0], hi = v.array[0];
    LD alo = fabsl(v.array[0]), ahi = alo;
    size_t nz = 0;
    for (size_t i = 0; i < M; ++i)
    {
        lo = std::min(lo, v.array[i]);
        hi = std::max(hi, v.array[i]);
        alo = std::min(alo, fabsl(v.array[i]));
        ahi = std::max(ahi, fabsl(v.array[i]));
        nz += v.array[i] != 0;
    }
    if (nz < M)
        s.label(2);
    const V& c = v;
    const V v0 = v;
    s.same(v.find_min(), lo, "find_min()");
    s.same(c.find_min(), lo, "const find_min()");
    s.same(v.find_max(), hi, "find_max()");
    s.same(c.find_max(), hi, "const find_max()");
    s.expect(c.find_min_index() < M && c.find_max_index() < M,
             "an extreme's index lies inside the vector");
    s.same(v.array[c.find_min_index()], lo, "find_min_index()");
    s.same(v.array[c.find_max_index()], hi, "find_max_index()");
    s.expect(c.find_abs_min_index() < M && c.find_abs_max_index() < M,
             "an index of a magnitude lies inside the vector");
    s.same(fabsl(v.array[c.find_abs_min_index()]), alo, "find_abs_min_index()");
    s.same(fabsl(v.array[c.find_abs_max_index()]), ahi, "find_abs_max_index()");
    // the first of equal ones
    size_t first[4] = {0, 0, 0, 0};
    for (size_t i = 1; i < M; ++i)
    {
        if (v.array[i] < v.array[first[0]])
            first[0] = i;
        if (v.array[i] > v.array[first[1]])
            first[1] = i;
        if (fabsl(v.array[i]) < fabsl(v.array[first[2]]))
            first[2] = i;
        if (fabsl(v.array[i]) > fabsl(v.array[first[3]]))
            first[3] = i;
    }
    s.same((long long)c.find_min_index(), (long long)first[0], "first find_min_index()");
    s.same((long long)c.find_max_index(), (long long)first[1], "first find_max_index()");
    s.same((long long)c.find_abs_min_index(), (long long)first[2], "first find_abs_min_index()");
    s.same((long long)c.find_abs_max_index(), (long long)first[3], "first find_abs_max_index()");
    s.same(c.nnz(), nz, "nnz()");
    for (size_t i = 0; i < M; ++i)
        s.same(v.array[i], v0.array[i], "searching leaves the vector alone", i);
    // the mutable extremes refer to the component
    T& r = v.find_max();
    s.expect(&r >= v.array && &r < v.array + M, "find_max() refers to a component");
    T& q = v.find_min();
    s.expect(&q >= v.array && &q < v.array + M, "find_min() refers to a component");
    s.nontrivial(rich(v));
}

template <size_t M, class T>
void clampMap(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL);
    V v, w;
    fill(g, v.array, M);
    s.show("v", v.array, M);
    T a = g(), b = g();
    if (b < a)
        std::swap(a, b);
    const bool dflt = s.chance(1, 4);
    if (dflt)
    {
        a = 0;
        b = 1;
        s.label(4);
    }
    s.show("lo", a);
    s.show("hi", b);
    w = v;
    if (dflt)
        w.clamp();
    else
        w.clamp(a, b);
    for (size_t i = 0; i < M; ++i)
        s.same(w.array[i], std::min(std::max(v.array[i], a), b), "clamp()", i);

    // is_unit_vector: one component 1, the others 0
    w = v;
    if (s.coin())
    {
        for (size_t i = 0; i < M; ++i)
            w.array[i] = 0;
        w.array[s.draw(M)] = s.chance(1, 8) ? g() : T(1);
        if (s.chance(1, 3))
            w.array[s.draw(M)] = s.coin() ? T(1) : g();
    }
    size_t ones = 0, zeros = 0;
    for (size_t i = 0; i < M; ++i)
    {
        ones += w.array[i] == 1;
        zeros += w.array[i] == 0;
    }
    s.show("w", w.array, M);
    s.same(w.is_unit_vector(), ones == 1 && zeros == M - 1, "is_unit_vector()");
    s.nontrivial(rich(v));
}

template <size_t M, class T>
void maps(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, 24);
    V v, w;
    fill(g, v.array, M);
    s.show("v", v.array, M);
    w = v;
    w.reciprocal_safe();
    bool zero = false;
    for (size_t i = 0; i < M; ++i)
        if (v.array[i] == 0)
        {
            s.same(w.array[i], std::numeric_limits<T>::max(), "reciprocal_safe() of 0", i);
            zero = true;
        }
        else
            s.near(w.array[i], 1 / (LD)v.array[i], 1 / (LD)v.array[i], 2,
                   "reciprocal_safe()", i);
    if (zero)
        s.label(2);
    else
    {
        w = v;
        w.reciprocal();
        for (size_t i = 0; i < M; ++i)
            s.near(w.array[i], 1 / (LD)v.array[i], 1 / (LD)v.array[i], 2, "reciprocal()", i);
    }
    for (size_t i = 0; i < M; ++i)
        v.array[i] = std::fabs(v.array[i]);
    w = v;
    w.sqrt_elementwise();
    for (size_t i = 0; i < M; ++i)
        s.near(w.array[i], sqrtl(v.array[i]), sqrtl(v.array[i]), 2, "sqrt_elementwise()", i);
    s.nontrivial(rich(v));
}

// [min, max] is mapped linearly onto [0, the largest value of the target type]
template <size_t M, class T, class TT>
void scaleTo(Src& s)
{
    vmml::Vector<M, T> v;
    vmml::Vector<M, TT> r;
    garbage(r.array, M);
    T lo = -1, hi = 1;
    const bool dflt = s.chance(1, 3);
    if (!dflt)
    {
        static const T L[] = {-1, 0, -2, 0.5, -10, -0.25, 3, 0};
        static const T R[] = {2, 1, 2, 1.5, 4, 0.75, 1, 100};
        const size_t i = s.draw(8);
        lo = L[i];
        hi = lo + R[i];
    }
    if (lo != -hi)
        s.label(3);
    const bool flt = std::is_floating_point<TT>::value;
    for (size_t i = 0; i < M; ++i)
        switch (s.draw(6))
        {
        case 0:
            v.array[i] = lo;
            break;
        case 1:
            v.array[i] = (lo + hi) / 2;
            break;
        case 2:
            v.array[i] = lo + (hi - lo) * T(0.996);
            break;
        default:
            v.array[i] = lo + (hi - lo) * (T)(s.unit53() * 0.999);
            // close to the lower end
            if (flt && s.chance(1, 3))
                v.array[i] = lo + (hi - lo) * (T)std::ldexp(1 + s.unit53(), -(int)s.range(3, 40));
        }
    s.show("v", v.array, M);
    s.show("min", lo);
    s.show("max", hi);
    if (dflt)
        v.scale_to(r);
    else
        v.scale_to(r, lo, hi);
    const LD top = std::numeric_limits<TT>::max();
    const LD slack = top * 64 * std::numeric_limits<T>::epsilon() *
                     (1 + (fabsl(lo) + fabsl(hi)) / ((LD)hi - lo));
    for (size_t i = 0; i < M; ++i)
    {
        const LD want = ((LD)v.array[i] - lo) / ((LD)hi - lo) * top;
        // the fraction may be cut off or rounded
        if (flt)
            s.near(r.array[i], want,
                   want + top * (LD)std::numeric_limits<T>::epsilon() /
                              (LD)std::numeric_limits<TT>::epsilon() *
                              (fabsl(lo) + fabsl(hi)) / ((LD)hi - lo),
                   16, "scale_to() of a floating type", i);
        else
            s.within(r.array[i], want, 1 + slack, "scale_to()", i);
    }
    s.nontrivial(rich(v));
}

// the same of integers
template <size_t M, class T, class TT>
void scaleInt(Src& s)
{
    Gen<T> g(s, FULL);
    vmml::Vector<M, T> v;
    vmml::Vector<M, TT> r;
    garbage(r.array, M);
    T lo = g(), hi = g();
    if (hi < lo)
        std::swap(lo, hi);
    if (lo == hi && lo > std::numeric_limits<T>::max() - 60)
        lo = (T)(lo - 1 - s.draw(60));
    else if (lo == hi)
        hi = (T)(lo + 1 + s.draw(60));
    for (size_t i = 0; i < M; ++i)
        switch (s.draw(4))
        {
        case 0:
            v.array[i] = lo;
            break;
        case 1:
            v.array[i] = hi;
            break;
        default:
            v.array[i] = (T)((uint64_t)lo + s.draw((uint64_t)hi - (uint64_t)lo + 1));
        }
    if ((LD)lo != -(LD)hi)
        s.label(3);
    s.show("v", v.array, M);
    s.show("min", lo);
    s.show("max", hi);
    v.scale_to(r, lo, hi);
    const LD top = std::numeric_limits<TT>::max();
    for (size_t i = 0; i < M; ++i)
    {
        const LD want = ((LD)v.array[i] - lo) / ((LD)hi - lo) * top;
        s.within(r.array[i], want, 1 + top * 64 * (LD)std::numeric_limits<double>::epsilon(),
                 "scale_to() of integers", i);
    }
    s.nontrivial(rich(v));
}

template <size_t M, class T>
void randoms(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, 10);
    V v, w;
    const int seed = 1 + (int)s.draw(1 << 16);
    s.show("seed", seed);
    garbage(v.array, M);
    garbage(w.array, M);
    v.set_random(seed);
    w.set_random(seed + 1);
    bool differ = false;
    for (size_t i = 0; i < M; ++i)
    {
        s.expect(v.array[i] >= -1 && v.array[i] <= 1, "set_random() stays within [-1, 1]");
        differ = differ || v.array[i] != w.array[i];
    }
    w.set_random(seed);
    for (size_t i = 0; i < M; ++i)
        s.same(w.array[i], v.array[i], "set_random() with a seed is reproducible", i);
    s.expect(differ, "set_random() depends on its seed");
    // perturb
    V a;
    fill(g, a.array, M);
    const T p = (T)(0.0625 * (double)s.range(1, 64));
    V b = a;
    srand((unsigned)seed);
    const bool dflt = s.coin();
    if (dflt)
        b.perturb();
    else
        b.perturb(p);
    const LD q = dflt ? 0.0001L : (LD)p;
    s.show("a", a.array, M);
    s.show("perturbation", (double)q);
    for (size_t i = 0; i < M; ++i)
    {
        const LD d = fabsl((LD)b.array[i] - a.array[i]);
        s.within(d, q,
                 4 * std::numeric_limits<T>::epsilon() *
                     (fabsl(a.array[i]) + q),
                 "perturb() moves a component by the perturbation", i);
    }
    s.nontrivial();
}

template <size_t M, class T>
void utils(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : sumBits<T>(M));
    V a, b;
    fill(g, a.array, M);
    fill(g, b.array, M);
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    const V lo = vmml::min(a, b), hi = vmml::max(a, b);
    LD sum = 0;
    for (size_t i = 0; i < M; ++i)
    {
        s.same(lo.array[i], std::min(a.array[i], b.array[i]), "min(a, b)", i);
        s.same(hi.array[i], std::max(a.array[i], b.array[i]), "max(a, b)", i);
        sum += fabsl(a.array[i]);
    }
    if (std::is_integral<T>::value) // of narrow types it wraps
        s.same(vmml::manhattan(a), (T)(uint64_t)sum, "manhattan()");
    else
        s.near(vmml::manhattan(a), sum, sum, M + 2, "manhattan()");
    V z = a;
    vmml::zero(z);
    for (size_t i = 0; i < M; ++i)
        s.same(z.array[i], T(0), "zero()", i);
    s.nontrivial(rich(a));
}

#if PBT_PART == 0
PBT_REG("extremes_f3", extremes<3, float>);
PBT_REG("extremes_f4", extremes<4, float>);
PBT_REG("extremes_d7", extremes<7, double>);
PBT_REG("extremes_i4", extremes<4, int>);
PBT_REG("extremes_i2", extremes<2, int>);
PBT_REG("clamp_f3", clampMap<3, float>);
PBT_REG("clamp_d4", clampMap<4, double>);
PBT_REG("clamp_i3", clampMap<3, int>);
PBT_REG("maps_f3", maps<3, float>);
PBT_REG("maps_d5", maps<5, double>);
PBT_REG("scale_f_u8", (scaleTo<3, float, uint8_t>));
PBT_REG("scale_f_f", (scaleTo<3, float, float>));
PBT_REG("scale_d_f32", (scaleTo<4, double, float>));
PBT_REG("scale_d_d", (scaleTo<3, double, double>));
PBT_REG("scale_d_u8", (scaleTo<4, double, uint8_t>));
PBT_REG("scale_f_u16", (scaleTo<2, float, uint16_t>));
PBT_REG("scale_d_int", (scaleTo<3, double, int>));
PBT_REG("scale_d_f", (scaleTo<3, double, int16_t>));
PBT_REG("random_f3", randoms<3, float>, 4);
PBT_REG("random_d6", randoms<6, double>, 4);
PBT_REG("utils_f3", utils<3, float>);
PBT_REG("utils_d4", utils<4, double>);
PBT_REG("utils_i3", utils<3, int>);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("extremes_1_int", (extremes<1, int>), 4);
PBT_REG("extremes_2_float", (extremes<2, float>), 4);
PBT_REG("extremes_3_double", (extremes<3, double>), 4);
PBT_REG("extremes_5_float", (extremes<5, float>), 4);
PBT_REG("extremes_6_int", (extremes<6, int>), 4);
PBT_REG("extremes_8_float", (extremes<8, float>), 4);
PBT_REG("extremes_9_double", (extremes<9, double>), 4);
PBT_REG("extremes_16_int", (extremes<16, int>), 4);
PBT_REG("extremes_17_float", (extremes<17, float>), 4);
PBT_REG("extremes_5_int64_t", (extremes<5, int64_t>), 4);
PBT_REG("extremes_4_unsigned", (extremes<4, unsigned>), 4);
PBT_REG("extremes_3_uint8_t", (extremes<3, uint8_t>), 4);
PBT_REG("extremes_4_int16_t", (extremes<4, int16_t>), 4);
PBT_REG("clampMap_3_unsigned", (clampMap<3, unsigned>), 4);
PBT_REG("clampMap_4_uint8_t", (clampMap<4, uint8_t>), 4);
PBT_REG("clampMap_2_int64_t", (clampMap<2, int64_t>), 4);
PBT_REG("utils_3_int64_t", (utils<3, int64_t>), 4);
PBT_REG("scaleInt_3_int_uint8", (scaleInt<3, int, uint8_t>), 4);
PBT_REG("scaleInt_4_uint8_uint16", (scaleInt<4, uint8_t, uint16_t>), 4);
PBT_REG("scaleInt_2_unsigned_int16", (scaleInt<2, unsigned, int16_t>), 4);
PBT_REG("scaleInt_3_int16_int", (scaleInt<3, int16_t, int>), 4);
PBT_REG("scaleTo_3_float_int", (scaleTo<3, float, int>), 4);
PBT_REG("utils_3_unsigned", (utils<3, unsigned>), 4);
PBT_REG("utils_4_uint8_t", (utils<4, uint8_t>), 4);
PBT_REG("clampMap_1_float", (clampMap<1, float>), 4);
PBT_REG("clampMap_2_double", (clampMap<2, double>), 4);
PBT_REG("clampMap_4_float", (clampMap<4, float>), 4);
PBT_REG("clampMap_5_int", (clampMap<5, int>), 4);
PBT_REG("clampMap_7_float", (clampMap<7, float>), 4);
PBT_REG("clampMap_8_double", (clampMap<8, double>), 4);
PBT_REG("clampMap_16_float", (clampMap<16, float>), 4);
PBT_REG("clampMap_17_int", (clampMap<17, int>), 4);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("maps_1_float", (maps<1, float>), 4);
PBT_REG("maps_2_float", (maps<2, float>), 4);
PBT_REG("maps_3_double", (maps<3, double>), 4);
PBT_REG("maps_4_float", (maps<4, float>), 4);
PBT_REG("maps_6_double", (maps<6, double>), 4);
PBT_REG("maps_7_float", (maps<7, float>), 4);
PBT_REG("maps_8_double", (maps<8, double>), 4);
PBT_REG("maps_9_float", (maps<9, float>), 4);
PBT_REG("maps_17_double", (maps<17, double>), 4);
PBT_REG("scaleTo_1_double_uint8_t", (scaleTo<1, double, uint8_t>), 4);
PBT_REG("scaleTo_4_float_uint8_t", (scaleTo<4, float, uint8_t>), 4);
PBT_REG("scaleTo_5_float_uint16_t", (scaleTo<5, float, uint16_t>), 4);
PBT_REG("scaleTo_8_double_int16_t", (scaleTo<8, double, int16_t>), 4);
PBT_REG("scaleTo_9_float_int8_t", (scaleTo<9, float, int8_t>), 4);
PBT_REG("scaleTo_17_double_int", (scaleTo<17, double, int>), 4);
PBT_REG("randoms_1_float", (randoms<1, float>), 1);
PBT_REG("randoms_2_double", (randoms<2, double>), 1);
PBT_REG("randoms_4_float", (randoms<4, float>), 1);
PBT_REG("randoms_5_float", (randoms<5, float>), 1);
PBT_REG("randoms_9_double", (randoms<9, double>), 1);
PBT_REG("randoms_17_float", (randoms<17, float>), 1);
PBT_REG("utils_1_float", (utils<1, float>), 4);
PBT_REG("utils_2_double", (utils<2, double>), 4);
PBT_REG("utils_4_float", (utils<4, float>), 4);
PBT_REG("utils_5_double", (utils<5, double>), 4);
PBT_REG("utils_6_int", (utils<6, int>), 4);
PBT_REG("utils_8_float", (utils<8, float>), 4);
PBT_REG("utils_9_double", (utils<9, double>), 4);
PBT_REG("utils_17_float", (utils<17, float>), 4);
PBT_REG("extremes_300_float", (extremes<300, float>), 1);
PBT_REG("clampMap_260_int", (clampMap<260, int>), 1);
PBT_REG("maps_300_double", (maps<300, double>), 1);
PBT_REG("scaleTo_260_float_uchar", (scaleTo<260, float, unsigned char>), 1);
PBT_REG("utils_300_float", (utils<300, float>), 1);
#endif
