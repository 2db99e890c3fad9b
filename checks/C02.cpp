// C02: scalar and vector helpers, and the version comparisons
#include <vmmlib/math.hpp>
#include <vmmlib/util.hpp>
#include "generated_version.hpp" // from vmmlib/version.in.hpp

// the version of the running library is a variable here
#undef VMMLIB_VERSION_MAJOR
#undef VMMLIB_VERSION_MINOR
#undef VMMLIB_VERSION_PATCH
static int curMajor, curMinor, curPatch;
#define VMMLIB_VERSION_MAJOR curMajor
#define VMMLIB_VERSION_MINOR curMinor
#define VMMLIB_VERSION_PATCH curPatch

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"overflow range", "underflow range", "a zero leg",
                                   "same version", "version differs in the last part",
                                   "version differs in the middle part", 0};
const char* const pbt::RULE =
    "Random values over the whole exponent range for the helpers, random pairs of "
    "versions (mostly close to each other) for the comparisons; non-trivial = "
    "both arguments non-zero, or the versions differ.";
#endif

template <class T>
T wide(Src& s)
{
    const int E = std::numeric_limits<T>::max_exponent - 2;
    T v;
    switch (s.draw(5))
    {
    case 0:
        v = (T)s.zigzag(20);
        break;
    case 1:
        v = (T)(2 * s.unit53() - 1);
        break;
    case 2:
        v = (T)std::ldexp(1 + s.unit53(), (int)s.range(E / 2, E - 1));
        s.label(0);
        break;
    case 3:
        v = (T)std::ldexp(1 + s.unit53(), -(int)s.range(E / 2, E - 3));
        s.label(1);
        break;
    default:
        v = (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(E - 3));
    }
    return s.coin() ? -v : v;
}

template <class T>
void math(Src& s)
{
    T a = wide<T>(s), b = wide<T>(s);
    if (s.chance(1, 6))
        b = s.coin() ? a : -a;
    if (a == 0 || b == 0)
        s.label(2);
    s.show("a", a);
    s.show("b", b);
    const LD h = hypotl(a, b);
    s.near(vmml::math::pythag(a, b), h, h, 8, "pythag()");
    s.near(vmml::math::pythag(b, a), h, h, 8, "pythag() with the legs swapped");
    s.near(vmml::math::pythag((T)-a, b), h, h, 8, "pythag() with a negative leg");
    if (std::fabs(a) < std::ldexp(T(1), std::numeric_limits<T>::max_exponent / 2 - 2))
        s.near(vmml::math::squared(a), (LD)a * a, (LD)a * a, 2, "squared()");
    s.same(vmml::math::sign(a, b), b >= 0 ? std::fabs(a) : -std::fabs(a), "sign()");
    vmml::math::abs_less<T> less;
    vmml::math::abs_greater<T> greater;
    s.same((int)less(a, b), (int)(std::fabs(a) < std::fabs(b)), "abs_less");
    s.same((int)greater(a, b), (int)(std::fabs(a) > std::fabs(b)), "abs_greater");
    s.nontrivial(a != 0 && b != 0);
}

template <class T>
void integers(Src& s)
{
    Gen<T> g(s, 64), h(s, (std::numeric_limits<T>::digits - 1) / 2);
    const T a = g(), b = g(), c = h();
    s.show("a", a);
    s.show("b", b);
    s.show("c", c);
    s.same(vmml::math::squared(c), (T)(c * c), "squared()");
    s.same(vmml::math::sign(a, b), (T)(b >= 0 ? std::abs(a) : -std::abs(a)), "sign()");
    vmml::math::abs_less<T> less;
    vmml::math::abs_greater<T> greater;
    s.same((int)less(a, b), (int)(std::abs(a) < std::abs(b)), "abs_less");
    s.same((int)greater(a, b), (int)(std::abs(a) > std::abs(b)), "abs_greater");
    s.nontrivial(a != 0 && b != 0);
}

template <size_t M, class T>
void vectors(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : sumBits<T>(M));
    V a, b;
    fill(g, a.array, M);
    fill(g, b.array, M);
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    const V ca(a), cb(b);
    const V lo = vmml::min(ca, cb), hi = vmml::max(ca, cb);
    LD sum = 0;
    uint64_t usum = 0; // sums of integers wrap
    bool differ = false;
    for (size_t i = 0; i < M; ++i)
    {
        s.same(lo.array[i], std::min(a.array[i], b.array[i]), "min()", i);
        s.same(hi.array[i], std::max(a.array[i], b.array[i]), "max()", i);
        sum += fabsl((LD)a.array[i]);
        if (std::is_integral<T>::value)
            usum += (uint64_t)(a.array[i] < 0 ? -a.array[i] : a.array[i]);
        differ = differ || a.array[i] != b.array[i];
    }
    if (std::is_integral<T>::value)
        s.same(vmml::manhattan(ca), (T)usum, "manhattan()");
    else
        s.near(vmml::manhattan(ca), sum, sum, std::is_floating_point<T>::value ? (LD)M : 0,
               "manhattan()");
    vmml::zero(b);
    for (size_t i = 0; i < M; ++i)
        s.same(b.array[i], 0, "zero()", i);
    for (size_t i = 0; i < M; ++i)
        s.same(ca.array[i], a.array[i], "the operands are unchanged", i);
    s.nontrivial(differ);
}

// equals(x, y): |x - y| below the resolution of a float
template <class T>
void closeTo(Src& s)
{
    const LD e = std::numeric_limits<float>::epsilon();
    Gen<T> g(s, 4);
    const T a = g();
    T b;
    switch (s.draw(4))
    {
    case 0:
        b = a;
        break;
    case 1:
        b = (T)(a + (s.coin() ? 1 : -1) * e * 2 * s.unit53());
        break;
    case 2:
        b = -a;
        break;
    default:
        b = g();
    }
    s.show("a", a);
    s.show("b", b);
    const LD d = fabsl((LD)a - (LD)b);
    const LD tol = 4 * (LD)std::numeric_limits<T>::epsilon() * d + 1e-25L;
    const bool got = vmml::equals(a, b);
    s.same((int)vmml::equals(b, a), (int)got, "equals() is symmetric");
    if (d < e - tol)
        s.same((int)got, 1, "equals() of close values");
    else if (d > e + tol)
        s.same((int)got, 0, "equals() of different values");
    s.nontrivial(d > 0);
}

static void version(Src& s)
{
    const int R = s.coin() ? 3 : 300;
    curMajor = (int)s.draw(R);
    curMinor = (int)s.draw(R);
    curPatch = (int)s.draw(R);
    int v[3] = {curMajor, curMinor, curPatch};
    const int from = (int)s.draw(4);
    for (int i = from; i < 3; ++i)
        v[i] = (int)s.draw(R);
    if (from == 2)
        s.label(4);
    if (from == 1)
        s.label(5);
    const int cur[3] = {curMajor, curMinor, curPatch};
    s.show("current", cur, 3);
    s.show("asked", v, 3);
    int c = 0;
    for (int i = 0; i < 3 && c == 0; ++i)
        c = cur[i] < v[i] ? -1 : cur[i] > v[i];
    if (c == 0)
        s.label(3);
    s.same((int)VMMLIB_VERSION_GT(v[0], v[1], v[2]), (int)(c > 0), "newer than");
    s.same((int)VMMLIB_VERSION_GE(v[0], v[1], v[2]), (int)(c >= 0), "newer than or equal to");
    s.same((int)VMMLIB_VERSION_LT(v[0], v[1], v[2]), (int)(c < 0), "older than");
    s.same((int)VMMLIB_VERSION_LE(v[0], v[1], v[2]), (int)(c <= 0), "older than or equal to");
    s.nontrivial(c != 0);
}

#if PBT_PART == 0
PBT_REG("math_f", (math<float>));
PBT_REG("math_d", (math<double>));
PBT_REG("math_i", (integers<int>), 8);
PBT_REG("math_i64", (integers<int64_t>), 4);
PBT_REG("vectors_3_f", (vectors<3, float>), 8);
PBT_REG("vectors_4_d", (vectors<4, double>), 8);
PBT_REG("vectors_7_i", (vectors<7, int>), 8);
PBT_REG("vectors_4_l", (vectors<4, int64_t>), 4);
PBT_REG("vectors_3_ul", (vectors<3, uint64_t>), 4);
PBT_REG("vectors_5_b", (vectors<5, int8_t>), 4);
PBT_REG("close_f", (closeTo<float>), 8);
PBT_REG("close_d", (closeTo<double>), 8);
PBT_REG("version", version, 16);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("vectors_1_float", (vectors<1, float>), 4);
PBT_REG("vectors_2_double", (vectors<2, double>), 4);
PBT_REG("vectors_3_double", (vectors<3, double>), 4);
PBT_REG("vectors_4_float", (vectors<4, float>), 4);
PBT_REG("vectors_5_int", (vectors<5, int>), 4);
PBT_REG("vectors_6_float", (vectors<6, float>), 4);
PBT_REG("vectors_8_double", (vectors<8, double>), 4);
PBT_REG("vectors_9_float", (vectors<9, float>), 4);
PBT_REG("vectors_17_double", (vectors<17, double>), 4);
PBT_REG("vectors_3_int", (vectors<3, int>), 4);
PBT_REG("vectors_300_float", (vectors<300, float>), 1);
#endif
