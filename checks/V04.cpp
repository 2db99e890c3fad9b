// V04: comparison of vectors
#include <vmmlib/vector.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"equal vectors", "differ in one component",
                                   "zeros of both signs", "near the tolerance",
                                   "less", 0};
const char* const pbt::RULE =
    "Pairs and triples of vectors that are equal, differ in one component, "
    "share a prefix, or differ by about the tolerance; comparison operators are "
    "compared with component-wise references and order axioms; non-trivial = "
    "the pair shares at least one component.";
#endif

template <size_t M, class T>
void compare(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL, 1);
    V a, b, c;
    fill(g, a.array, M);
    extreme(s, a.array, M);
    b = a;
    int n = 0;
    switch (s.draw(5))
    {
    case 0:
        break;
    case 4:
    {
        T& e = b.array[s.draw(M)];
        e = neighbour(e);
        break;
    }
    case 1:
        b.array[s.draw(M)] = g();
        break;
    case 2:
        for (size_t i = s.draw(M); i < M; ++i)
            b.array[i] = g();
        break;
    default:
        for (size_t i = 0; i < M; ++i)
            if (s.coin())
                b.array[i] = g();
    }
    // the sign of a zero does not matter
    for (size_t i = 0; i < M; ++i)
        if (b.array[i] == 0 && s.coin())
        {
            b.array[i] = (T)-b.array[i];
            s.label(2);
        }
    c = s.coin() ? b : a;
    c.array[s.draw(M)] = g();
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    s.show("c", c.array, M);
    bool eq = true;
    for (size_t i = 0; i < M; ++i)
        if (a.array[i] == b.array[i])
            ++n;
        else
            eq = false;
    s.label(eq ? 0 : n == (int)M - 1 ? 1 : 31);
    s.same(a == b, eq, "a == b");
    s.same(b == a, eq, "b == a");
    s.same(a != b, !eq, "a != b");
    s.same(a == a, true, "a == a");
    s.same(a != a, false, "a != a");
    const bool less = std::lexicographical_compare(
        a.array, a.array + M, b.array, b.array + M);
    const bool greater = std::lexicographical_compare(
        b.array, b.array + M, a.array, a.array + M);
    s.same(a < b, less, "a < b");
    s.same(b < a, greater, "b < a");
    s.same(a < a, false, "a < a");
    s.same((a < b) + (b < a) + (a == b), 1, "exactly one of a < b, b < a, a == b");
    if (less)
        s.label(4);
    if ((a < b) && (b < c))
        s.same(a < c, true, "the order is transitive");
    if (a == b && b == c)
        s.same(a == c, true, "equality is transitive");
    s.nontrivial(n > 0);
}

// a NaN is equal to nothing
template <size_t M, class T>
void nans(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, 24, 1);
    V a, b;
    fill(g, a.array, M);
    extreme(s, a.array, M, true);
    b = a;
    if (s.coin())
        b.array[s.draw(M)] = s.coin() ? std::numeric_limits<T>::quiet_NaN() : g();
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    bool ab = true, aa = true;
    for (size_t i = 0; i < M; ++i)
    {
        ab = ab && a.array[i] == b.array[i];
        aa = aa && a.array[i] == a.array[i];
    }
    s.same(a == b, ab, "a == b");
    s.same(a != b, !ab, "a != b");
    s.same(b == a, ab, "b == a");
    s.same(b != a, !ab, "b != a");
    s.same(a == a, aa, "a == a");
    s.same(a != a, !aa, "a != a");
    s.nontrivial(!aa);
}

template <size_t M, class T>
void tolerant(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, 10);
    V a, b;
    fill(g, a.array, M);
    b = a;
    const bool dflt = s.chance(1, 4);
    static const double TOL[] = {1e-6, 1e-5, 1e-3, 0.01, 0.1, 0.5, 1, 2, 1e-4, 10};
    const T tol = dflt ? std::numeric_limits<T>::epsilon() : (T)TOL[s.draw(10)];
    for (size_t i = 0; i < M; ++i)
        if (s.coin())
        {
            static const double F[] = {0.25, 0.5, 0.99, 1, 1.01, 1.1, 2, 10};
            const T d = (T)(tol * F[s.chance(3, 4) ? s.draw(4) : s.draw(8)]);
            b.array[i] += s.coin() ? d : -d;
        }
    if (s.chance(1, 8))
        b.array[s.draw(M)] = g();
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    s.show("tolerance", tol);
    // the difference, as the component type rounds it
    LD worst = 0;
    for (size_t i = 0; i < M; ++i)
        worst = std::max(worst, fabsl((LD)a.array[i] - b.array[i]));
    const LD slack = 4 * (LD)std::numeric_limits<T>::epsilon();
    int want = -1; // undecided if rounding decides
    if (worst < tol * (1 - slack))
        want = 1;
    if (worst > tol * (1 + slack))
        want = 0;
    if (worst == tol)
    {
        bool exact = true;
        for (size_t i = 0; i < M; ++i)
            exact = exact && (LD)(T)(a.array[i] - b.array[i]) == (LD)a.array[i] - b.array[i];
        if (exact)
            want = 1;
    }
    const bool got = dflt ? a.equals(b) : a.equals(b, tol);
    const bool rev = dflt ? b.equals(a) : b.equals(a, tol);
    s.same(got, rev, "equals() is symmetric");
    if (want >= 0)
        s.same(got, want == 1, "a.equals(b, tolerance)");
    if (want >= 0 && dflt)
        s.same(vmml::equals(a, b), want == 1, "equals(a, b)");
    s.same(a.equals(a, tol), true, "a vector equals itself");
    if (worst > tol / 2 && worst < 2 * tol)
    {
        s.label(3);
        s.nontrivial();
    }
}

// integers within a whole number of each other
template <size_t M, class T>
void tolerantInt(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, std::numeric_limits<T>::digits - 2);
    V a, b;
    fill(g, a.array, M);
    b = a;
    static const int TOL[] = {0, 1, 2, 5, 20};
    const int t = (int)s.draw(5);
    const T tol = (T)TOL[t];
    for (size_t i = 0; i < M; ++i)
        if (s.coin())
        {
            const T d = (T)s.draw(2 * (uint64_t)tol + 3);
            b.array[i] = s.coin() && (std::is_signed<T>::value || b.array[i] >= d)
                             ? (T)(b.array[i] - d)
                             : (T)(b.array[i] + d);
        }
    s.show("a", a.array, M);
    s.show("b", b.array, M);
    s.show("tolerance", tol);
    LD worst = 0;
    for (size_t i = 0; i < M; ++i)
        worst = std::max(worst, fabsl((LD)a.array[i] - (LD)b.array[i]));
    const bool got = t == 0 ? a.equals(b) : a.equals(b, tol);
    const bool rev = t == 0 ? b.equals(a) : b.equals(a, tol);
    s.same(got, rev, "equals() of integers is symmetric");
    if (worst <= tol)
        s.same(got, true, "integers within the tolerance");
    if (worst > tol)
        s.same(got, false, "integers beyond the tolerance");
    if (t == 0 && worst == 0)
        s.same(vmml::equals(a, b), true, "equals(a, b) of the same integers");
    if (worst > 0)
        s.label(3);
    s.nontrivial(worst > 0);
}

#if PBT_PART == 0
PBT_REG("compare_f2", compare<2, float>);
PBT_REG("compare_f3", compare<3, float>);
PBT_REG("compare_d4", compare<4, double>);
PBT_REG("compare_d7", compare<7, double>);
PBT_REG("compare_i3", compare<3, int>);
PBT_REG("compare_u8_4", compare<4, uint8_t>);
PBT_REG("compare_u5", compare<5, unsigned>);
PBT_REG("nans_f3", (nans<3, float>), 4);
PBT_REG("nans_d4", (nans<4, double>), 4);
PBT_REG("tolerant_f3", tolerant<3, float>);
PBT_REG("tolerant_f4", tolerant<4, float>);
PBT_REG("tolerant_d2", tolerant<2, double>);
PBT_REG("tolerant_d6", tolerant<6, double>);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("compare_1_double", (compare<1, double>), 4);
PBT_REG("compare_2_int", (compare<2, int>), 4);
PBT_REG("compare_4_float", (compare<4, float>), 4);
PBT_REG("compare_5_float", (compare<5, float>), 4);
PBT_REG("compare_6_int", (compare<6, int>), 4);
PBT_REG("compare_8_float", (compare<8, float>), 4);
PBT_REG("compare_9_double", (compare<9, double>), 4);
PBT_REG("compare_16_int", (compare<16, int>), 4);
PBT_REG("compare_17_float", (compare<17, float>), 4);
PBT_REG("compare_3_int64_t", (compare<3, int64_t>), 4);
PBT_REG("compare_3_double", (compare<3, double>), 4);
PBT_REG("tolerant_int_3", (tolerantInt<3, int>), 4);
PBT_REG("tolerant_int_4", (tolerantInt<4, unsigned>), 4);
PBT_REG("tolerant_int_2", (tolerantInt<2, uint8_t>), 4);
PBT_REG("tolerant_int_5", (tolerantInt<5, int64_t>), 4);
PBT_REG("compare_3_uint64_t", (compare<3, uint64_t>), 4);
PBT_REG("compare_4_int8_t", (compare<4, int8_t>), 4);
PBT_REG("tolerant_1_float", (tolerant<1, float>), 4);
PBT_REG("tolerant_2_float", (tolerant<2, float>), 4);
PBT_REG("tolerant_3_double", (tolerant<3, double>), 4);
PBT_REG("tolerant_4_double", (tolerant<4, double>), 4);
PBT_REG("tolerant_5_float", (tolerant<5, float>), 4);
PBT_REG("tolerant_7_double", (tolerant<7, double>), 4);
PBT_REG("tolerant_8_float", (tolerant<8, float>), 4);
PBT_REG("tolerant_16_double", (tolerant<16, double>), 4);
PBT_REG("tolerant_17_float", (tolerant<17, float>), 4);
PBT_REG("compare_300_float", (compare<300, float>), 1);
PBT_REG("tolerant_300_double", (tolerant<300, double>), 1);
#endif
