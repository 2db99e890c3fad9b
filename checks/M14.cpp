// M14: comparison of matrices
#include <vmmlib/matrix.hpp>
#include <vmmlib/matrix_functors.hpp>
#include <vmmlib/util.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"equal", "differ in one element",
                                   "near the tolerance", "inverted rows",
                                   "inverted columns", "one line off", 0};
const char* const pbt::RULE =
    "Pairs of matrices that are equal, differ in one element, differ by about "
    "the tolerance, or have some rows or columns negated, against element-wise "
    "references; non-trivial = the pair shares at least one element or line up "
    "to sign.";
#endif

template <size_t M, size_t N, class T>
void exact(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL, 1);
    Mat a, b;
    fill(g, a.array, M * N);
    extreme(s, a.array, M * N, true);
    b = a;
    bool self = true; // a NaN differs from itself
    for (size_t i = 0; i < M * N; ++i)
        self = self && a.array[i] == a.array[i];
    if (s.chance(1, 4))
    {
        T& e = b.array[s.draw(M * N)];
        e = neighbour(e);
    }
    else if (s.chance(2, 3))
        b.array[s.draw(M * N)] = g();
    if (s.chance(1, 4))
        fill(g, b.array, M * N);
    s.show("a", a.array, M * N);
    s.show("b", b.array, M * N);
    size_t same = 0;
    for (size_t i = 0; i < M * N; ++i)
        same += a.array[i] == b.array[i];
    const bool eq = same == M * N;
    s.same(a == b, eq, "a == b");
    s.same(b == a, eq, "b == a");
    s.same(a != b, !eq, "a != b");
    s.same(a == a, self, "a == a");
    // a functor sees every pair of elements in its place
    struct Cmp
    {
        size_t n;
        bool operator()(const T& x, const T& y)
        {
            ++n;
            return x == y;
        }
    } cmp = {0};
    s.same(a.equals(b, cmp), eq, "equals(functor)");
    if (eq)
        s.same((long long)cmp.n, (long long)(M * N), "calls of the functor");
    // the matrix's element comes first
    struct Below
    {
        bool operator()(const T& x, const T& y) { return x <= y; }
    } below;
    bool le = true, ge = true;
    for (size_t i = 0; i < M * N; ++i)
    {
        le = le && a.array[i] <= b.array[i];
        ge = ge && b.array[i] <= a.array[i];
    }
    s.same(a.equals(b, below), le, "equals(functor <=)");
    s.same(b.equals(a, below), ge, "equals(functor <=), the other way round");
    s.label(eq ? 0 : same == M * N - 1 ? 1 : 31);
    s.nontrivial(same > 0);
}

template <size_t M, size_t N, class T>
void tolerant(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Gen<T> g(s, 10, 1);
    Mat a, b;
    fill(g, a.array, M * N);
    b = a;
    static const double TOL[] = {1e-6, 1e-5, 1e-3, 0.01, 0.1, 0.5, 1, 2, 1e-4, 10, 0};
    const T tol = (T)TOL[s.draw(11)] * g.unit();
    for (size_t i = 0; i < M * N; ++i)
        if (s.coin())
        {
            static const double F[] = {0.25, 0.5, 0.99, 1, 1.01, 1.1, 2, 10};
            const T d = (T)(tol * F[s.chance(7, 8) ? s.draw(4) : s.draw(8)]);
            b.array[i] += s.coin() ? d : -d;
            if (tol == 0 && s.chance(1, 8))
                b.array[i] = std::nextafter(b.array[i], s.coin() ? T(1e30) : T(-1e30));
        }
    s.show("a", a.array, M * N);
    s.show("b", b.array, M * N);
    s.show("tolerance", tol);
    LD worst = 0;
    for (size_t i = 0; i < M * N; ++i)
        worst = std::max(worst, fabsl((LD)a.array[i] - b.array[i]));
    const LD slack = 4 * (LD)std::numeric_limits<T>::epsilon();
    bool exact = worst == tol;
    for (size_t i = 0; i < M * N; ++i)
        exact = exact && (LD)(T)(a.array[i] - b.array[i]) == (LD)a.array[i] - b.array[i];
    const bool got = a.equals(b, tol);
    s.expect(a.equals(a, tol) && a.equals(a, T(0)), "a matrix equals itself within any tolerance");
    s.same(b.equals(a, tol), got, "equals() is symmetric");
    s.same(vmml::equals(a, b, tol), got, "the free equals() agrees");
    if (worst < tol * (1 - slack) || exact)
        s.same(got, true, "a.equals(b, tolerance) within the tolerance");
    if (worst > tol * (1 + slack))
        s.same(got, false, "a.equals(b, tolerance) beyond the tolerance");
    if (worst > tol / 2 && worst < 2 * tol)
    {
        s.label(2);
        s.nontrivial();
    }
}

// integers within a whole number of each other
template <size_t M, size_t N, class T>
void tolerantInt(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Gen<T> g(s, std::numeric_limits<T>::digits - 2);
    Mat a, b;
    fill(g, a.array, M * N);
    b = a;
    static const int TOL[] = {0, 1, 2, 5, 20};
    const int t = (int)s.draw(5);
    const T tol = (T)TOL[t];
    for (size_t i = 0; i < M * N; ++i)
        if (s.coin())
        {
            const T d = (T)s.draw(2 * (uint64_t)tol + 3);
            T& e = b.array[i];
            e = s.coin() && (std::is_signed<T>::value || e >= d) ? (T)(e - d) : (T)(e + d);
        }
    s.show("a", a.array, M * N);
    s.show("b", b.array, M * N);
    s.show("tolerance", tol);
    LD worst = 0;
    for (size_t i = 0; i < M * N; ++i)
        worst = std::max(worst, fabsl((LD)a.array[i] - (LD)b.array[i]));
    const bool got = t == 0 ? vmml::equals(a, b) : a.equals(b, tol);
    s.same(t == 0 ? vmml::equals(b, a) : b.equals(a, tol), got, "equals() of integers is symmetric");
    if (worst <= tol)
        s.same(got, true, "integers within the tolerance");
    if (worst > tol)
        s.same(got, false, "integers beyond the tolerance");
    if (worst > 0)
        s.label(2);
    s.nontrivial(worst > 0);
}

template <size_t M, size_t N, class T>
void inverted(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Gen<T> g(s, 8);
    Mat a, b;
    fill(g, a.array, M * N);
    b = a;
    const bool rows = s.coin();
    const size_t L = rows ? M : N, K = rows ? N : M;
    s.label(rows ? 3 : 4);
    static const double TOL[] = {0.01, 0.5, 0, 1};
    const T tol = (T)TOL[s.draw(4)];
    bool neg = false;
    for (size_t i = 0; i < L; ++i)
        if (s.coin())
        {
            neg = true;
            for (size_t k = 0; k < K; ++k)
            {
                T& e = b.array[rows ? k * M + i : i * M + k];
                e = -e;
            }
        }
    if (s.coin())
    {
        // one element off
        static const double F[] = {0.3, 0.9, 1.1, 3, -1.1, -0.9};
        const size_t i = s.draw(M * N);
        if (s.chance(1, 4))
            b.array[i] += s.coin() ? tol : -tol;
        else if (s.chance(1, 4))
            b.array[i] = std::nextafter(b.array[i], s.coin() ? T(1e30) : T(-1e30));
        else
            b.array[i] += (T)((tol > 0 ? tol : T(0.25)) * F[s.draw(6)]);
        s.label(5);
    }
    else if (s.coin())
    {
        // one element, not the line, negated
        T& e = b.array[s.draw(M * N)];
        e = -e;
        s.label(5);
    }
    s.show("rows", rows);
    s.show("a(col-major)", a.array, M * N);
    s.show("b(col-major)", b.array, M * N);
    s.show("tolerance", tol);
    bool ex = true, within = true, surelyNot = false;
    const LD slack = 8 * (LD)std::numeric_limits<T>::epsilon();
    LD big = 0;
    for (size_t i = 0; i < M * N; ++i)
        big = std::max(big, fabsl(a.array[i]) + fabsl(b.array[i]));
    for (size_t i = 0; i < L; ++i)
    {
        bool p = true, m = true;
        LD dp = 0, dm = 0;
        bool noRounding = true;
        for (size_t k = 0; k < K; ++k)
        {
            const T x = a.array[rows ? k * M + i : i * M + k];
            const T y = b.array[rows ? k * M + i : i * M + k];
            p = p && x == y;
            m = m && x == -y;
            dp = std::max(dp, fabsl((LD)x - y));
            dm = std::max(dm, fabsl((LD)x + y));
            noRounding = noRounding && (LD)(T)(x - y) == (LD)x - y && (LD)(T)(x + y) == (LD)x + y;
        }
        ex = ex && (p || m);
        const LD d = std::min(dp, dm);
        if (d >= tol - slack * (tol + big) && !(d == 0 || (noRounding && d <= tol)))
            within = false;
        if (d > tol + slack * (tol + big) || (noRounding && d > tol))
            surelyNot = true;
    }
    bool got, gotT;
    if (rows)
    {
        vmml::matrix_equals_allow_inverted_rows<Mat> f;
        got = f(a, b);
        gotT = f(a, b, tol);
    }
    else
    {
        vmml::matrix_equals_allow_inverted_columns<Mat> f;
        got = f(a, b);
        gotT = f(a, b, tol);
    }
    s.same(got, ex, "equality up to inverted lines");
    if (within)
        s.same(gotT, true, "equality up to inverted lines, within the tolerance");
    if (surelyNot)
        s.same(gotT, false, "equality up to inverted lines, beyond the tolerance");
    s.nontrivial(neg);
}

#if PBT_PART == 0
PBT_REG("exact_34f", (exact<3, 4, float>));
PBT_REG("exact_44d", (exact<4, 4, double>));
PBT_REG("exact_25i", (exact<2, 5, int>), 8);
PBT_REG("exact_11d", (exact<1, 1, double>), 4);
PBT_REG("tolerant_34f", (tolerant<3, 4, float>));
PBT_REG("tolerant_44d", (tolerant<4, 4, double>));
PBT_REG("tolerant_51d", (tolerant<5, 1, double>), 8);
PBT_REG("inverted_33f", (inverted<3, 3, float>));
PBT_REG("inverted_34d", (inverted<3, 4, double>));
PBT_REG("inverted_62f", (inverted<6, 2, float>), 8);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("exact_2_2_float", (exact<2, 2, float>), 4);
PBT_REG("exact_3_3_double", (exact<3, 3, double>), 4);
PBT_REG("exact_4_4_float", (exact<4, 4, float>), 4);
PBT_REG("exact_4_3_int", (exact<4, 3, int>), 4);
PBT_REG("exact_7_5_float", (exact<7, 5, float>), 4);
PBT_REG("exact_8_8_double", (exact<8, 8, double>), 4);
PBT_REG("exact_9_3_float", (exact<9, 3, float>), 4);
PBT_REG("exact_3_17_double", (exact<3, 17, double>), 4);
PBT_REG("tolerant_int_22", (tolerantInt<2, 2, int>), 4);
PBT_REG("tolerant_int_34", (tolerantInt<3, 4, unsigned>), 4);
PBT_REG("tolerant_int_13", (tolerantInt<1, 3, uint8_t>), 4);
PBT_REG("exact_3_3_int64", (exact<3, 3, int64_t>), 4);
PBT_REG("exact_2_4_uint8", (exact<2, 4, uint8_t>), 4);
PBT_REG("exact_17_4_int", (exact<17, 4, int>), 4);
PBT_REG("tolerant_1_1_float", (tolerant<1, 1, float>), 4);
PBT_REG("tolerant_2_2_double", (tolerant<2, 2, double>), 4);
PBT_REG("tolerant_3_3_float", (tolerant<3, 3, float>), 4);
PBT_REG("tolerant_4_4_float", (tolerant<4, 4, float>), 4);
PBT_REG("tolerant_5_6_double", (tolerant<5, 6, double>), 4);
PBT_REG("tolerant_7_3_float", (tolerant<7, 3, float>), 4);
PBT_REG("tolerant_8_8_double", (tolerant<8, 8, double>), 4);
PBT_REG("tolerant_3_17_float", (tolerant<3, 17, float>), 4);
PBT_REG("tolerant_17_2_double", (tolerant<17, 2, double>), 4);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("inverted_1_1_double", (inverted<1, 1, double>), 4);
PBT_REG("inverted_2_2_float", (inverted<2, 2, float>), 4);
PBT_REG("inverted_3_3_double", (inverted<3, 3, double>), 4);
PBT_REG("inverted_4_4_float", (inverted<4, 4, float>), 4);
PBT_REG("inverted_4_4_double", (inverted<4, 4, double>), 4);
PBT_REG("inverted_5_3_float", (inverted<5, 3, float>), 4);
PBT_REG("inverted_3_7_double", (inverted<3, 7, double>), 4);
PBT_REG("inverted_8_8_float", (inverted<8, 8, float>), 4);
PBT_REG("inverted_9_5_double", (inverted<9, 5, double>), 4);
PBT_REG("inverted_2_17_float", (inverted<2, 17, float>), 4);
PBT_REG("exact_17_17_float", (exact<17, 17, float>), 1);
PBT_REG("tolerant_17_16_double", (tolerant<17, 16, double>), 1);
PBT_REG("inverted_18_17_float", (inverted<18, 17, float>), 1);
#endif
