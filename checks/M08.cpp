// M08: reductions over a matrix: norms, sums, extrema, counts, threshold
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"all negative", "all positive",
                                   "mixed signs", "has zeros", "odd length",
                                   "value at the threshold", 0};
const char* const pbt::RULE =
    "Random matrices (all negative, all positive, mixed, constant, sparse) "
    "through every reduction against plain loops in long double; non-trivial = "
    "at least two different entries.";
#endif

template <size_t M, size_t N, class T>
void make(Src& s, vmml::Matrix<M, N, T>& m, int bits)
{
    const size_t L = M * N;
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : bits, 2);
    fill(g, m.array, L);
    const int sign = (int)s.draw(4);
    size_t neg = 0, pos = 0, zero = 0;
    for (size_t i = 0; i < L; ++i)
    {
        if (sign == 1 && std::is_signed<T>::value && m.array[i] >= 0)
            m.array[i] = m.array[i] == 0 ? T(-1) : T(-m.array[i]);
        if (sign == 2 && m.array[i] <= 0)
            m.array[i] = m.array[i] == 0 ? T(1) : T(-m.array[i]);
        if (sign == 3 && s.chance(1, 3))
            m.array[i] = 0;
        neg += m.array[i] < 0;
        pos += m.array[i] > 0;
        zero += m.array[i] == 0;
    }
    if (neg == L)
        s.label(0);
    if (pos == L)
        s.label(1);
    if (neg && pos)
        s.label(2);
    if (zero)
        s.label(3);
    s.show("m", m.array, L);
    for (size_t i = 1; i < L; ++i)
        s.nontrivial(m.array[i] != m.array[0]);
}

template <class T>
T absOf(T v)
{
    return v < 0 ? T(-v) : v;
}

template <size_t M, size_t N, class T>
void extrema(Src& s)
{
    vmml::Matrix<M, N, T> m;
    make(s, m, 64);
    extreme(s, m.array, M * N);
    s.show("m", m.array, M * N);
    const vmml::Matrix<M, N, T> m0 = m;
    T mn = m.array[0], mx = m.array[0], amn = absOf(m.array[0]), amx = amn;
    for (size_t i = 1; i < M * N; ++i)
    {
        mn = std::min(mn, m.array[i]);
        mx = std::max(mx, m.array[i]);
        amn = std::min(amn, absOf(m.array[i]));
        amx = std::max(amx, absOf(m.array[i]));
    }
    s.same(m.get_min(), mn, "get_min()");
    s.same(m.get_max(), mx, "get_max()");
    s.same(m.get_abs_min(), amn, "get_abs_min()");
    s.same(m.get_abs_max(), amx, "get_abs_max()");
    s.expect(m == m0, "the matrix is unchanged");
}

template <size_t M, size_t N, class T>
void counts(Src& s)
{
    vmml::Matrix<M, N, T> m;
    make(s, m, 64);
    extreme(s, m.array, M * N);
    s.show("m", m.array, M * N);
    const vmml::Matrix<M, N, T> m0 = m;
    T t;
    if (s.coin())
    {
        t = absOf(m.array[s.draw(M * N)]);
        s.label(5);
    }
    else
        t = absOf(Gen<T>(s, std::is_floating_point<T>::value ? 24 : 64)());
    s.show("threshold", t);
    size_t nz = 0, above = 0;
    for (size_t i = 0; i < M * N; ++i)
    {
        nz += m.array[i] != 0;
        above += absOf(m.array[i]) > t;
    }
    s.same((long long)m.nnz(), (long long)nz, "nnz()");
    s.same((long long)m.nnz(t), (long long)above, "nnz(threshold)");
    // the threshold may be an element of the matrix itself
    size_t own = M * N;
    for (size_t i = 0; i < M * N; ++i)
        if (m.array[i] == t && (own == M * N || s.coin()))
            own = i;
    if (own < M * N && s.coin())
    {
        m.threshold(m.array[own]);
        s.label(6);
    }
    else
        m.threshold(t);
    for (size_t i = 0; i < M * N; ++i)
        s.same(m.array[i], absOf(m0.array[i]) <= t ? T(0) : m0.array[i], "threshold()", i);
    if (t > 0)
        s.same((long long)m.nnz(), (long long)above, "nnz() after threshold()");
}

template <size_t M, size_t N, class T>
void norms(Src& s)
{
    vmml::Matrix<M, N, T> m;
    make(s, m, 64);
    const vmml::Matrix<M, N, T> m0 = m;
    LD sum = 0, asum = 0, sq = 0;
    for (size_t i = 0; i < M * N; ++i)
    {
        sum += m.array[i];
        asum += fabsl(m.array[i]);
        sq += (LD)m.array[i] * m.array[i];
    }
    const LD deps = std::numeric_limits<double>::epsilon();
    const LD teps = std::is_floating_point<T>::value ? (LD)std::numeric_limits<T>::epsilon() : 0;
    s.within(m.sum_elements(), sum, (M * N + 3) * deps * asum, "sum_elements()");
    s.within(m.frobenius_norm(), sqrtl(sq), ((M * N + 6) * deps + 2 * teps) * sqrtl(sq),
             "frobenius_norm()");
    static const double P[] = {1, 2, 3, 4, 1.5, 0.5, 2.5};
    const double p = P[s.draw(7)];
    s.show("p", p);
    LD ps = 0;
    for (size_t i = 0; i < M * N; ++i)
        if (m.array[i] != 0)
            ps += powl(fabsl(m.array[i]), p);
    const LD want = ps == 0 ? 0 : powl(ps, 1 / (LD)p);
    s.within(m.p_norm(p), want, (64 * deps + 4 * teps) * want / std::min(p, 1.0), "p_norm()");
    s.expect(m == m0, "the matrix is unchanged");
}

// a sum of few elements; those of narrow types wrap
template <class T>
void sumIs(Src& s, T got, LD want, LD mag, size_t terms, const char* what, size_t i)
{
    if (std::is_integral<T>::value)
        s.same(got, want < 0 ? (T)(int64_t)want : (T)(uint64_t)want, what, i);
    else
        s.near(got, want, mag, terms, what, i);
}

template <size_t M, size_t N, class T>
void sums(Src& s)
{
    vmml::Matrix<M, N, T> m;
    make(s, m, sumBits<T>(std::max<size_t>(M, 2)));
    if (M % 2 || N % 2)
        s.label(4);
    const vmml::Matrix<M, N, T> m0 = m;
    vmml::Vector<N, T> c;
    garbage(c.array, N);
    m.columnwise_sum(c);
    for (size_t j = 0; j < N; ++j)
    {
        LD w = 0, mag = 0;
        for (size_t i = 0; i < M; ++i)
        {
            w += m.array[j * M + i];
            mag += fabsl(m.array[j * M + i]);
        }
        sumIs<T>(s, c.array[j], w, mag, M + 2, "columnwise_sum()", j);
    }
    // pairs of rows and columns; a last odd one is left out
    vmml::Matrix<M / 2, N, T> r;
    garbage(r.array, (M / 2) * N);
    m.sum_rows(r);
    for (size_t i = 0; i < M / 2; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            const LD a = m0.array[j * M + 2 * i], b = m0.array[j * M + 2 * i + 1];
            sumIs<T>(s, r.array[j * (M / 2) + i], a + b, fabsl(a) + fabsl(b), 1, "sum_rows()",
                     i * N + j);
        }
    vmml::Matrix<M, N / 2, T> k;
    garbage(k.array, M * (N / 2));
    m.sum_columns(k);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N / 2; ++j)
        {
            const LD a = m0.array[2 * j * M + i], b = m0.array[(2 * j + 1) * M + i];
            sumIs<T>(s, k.array[j * M + i], a + b, fabsl(a) + fabsl(b), 1, "sum_columns()",
                     i * (N / 2) + j);
        }
    s.expect(m == m0, "the matrix is unchanged");
}

#if PBT_PART == 0
PBT_REG("extrema_f34", (extrema<3, 4, float>));
PBT_REG("extrema_d22", (extrema<2, 2, double>));
PBT_REG("extrema_i33", (extrema<3, 3, int>));
PBT_REG("extrema_u42", (extrema<4, 2, unsigned char>), 8);
PBT_REG("extrema_f11", (extrema<1, 1, float>), 2);
PBT_REG("counts_f34", (counts<3, 4, float>));
PBT_REG("counts_d53", (counts<5, 3, double>));
PBT_REG("counts_i33", (counts<3, 3, int>), 8);
PBT_REG("norms_f44", (norms<4, 4, float>));
PBT_REG("norms_d35", (norms<3, 5, double>));
PBT_REG("norms_d11", (norms<1, 1, double>), 4);
PBT_REG("norms_i33", (norms<3, 3, int>), 8);
PBT_REG("sums_f46", (sums<4, 6, float>));
PBT_REG("sums_f53", (sums<5, 3, float>));
PBT_REG("sums_d27", (sums<2, 7, double>));
PBT_REG("sums_i55", (sums<5, 5, int>), 8);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("extrema_1_7_double", (extrema<1, 7, double>), 3);
PBT_REG("extrema_7_1_float", (extrema<7, 1, float>), 3);
PBT_REG("extrema_4_4_float", (extrema<4, 4, float>), 3);
PBT_REG("extrema_4_4_double", (extrema<4, 4, double>), 3);
PBT_REG("extrema_3_3_int64", (extrema<3, 3, int64_t>), 3);
PBT_REG("extrema_2_4_uint64", (extrema<2, 4, uint64_t>), 3);
PBT_REG("extrema_4_2_uint8", (extrema<4, 2, uint8_t>), 3);
PBT_REG("counts_3_3_int64", (counts<3, 3, int64_t>), 3);
PBT_REG("counts_2_3_unsigned", (counts<2, 3, unsigned>), 3);
PBT_REG("norms_3_2_int64", (norms<3, 2, int64_t>), 3);
PBT_REG("norms_2_2_uint8", (norms<2, 2, uint8_t>), 3);
PBT_REG("sums_4_3_int64", (sums<4, 3, int64_t>), 3);
PBT_REG("sums_5_4_uint8", (sums<5, 4, uint8_t>), 3);
PBT_REG("extrema_5_5_int", (extrema<5, 5, int>), 3);
PBT_REG("extrema_8_8_float", (extrema<8, 8, float>), 3);
PBT_REG("extrema_9_3_double", (extrema<9, 3, double>), 3);
PBT_REG("extrema_3_17_float", (extrema<3, 17, float>), 3);
PBT_REG("extrema_16_16_int", (extrema<16, 16, int>), 3);
PBT_REG("extrema_3_2_signed_char", (extrema<3, 2, signed char>), 3);
PBT_REG("counts_1_1_float", (counts<1, 1, float>), 3);
PBT_REG("counts_4_4_float", (counts<4, 4, float>), 3);
PBT_REG("counts_7_2_double", (counts<7, 2, double>), 3);
PBT_REG("counts_8_8_float", (counts<8, 8, float>), 3);
PBT_REG("counts_9_5_int", (counts<9, 5, int>), 3);
PBT_REG("counts_17_3_double", (counts<17, 3, double>), 3);
PBT_REG("counts_2_17_float", (counts<2, 17, float>), 3);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("norms_1_5_float", (norms<1, 5, float>), 3);
PBT_REG("norms_2_2_float", (norms<2, 2, float>), 3);
PBT_REG("norms_3_3_double", (norms<3, 3, double>), 3);
PBT_REG("norms_5_4_float", (norms<5, 4, float>), 3);
PBT_REG("norms_7_7_double", (norms<7, 7, double>), 3);
PBT_REG("norms_8_8_float", (norms<8, 8, float>), 3);
PBT_REG("norms_9_2_double", (norms<9, 2, double>), 3);
PBT_REG("norms_17_5_float", (norms<17, 5, float>), 3);
PBT_REG("norms_3_16_double", (norms<3, 16, double>), 3);
PBT_REG("sums_2_2_double", (sums<2, 2, double>), 3);
PBT_REG("sums_3_3_float", (sums<3, 3, float>), 3);
PBT_REG("sums_4_4_double", (sums<4, 4, double>), 3);
PBT_REG("sums_6_3_double", (sums<6, 3, double>), 3);
PBT_REG("sums_7_8_float", (sums<7, 8, float>), 3);
PBT_REG("sums_8_8_double", (sums<8, 8, double>), 3);
PBT_REG("sums_9_5_float", (sums<9, 5, float>), 3);
PBT_REG("sums_17_3_double", (sums<17, 3, double>), 3);
PBT_REG("sums_3_17_float", (sums<3, 17, float>), 3);
PBT_REG("sums_4_5_int", (sums<4, 5, int>), 3);
PBT_REG("extrema_17_17_float", (extrema<17, 17, float>), 1);
PBT_REG("counts_17_17_double", (counts<17, 17, double>), 1);
PBT_REG("norms_20_15_float", (norms<20, 15, float>), 1);
PBT_REG("sums_18_16_int", (sums<18, 16, int>), 1);
PBT_REG("counts_2_300_int", (counts<2, 300, int>), 1);
#endif
