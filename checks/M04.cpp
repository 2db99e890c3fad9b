// M04: matrix products
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"matrix times itself", "non-square",
                                   "homogeneous point", "perspective divide", 0};
const char* const pbt::RULE =
    "Random conformable matrices and vectors (exact integers to wide "
    "magnitudes) through every product form against long double sums with a "
    "rounding bound from the magnitudes of the terms; non-trivial = neither "
    "operand is constant.";
#endif

template <size_t N, class T>
bool rich(const T* a)
{
    for (size_t i = 1; i < N; ++i)
        if (a[i] != a[0])
            return true;
    return N == 1;
}

template <size_t M, size_t P, size_t N, class T>
struct Ref
{
    LD v[M][N], mag[M][N];
    Ref(const T* l, const T* r)
    {
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
            {
                v[i][j] = mag[i][j] = 0;
                if (std::is_integral<T>::value)
                {
                    uint64_t sum = 0; // modulo 2^64
                    for (size_t p = 0; p < P; ++p)
                        sum += (uint64_t)l[p * M + i] * (uint64_t)r[j * P + p];
                    v[i][j] = (LD)(T)sum;
                    continue;
                }
                for (size_t p = 0; p < P; ++p)
                {
                    const LD t = (LD)l[p * M + i] * r[j * P + p];
                    v[i][j] += t;
                    mag[i][j] += fabsl(t);
                }
            }
    }
    void check(Src& s, const vmml::Matrix<M, N, T>& m, const char* what)
    {
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
                s.near(m.array[j * M + i], v[i][j], mag[i][j], P + 3, what, i * N + j);
    }
};

template <size_t M, size_t P, size_t N, class T>
void product(Src& s)
{
    int bitsL, bitsR;
    productBits<T>(s, P, bitsL, bitsR);
    Gen<T> g(s, bitsL, 2), h(s, bitsR, 2);
    vmml::Matrix<M, P, T> l;
    vmml::Matrix<P, N, T> r;
    fill(g, l.array, M * P);
    fill(std::is_floating_point<T>::value && s.coin() ? g : h, r.array, P * N);
    s.show("left", l.array, M * P);
    s.show("right", r.array, P * N);
    const vmml::Matrix<M, P, T> l0 = l;
    const vmml::Matrix<P, N, T> r0 = r;
    Ref<M, P, N, T> ref(l.array, r.array);
    vmml::Matrix<M, N, T> a, b, c;
    garbage(a.array, M * N);
    garbage(b.array, M * N);
    garbage(c.array, M * N);
    a = l * r;
    b.multiply(l, r);
    vmml::multiply(l, r, c);
    ref.check(s, a, "left * right");
    ref.check(s, b, "result.multiply(left, right)");
    ref.check(s, c, "multiply(left, right, result)");
    s.expect(l == l0 && r == r0, "the operands are unchanged");
    if (M != N || M != P)
        s.label(1);
    s.nontrivial(rich<M * P>(l.array) && rich<P * N>(r.array));
}

template <size_t N, class T>
void inplace(Src& s)
{
    int bitsA, bitsB;
    productBits<T>(s, N, bitsA, bitsB);
    const bool self = s.chance(1, 3);
    if (self)
        bitsA = std::min(bitsA, bitsB);
    Gen<T> g(s, bitsA, 2), h(s, bitsB, 2);
    vmml::Matrix<N, N, T> a, b;
    fill(g, a.array, N * N);
    fill(std::is_floating_point<T>::value && s.coin() ? g : h, b.array, N * N);
    s.show("a", a.array, N * N);
    s.show("b", b.array, N * N);
    const vmml::Matrix<N, N, T> a0 = a, b0 = b;
    if (self)
    {
        s.label(0);
        Ref<N, N, N, T> ref(a0.array, a0.array);
        a *= a;
        ref.check(s, a, "m *= m");
        const vmml::Matrix<N, N, T> p = a0 * a0;
        ref.check(s, p, "m * m");
    }
    else
    {
        Ref<N, N, N, T> ref(a0.array, b0.array);
        a *= b;
        ref.check(s, a, "a *= b");
        s.expect(b == b0, "the right operand is unchanged");
    }
    s.nontrivial(rich<N * N>(a0.array) && rich<N * N>(b0.array));
}

template <size_t M, size_t N, class T>
void vec(Src& s)
{
    int bitsM, bitsV;
    productBits<T>(s, N, bitsM, bitsV);
    Gen<T> g(s, bitsM, 2), h(s, bitsV, 2);
    vmml::Matrix<M, N, T> m;
    vmml::Vector<N, T> v;
    fill(g, m.array, M * N);
    fill(std::is_floating_point<T>::value && s.coin() ? g : h, v.array, N);
    s.show("m", m.array, M * N);
    s.show("v", v.array, N);
    const vmml::Matrix<M, N, T> m0 = m;
    const vmml::Vector<N, T> v0 = v;
    const vmml::Vector<M, T> r = m * v;
    for (size_t i = 0; i < M; ++i)
    {
        LD w = 0, mag = 0;
        if (std::is_integral<T>::value)
        {
            uint64_t sum = 0;
            for (size_t j = 0; j < N; ++j)
                sum += (uint64_t)m.array[j * M + i] * (uint64_t)v.array[j];
            s.same(r.array[i], (T)sum, "matrix * vector", i);
            continue;
        }
        for (size_t j = 0; j < N; ++j)
        {
            const LD t = (LD)m.array[j * M + i] * v.array[j];
            w += t;
            mag += fabsl(t);
        }
        s.near(r.array[i], w, mag, N + 3, "matrix * vector", i);
    }
    s.expect(m == m0 && v == v0, "the operands are unchanged");
    if (M != N)
        s.label(1);
    s.nontrivial(rich<M * N>(m.array) && rich<N>(v.array));
}

// N x N times a vector of N - 1 components: a point, with w = 1
template <size_t N, class T>
void point(Src& s)
{
    Gen<T> g(s, 16, 2);
    vmml::Matrix<N, N, T> m;
    vmml::Vector<N - 1, T> p;
    fill(g, m.array, N * N);
    const bool affine = s.coin();
    if (affine)
        for (size_t j = 0; j < N; ++j)
            m.array[j * N + N - 1] = j == N - 1 ? 1 : 0;
    fill(g, p.array, N - 1);
    s.show("m", m.array, N * N);
    s.show("p", p.array, N - 1);
    s.label(2);
    const vmml::Matrix<N, N, T> m0 = m;
    const vmml::Vector<N - 1, T> p0 = p;
    LD v[N], mag[N];
    for (size_t i = 0; i < N; ++i)
    {
        v[i] = m.array[(N - 1) * N + i];
        mag[i] = fabsl(v[i]);
        for (size_t j = 0; j + 1 < N; ++j)
        {
            const LD t = (LD)m.array[j * N + i] * p.array[j];
            v[i] += t;
            mag[i] += fabsl(t);
        }
    }
    const LD w = v[N - 1];
    // the divisor has to be determined by its terms
    if (fabsl(w) < 1e-2L * mag[N - 1] || w == 0)
        return;
    const LD cond = mag[N - 1] / fabsl(w);
    const vmml::Vector<N - 1, T> r = m * p;
    for (size_t i = 0; i + 1 < N; ++i)
        s.near(r.array[i], v[i] / w, mag[i] / fabsl(w) * (1 + cond), 2 * N + 4,
               "matrix * point", i);
    s.expect(m == m0 && p == p0, "the operands are unchanged");
    if (!affine && fabsl(w - 1) > 1e-3L)
        s.label(3);
    s.nontrivial(rich<N * N>(m.array) && rich<N - 1>(p.array));
}

#if PBT_PART == 0
PBT_REG("product_444_f", (product<4, 4, 4, float>), 24);
PBT_REG("product_333_d", (product<3, 3, 3, double>));
PBT_REG("product_222_f", (product<2, 2, 2, float>), 8);
PBT_REG("product_342_d", (product<3, 4, 2, double>), 8);
PBT_REG("product_253_f", (product<2, 5, 3, float>), 8);
PBT_REG("product_414_f", (product<4, 1, 4, float>), 8);
PBT_REG("product_161_d", (product<1, 6, 1, double>), 8);
PBT_REG("product_323_i", (product<3, 2, 3, int>), 8);
PBT_REG("product_555_i", (product<5, 5, 5, int>), 8);
PBT_REG("inplace_f4", (inplace<4, float>));
PBT_REG("inplace_d3", (inplace<3, double>));
PBT_REG("inplace_d2", (inplace<2, double>), 8);
PBT_REG("inplace_i5", (inplace<5, int>), 8);
PBT_REG("vec_44f", (vec<4, 4, float>));
PBT_REG("vec_33d", (vec<3, 3, double>), 8);
PBT_REG("vec_25f", (vec<2, 5, float>), 8);
PBT_REG("vec_62d", (vec<6, 2, double>), 8);
PBT_REG("vec_34i", (vec<3, 4, int>), 8);
PBT_REG("point_4f", (point<4, float>));
PBT_REG("point_4d", (point<4, double>));
PBT_REG("point_3d", (point<3, double>), 8);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("product_1_1_1_float", (product<1, 1, 1, float>), 3);
PBT_REG("product_2_2_2_double", (product<2, 2, 2, double>), 3);
PBT_REG("product_2_3_4_double", (product<2, 3, 4, double>), 3);
PBT_REG("product_4_4_4_double", (product<4, 4, 4, double>), 3);
PBT_REG("product_3_3_3_float", (product<3, 3, 3, float>), 3);
PBT_REG("product_4_4_4_int", (product<4, 4, 4, int>), 3);
PBT_REG("product_3_4_3_int64", (product<3, 4, 3, int64_t>), 3);
PBT_REG("product_2_2_2_unsigned", (product<2, 2, 2, unsigned>), 3);
PBT_REG("product_4_2_4_uint8", (product<4, 2, 4, uint8_t>), 3);
PBT_REG("product_2_4_3_int16", (product<2, 4, 3, int16_t>), 3);
PBT_REG("inplace_3_int64", (inplace<3, int64_t>), 3);
PBT_REG("inplace_4_int", (inplace<4, int>), 3);
PBT_REG("product_5_5_5_float", (product<5, 5, 5, float>), 3);
PBT_REG("product_6_6_6_double", (product<6, 6, 6, double>), 3);
PBT_REG("product_4_3_4_float", (product<4, 3, 4, float>), 3);
PBT_REG("inplace_1_float", (inplace<1, float>), 3);
PBT_REG("inplace_2_float", (inplace<2, float>), 3);
PBT_REG("inplace_3_float", (inplace<3, float>), 3);
PBT_REG("inplace_4_double", (inplace<4, double>), 3);
PBT_REG("inplace_5_float", (inplace<5, float>), 3);
PBT_REG("inplace_6_double", (inplace<6, double>), 3);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("product_7_7_7_float", (product<7, 7, 7, float>), 2);
PBT_REG("product_8_8_8_float", (product<8, 8, 8, float>), 2);
PBT_REG("product_9_7_5_double", (product<9, 7, 5, double>), 2);
PBT_REG("product_16_16_16_float", (product<16, 16, 16, float>), 2);
PBT_REG("product_17_3_18_double", (product<17, 3, 18, double>), 2);
PBT_REG("product_2_33_2_float", (product<2, 33, 2, float>), 2);
PBT_REG("product_33_2_3_int", (product<33, 2, 3, int>), 2);
PBT_REG("product_1_9_8_double", (product<1, 9, 8, double>), 2);
PBT_REG("product_9_8_1_float", (product<9, 8, 1, float>), 2);
PBT_REG("product_3_4_4_double", (product<3, 4, 4, double>), 2);
PBT_REG("inplace_7_float", (inplace<7, float>), 2);
PBT_REG("inplace_8_double", (inplace<8, double>), 2);
PBT_REG("inplace_9_float", (inplace<9, float>), 2);
PBT_REG("inplace_16_float", (inplace<16, float>), 2);
PBT_REG("inplace_17_double", (inplace<17, double>), 2);
PBT_REG("vec_1_1_float", (vec<1, 1, float>), 2);
PBT_REG("vec_2_2_double", (vec<2, 2, double>), 2);
PBT_REG("vec_3_3_float", (vec<3, 3, float>), 2);
PBT_REG("vec_4_4_double", (vec<4, 4, double>), 2);
PBT_REG("vec_5_5_float", (vec<5, 5, float>), 2);
PBT_REG("vec_4_3_double", (vec<4, 3, double>), 2);
PBT_REG("vec_7_3_float", (vec<7, 3, float>), 2);
PBT_REG("vec_8_8_float", (vec<8, 8, float>), 2);
PBT_REG("vec_3_9_double", (vec<3, 9, double>), 2);
PBT_REG("vec_17_16_float", (vec<17, 16, float>), 2);
PBT_REG("vec_6_6_int", (vec<6, 6, int>), 2);
PBT_REG("vec_4_4_int64", (vec<4, 4, int64_t>), 2);
PBT_REG("vec_3_5_uint64", (vec<3, 5, uint64_t>), 2);
PBT_REG("product_2_300_2_float", (product<2, 300, 2, float>), 1);
PBT_REG("vec_2_300_double", (vec<2, 300, double>), 1);
PBT_REG("vec_300_2_int", (vec<300, 2, int>), 1);
#endif
