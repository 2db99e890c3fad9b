// M07: products and compositions that only rearrange or multiply entries:
// transpose, direct sum, tensor, Kronecker, Khatri-Rao, diagonal, covariance
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"transpose", "direct sum", "tensor",
                                   "kronecker", "khatri-rao", "covariance",
                                   "diagonal", "non-square", 0};
const char* const pbt::RULE =
    "Random matrices of square and non-square shapes, results pre-filled with "
    "garbage, against the index definition of each operation; non-trivial = the "
    "operands have at least two different non-zero entries.";
#endif

template <class T>
bool rich(const T* a, size_t n)
{
    if (n == 1)
        return a[0] != 0;
    T first = 0;
    for (size_t i = 0; i < n; ++i)
    {
        if (a[i] == 0)
            continue;
        if (first == 0)
            first = a[i];
        else if (a[i] != first)
            return true;
    }
    return false;
}

#define LIM (std::is_floating_point<T>::value ? 24 : FULL)

template <size_t M, size_t N, class T>
void transpose(Src& s)
{
    Gen<T> g(s, LIM, 1);
    vmml::Matrix<M, N, T> m;
    fill(g, m.array, M * N);
    s.show("m", m.array, M * N);
    const vmml::Matrix<M, N, T> m0 = m;
    vmml::Matrix<N, M, T> t, back2;
    garbage(t.array, M * N);
    m.transpose_to(t);
    const vmml::Matrix<N, M, T> u = vmml::transpose(m);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            s.same(t.array[i * N + j], m0.array[j * M + i], "transpose_to()", i * N + j);
            s.same(u.array[i * N + j], m0.array[j * M + i], "transpose()", i * N + j);
        }
    s.expect(vmml::transpose(t) == m0, "the transpose of the transpose is the matrix");
    s.expect(m == m0, "the matrix is unchanged");
    s.label(0);
    if (M != N)
        s.label(7);
    s.nontrivial(rich(m.array, M * N));
}

template <size_t O, size_t P, size_t Q, size_t R, class T>
void dsum(Src& s)
{
    Gen<T> g(s, LIM, 1);
    vmml::Matrix<O, P, T> a;
    vmml::Matrix<Q, R, T> b;
    vmml::Matrix<O + Q, P + R, T> r;
    fill(g, a.array, O * P);
    fill(g, b.array, Q * R);
    garbage(r.array, (O + Q) * (P + R));
    s.show("a", a.array, O * P);
    s.show("b", b.array, Q * R);
    r.direct_sum(a, b);
    for (size_t i = 0; i < O + Q; ++i)
        for (size_t j = 0; j < P + R; ++j)
        {
            const T want = i < O && j < P ? a.array[j * O + i]
                           : i >= O && j >= P ? b.array[(j - P) * Q + i - O]
                                              : T(0);
            s.same(r.array[j * (O + Q) + i], want, "direct_sum()", i * (P + R) + j);
        }
    s.label(1);
    s.nontrivial(rich(a.array, O * P) && rich(b.array, Q * R));
}

// entry (i, j) of the tensor product of u and v is u_j v_i
template <size_t M, size_t N, class T>
void tensor(Src& s)
{
    int bitsU, bitsV;
    productBits<T>(s, 1, bitsU, bitsV);
    Gen<T> g(s, bitsU, 2), h(s, bitsV, 2);
    vmml::Vector<N, T> u;
    vmml::Vector<M, T> v;
    vmml::Matrix<M, N, T> r;
    fill(g, u.array, N);
    fill(std::is_floating_point<T>::value && s.coin() ? g : h, v.array, M);
    garbage(r.array, M * N);
    s.show("u", u.array, N);
    s.show("v", v.array, M);
    r.tensor(u, v);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
            s.near(r.array[j * M + i], (LD)u.array[j] * v.array[i],
                   (LD)u.array[j] * v.array[i], 1, "tensor()", i * N + j);
    s.label(2);
    if (M != N)
        s.label(7);
    s.nontrivial(rich(u.array, N) && rich(v.array, M));
}

template <class T>
void tensor4(Src& s)
{
    Gen<T> g(s, LIM);
    vmml::Vector<3, T> u, v;
    vmml::Matrix<4, 4, T> r;
    fill(g, u.array, 3);
    fill(g, v.array, 3);
    garbage(r.array, 16);
    s.show("u", u.array, 3);
    s.show("v", v.array, 3);
    r.tensor(u, v);
    // the tensor product of (u, 1) and (v, 1)
    for (size_t i = 0; i < 4; ++i)
        for (size_t j = 0; j < 4; ++j)
        {
            const LD w = (j < 3 ? (LD)u.array[j] : 1) * (i < 3 ? (LD)v.array[i] : 1);
            s.near(r.array[j * 4 + i], w, w, 1, "tensor() of two vec3", i * 4 + j);
        }
    s.label(2);
    s.nontrivial(rich(u.array, 3) && rich(v.array, 3));
}

template <size_t M, size_t N, size_t O, size_t P, class T>
void kron(Src& s)
{
    int bitsA, bitsB;
    productBits<T>(s, 1, bitsA, bitsB);
    Gen<T> g(s, bitsA, 2), h(s, bitsB, 2);
    vmml::Matrix<M, N, T> a;
    vmml::Matrix<O, P, T> b;
    vmml::Matrix<M * O, N * P, T> r;
    fill(g, a.array, M * N);
    fill(std::is_floating_point<T>::value && s.coin() ? g : h, b.array, O * P);
    garbage(r.array, M * N * O * P);
    s.show("a", a.array, M * N);
    s.show("b", b.array, O * P);
    a.kronecker_product(b, r);
    for (size_t i = 0; i < M * O; ++i)
        for (size_t j = 0; j < N * P; ++j)
        {
            const LD w = (LD)a.array[(j / P) * M + i / O] * b.array[(j % P) * O + i % O];
            s.near(r.array[j * M * O + i], w, w, 1, "kronecker_product()", i * N * P + j);
        }
    s.label(3);
    s.nontrivial(rich(a.array, M * N) && rich(b.array, O * P));
}

template <size_t M, size_t O, size_t N, class T>
void khatri(Src& s)
{
    int bitsA, bitsB;
    productBits<T>(s, 1, bitsA, bitsB);
    Gen<T> g(s, bitsA, 2), h(s, bitsB, 2);
    vmml::Matrix<M, N, T> a;
    vmml::Matrix<O, N, T> b;
    vmml::Matrix<M * O, N, T> r;
    fill(g, a.array, M * N);
    fill(std::is_floating_point<T>::value && s.coin() ? g : h, b.array, O * N);
    garbage(r.array, M * N * O);
    s.show("a", a.array, M * N);
    s.show("b", b.array, O * N);
    a.khatri_rao_product(b, r);
    for (size_t i = 0; i < M * O; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            const LD w = (LD)a.array[j * M + i / O] * b.array[j * O + i % O];
            s.near(r.array[j * M * O + i], w, w, 1, "khatri_rao_product()", i * N + j);
        }
    s.label(4);
    s.nontrivial(rich(a.array, M * N) && rich(b.array, O * N));
}

template <size_t M, size_t N, class T>
void cov(Src& s)
{
    int bits, other;
    productBits<T>(s, N, bits, other);
    Gen<T> g(s, std::min(bits, other));
    vmml::Matrix<M, N, T> a;
    vmml::Matrix<M, M, T> r;
    fill(g, a.array, M * N);
    garbage(r.array, M * M);
    s.show("a", a.array, M * N);
    a.symmetric_covariance(r);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            LD w = 0, mag = 0;
            for (size_t k = 0; k < N; ++k)
            {
                const LD t = (LD)a.array[k * M + i] * a.array[k * M + j];
                w += t;
                mag += fabsl(t);
            }
            s.near(r.array[j * M + i], w, mag, N + 3, "symmetric_covariance()", i * M + j);
            s.same(r.array[j * M + i], r.array[i * M + j], "the covariance is symmetric", i * M + j);
        }
    s.label(5);
    if (M != N)
        s.label(7);
    s.nontrivial(rich(a.array, M * N));
}

template <size_t N, class T>
void diag(Src& s)
{
    Gen<T> g(s, LIM);
    vmml::Vector<N, T> d;
    vmml::Matrix<N, N, T> r;
    fill(g, d.array, N);
    garbage(r.array, N * N);
    s.show("d", d.array, N);
    r.diag(d);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            s.same(r.array[j * N + i], i == j ? d.array[i] : T(0), "diag()", i * N + j);
    s.label(6);
    s.nontrivial(rich(d.array, N));
}

#if PBT_PART == 0
PBT_REG("transpose_34l", (transpose<3, 4, int64_t>), 3);
PBT_REG("transpose_22ul", (transpose<2, 2, uint64_t>), 2);
PBT_REG("transpose_53b", (transpose<5, 3, int8_t>), 2);
PBT_REG("transpose_34f", (transpose<3, 4, float>));
PBT_REG("transpose_44d", (transpose<4, 4, double>));
PBT_REG("transpose_15i", (transpose<1, 5, int>), 4);
PBT_REG("transpose_62f", (transpose<6, 2, float>), 8);
PBT_REG("dsum_1223f", (dsum<1, 2, 2, 3, float>), 8);
PBT_REG("dsum_3311d", (dsum<3, 3, 1, 1, double>), 8);
PBT_REG("dsum_2214i", (dsum<2, 2, 1, 4, int>), 8);
PBT_REG("tensor_44f", (tensor<4, 4, float>));
PBT_REG("tensor_33d", (tensor<3, 3, double>), 8);
PBT_REG("tensor_25f", (tensor<2, 5, float>));
PBT_REG("tensor_62d", (tensor<6, 2, double>));
PBT_REG("tensor4_f", (tensor4<float>), 8);
PBT_REG("tensor4_d", (tensor4<double>), 8);
PBT_REG("kron_2332f", (kron<2, 3, 3, 2, float>), 8);
PBT_REG("kron_1423d", (kron<1, 4, 2, 3, double>), 8);
PBT_REG("kron_2213i", (kron<2, 2, 1, 3, int>), 8);
PBT_REG("khatri_234f", (khatri<2, 3, 4, float>), 8);
PBT_REG("khatri_412d", (khatri<4, 1, 2, double>), 8);
PBT_REG("khatri_323i", (khatri<3, 2, 3, int>), 8);
PBT_REG("cov_34f", (cov<3, 4, float>));
PBT_REG("cov_52d", (cov<5, 2, double>));
PBT_REG("cov_33i", (cov<3, 3, int>), 8);
PBT_REG("diag_4f", (diag<4, float>), 4);
PBT_REG("diag_3d", (diag<3, double>), 4);
PBT_REG("diag_6i", (diag<6, int>), 4);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("transpose_1_1_float", (transpose<1, 1, float>), 3);
PBT_REG("transpose_2_2_float", (transpose<2, 2, float>), 3);
PBT_REG("transpose_3_3_double", (transpose<3, 3, double>), 3);
PBT_REG("transpose_4_4_float", (transpose<4, 4, float>), 3);
PBT_REG("transpose_5_5_float", (transpose<5, 5, float>), 3);
PBT_REG("transpose_4_3_double", (transpose<4, 3, double>), 3);
PBT_REG("transpose_7_3_int", (transpose<7, 3, int>), 3);
PBT_REG("transpose_8_8_float", (transpose<8, 8, float>), 3);
PBT_REG("transpose_9_5_double", (transpose<9, 5, double>), 3);
PBT_REG("transpose_16_17_float", (transpose<16, 17, float>), 3);
PBT_REG("transpose_2_33_double", (transpose<2, 33, double>), 3);
PBT_REG("transpose_17_16_int", (transpose<17, 16, int>), 3);
PBT_REG("dsum_1_1_1_1_float", (dsum<1, 1, 1, 1, float>), 2);
PBT_REG("dsum_2_2_2_2_double", (dsum<2, 2, 2, 2, double>), 2);
PBT_REG("dsum_3_4_2_1_float", (dsum<3, 4, 2, 1, float>), 2);
PBT_REG("dsum_4_4_4_4_float", (dsum<4, 4, 4, 4, float>), 2);
PBT_REG("dsum_5_1_3_4_int", (dsum<5, 1, 3, 4, int>), 2);
PBT_REG("dsum_1_7_8_2_double", (dsum<1, 7, 8, 2, double>), 2);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("tensor_2_2_float", (tensor<2, 2, float>), 3);
PBT_REG("tensor_3_3_float", (tensor<3, 3, float>), 3);
PBT_REG("tensor_5_5_double", (tensor<5, 5, double>), 3);
PBT_REG("tensor_4_3_double", (tensor<4, 3, double>), 3);
PBT_REG("tensor_7_2_float", (tensor<7, 2, float>), 3);
PBT_REG("tensor_8_8_float", (tensor<8, 8, float>), 3);
PBT_REG("tensor_3_9_double", (tensor<3, 9, double>), 3);
PBT_REG("tensor_17_5_float", (tensor<17, 5, float>), 3);
PBT_REG("kron_1_1_3_3_float", (kron<1, 1, 3, 3, float>), 2);
PBT_REG("kron_2_2_2_2_double", (kron<2, 2, 2, 2, double>), 2);
PBT_REG("kron_3_3_3_3_float", (kron<3, 3, 3, 3, float>), 2);
PBT_REG("kron_4_4_2_2_double", (kron<4, 4, 2, 2, double>), 2);
PBT_REG("kron_3_1_1_4_float", (kron<3, 1, 1, 4, float>), 2);
PBT_REG("kron_2_5_4_3_int", (kron<2, 5, 4, 3, int>), 2);
PBT_REG("kron_4_4_4_4_float", (kron<4, 4, 4, 4, float>), 2);
PBT_REG("khatri_1_1_1_float", (khatri<1, 1, 1, float>), 2);
PBT_REG("khatri_3_3_3_double", (khatri<3, 3, 3, double>), 2);
PBT_REG("khatri_4_4_4_float", (khatri<4, 4, 4, float>), 2);
PBT_REG("khatri_2_5_7_double", (khatri<2, 5, 7, double>), 2);
PBT_REG("khatri_5_2_8_float", (khatri<5, 2, 8, float>), 2);
PBT_REG("khatri_7_6_3_int", (khatri<7, 6, 3, int>), 2);
PBT_REG("cov_2_2_float", (cov<2, 2, float>), 2);
PBT_REG("cov_3_3_double", (cov<3, 3, double>), 2);
PBT_REG("cov_4_4_float", (cov<4, 4, float>), 2);
PBT_REG("cov_5_6_double", (cov<5, 6, double>), 2);
PBT_REG("cov_7_3_float", (cov<7, 3, float>), 2);
PBT_REG("cov_9_8_double", (cov<9, 8, double>), 2);
PBT_REG("diag_1_float", (diag<1, float>), 2);
PBT_REG("diag_2_double", (diag<2, double>), 2);
PBT_REG("diag_3_float", (diag<3, float>), 2);
PBT_REG("diag_4_double", (diag<4, double>), 2);
PBT_REG("diag_5_float", (diag<5, float>), 2);
PBT_REG("diag_8_float", (diag<8, float>), 2);
PBT_REG("diag_9_double", (diag<9, double>), 2);
PBT_REG("diag_17_float", (diag<17, float>), 2);
PBT_REG("transpose_300_2_float", (transpose<300, 2, float>), 1);
PBT_REG("tensor_20_20_double", (tensor<20, 20, double>), 1);
PBT_REG("kron_4_5_5_4_float", (kron<4, 5, 5, 4, float>), 1);
PBT_REG("diag_260_float", (diag<260, float>), 1);
PBT_REG("cov_2_9_double", (cov<2, 9, double>), 2);
PBT_REG("cov_1_40_float", (cov<1, 40, float>), 1);
PBT_REG("cov_3_70_double", (cov<3, 70, double>), 1);
PBT_REG("cov_20_3_float", (cov<20, 3, float>), 1);
PBT_REG("khatri_2_20_3_double", (khatri<2, 20, 3, double>), 1);
PBT_REG("khatri_9_2_9_float", (khatri<9, 2, 9, float>), 1);
PBT_REG("dsum_17_2_3_16_double", (dsum<17, 2, 3, 16, double>), 1);
PBT_REG("dsum_1_9_1_1_int", (dsum<1, 9, 1, 1, int>), 1);
PBT_REG("tensor_2_40_float", (tensor<2, 40, float>), 1);
#endif
