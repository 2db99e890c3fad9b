// D01: QR decomposition
#include <vmmlib/qr_decomposition.hpp>

#include "gen.hpp"

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"general", "graded columns", "nearly dependent",
                                   "integer", "orthogonal", "triangular", "tall", 0};
const char* const pbt::RULE =
    "Random matrices of full column rank (general, graded, nearly dependent, "
    "integer, orthogonal, triangular): Q R = A, R upper triangular with a positive "
    "diagonal, and columns of Q orthonormal within c * eps * (condition number); "
    "non-trivial = more than one column and condition number above 10.";
#endif

template <size_t M, size_t N, class T>
void qr(Src& s)
{
    const LD eps = std::numeric_limits<T>::epsilon();
    LD a[M][N];
    const int kind = (int)s.draw(6);
    s.label(kind);
    if (M > N)
        s.label(6);
    Gen<T> g(s, 3, 2);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
            a[i][j] = kind == 3 ? (LD)s.zigzag(5) : (LD)(2 * s.unit53() - 1);
    if (kind == 1)
        for (size_t j = 0; j < N; ++j)
        {
            const LD f = ldexpl(1, (int)s.zigzag(8));
            for (size_t i = 0; i < M; ++i)
                a[i][j] *= f;
        }
    if (kind == 2 && N > 1)
    {
        // columns close to a combination of others
        const LD d = powl(10, -(LD)s.range(1, std::numeric_limits<T>::digits > 30 ? 7 : 3));
        for (size_t j = 1; j < N; ++j)
        {
            const size_t o = s.draw(j);
            for (size_t i = 0; i < M; ++i)
                a[i][j] = a[i][o] + d * a[i][j];
        }
    }
    if (kind == 4)
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
                a[i][j] = i == (j + 1) % M ? (s.coin() ? 2 : -1) : 0;
    if (kind == 5)
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
                if (i > j)
                    a[i][j] = 0;
                else if (i == j)
                    a[i][j] = 1 + s.unit53();
    // small and large as a whole
    const int e = s.chance(1, 4) ? (int)s.zigzag(std::numeric_limits<T>::max_exponent / 4) : 0;
    vmml::Matrix<M, N, T> A;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            A.array[j * M + i] = (T)ldexpl(a[i][j], e);
            a[i][j] = A.array[j * M + i];
        }
    // reference factorisation: Householder-quality through repeated
    // orthogonalisation in long double
    LD q[M][N], r[N][N];
    LD normA = 0;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
            normA += a[i][j] * a[i][j];
    normA = sqrtl(normA);
    for (size_t j = 0; j < N; ++j)
    {
        LD v[M], c0 = 0;
        for (size_t i = 0; i < M; ++i)
        {
            v[i] = a[i][j];
            c0 += v[i] * v[i];
        }
        for (size_t k = 0; k < N; ++k)
            r[k][j] = 0;
        for (int pass = 0; pass < 3; ++pass)
            for (size_t k = 0; k < j; ++k)
            {
                LD d = 0;
                for (size_t i = 0; i < M; ++i)
                    d += q[i][k] * v[i];
                r[k][j] += d;
                for (size_t i = 0; i < M; ++i)
                    v[i] -= d * q[i][k];
            }
        LD n = 0;
        for (size_t i = 0; i < M; ++i)
            n += v[i] * v[i];
        n = sqrtl(n);
        r[j][j] = n;
        if (!(n > 0) || n < 1e-9L * sqrtl(c0))
            return; // not of full rank
        for (size_t i = 0; i < M; ++i)
            q[i][j] = v[i] / n;
    }
    // condition number, with columns scaled to unit length (Gram-Schmidt is
    // invariant under column scaling): |R^-1|_F * |R|_F
    LD cs[N];
    for (size_t j = 0; j < N; ++j)
    {
        cs[j] = 0;
        for (size_t k = 0; k <= j; ++k)
            cs[j] += r[k][j] * r[k][j];
        cs[j] = sqrtl(cs[j]);
    }
    LD inv2 = 0;
    for (size_t c = 0; c < N; ++c)
    {
        LD x[N];
        for (size_t ii = N; ii-- > 0;)
        {
            LD v = ii == c ? 1 : 0;
            for (size_t k = ii + 1; k < N; ++k)
                v -= r[ii][k] / cs[k] * x[k];
            x[ii] = v / (r[ii][ii] / cs[ii]);
            inv2 += x[ii] * x[ii];
        }
    }
    const LD cond = sqrtl(inv2) * sqrtl((LD)N);
    const LD loss = 8 * (LD)M * (LD)N * eps * cond;
    if (loss > 0.05L)
        return;
    s.show("A (columns)", A.array, M * N);
    s.show("condition number", (double)cond);
    vmml::Matrix<M, M, T> Q;
    vmml::Matrix<N, N, T> R;
    garbage(Q.array, M * M);
    garbage(R.array, N * N);
    const vmml::Matrix<M, N, T> A0(A);
    vmml::qr_decompose_gram_schmidt(A0, Q, R);
    for (size_t i = 0; i < M * N; ++i)
        s.same(A0.array[i], A.array[i], "the input is unchanged", i);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < i; ++j)
            s.same(R.array[j * N + i], 0, "R is upper triangular", i * N + j);
    for (size_t j = 0; j < N; ++j)
        s.expect(R.array[j * N + j] > 0, "the diagonal of R is positive");
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            LD v = 0;
            for (size_t k = 0; k < N; ++k)
                v += (LD)Q.array[k * M + i] * R.array[j * N + k];
            s.within(v, a[i][j], 16 * (LD)N * eps * cs[j], "Q R = A", i * N + j);
        }
    for (size_t j = 0; j < N; ++j)
        for (size_t k = 0; k <= j; ++k)
        {
            LD v = 0;
            for (size_t i = 0; i < M; ++i)
                v += (LD)Q.array[j * M + i] * Q.array[k * M + i];
            s.within(v, j == k ? 1 : 0, j == k ? 8 * (LD)M * eps : loss,
                     "columns of Q are orthonormal", j * N + k);
        }
    // the factors are determined by A
    for (size_t i = 0; i < N; ++i)
        for (size_t j = i; j < N; ++j)
            s.within(R.array[j * N + i], r[i][j], 4 * loss * cs[j], "R", i * N + j);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = N; j < M; ++j)
            s.same(Q.array[j * M + i], 0, "further columns of Q", i * M + j);
    s.nontrivial(N > 1 && cond > 10);
}

#if PBT_PART == 0
PBT_REG("1x1_f", (qr<1, 1, float>), 1);
PBT_REG("2x2_f", (qr<2, 2, float>), 8);
PBT_REG("3x3_f", (qr<3, 3, float>), 8);
PBT_REG("3x3_d", (qr<3, 3, double>), 8);
PBT_REG("4x4_f", (qr<4, 4, float>), 8);
PBT_REG("4x4_d", (qr<4, 4, double>), 8);
PBT_REG("5x3_d", (qr<5, 3, double>), 8);
PBT_REG("4x2_f", (qr<4, 2, float>), 8);
PBT_REG("6x6_d", (qr<6, 6, double>), 4);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("qr_1_1_double", (qr<1, 1, double>), 3);
PBT_REG("qr_2_2_double", (qr<2, 2, double>), 3);
PBT_REG("qr_3_2_float", (qr<3, 2, float>), 3);
PBT_REG("qr_3_1_double", (qr<3, 1, double>), 3);
PBT_REG("qr_5_5_float", (qr<5, 5, float>), 3);
PBT_REG("qr_5_5_double", (qr<5, 5, double>), 3);
PBT_REG("qr_7_7_double", (qr<7, 7, double>), 3);
PBT_REG("qr_8_8_double", (qr<8, 8, double>), 3);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("qr_4_3_double", (qr<4, 3, double>), 2);
PBT_REG("qr_6_4_float", (qr<6, 4, float>), 2);
PBT_REG("qr_8_3_float", (qr<8, 3, float>), 2);
PBT_REG("qr_7_5_double", (qr<7, 5, double>), 2);
PBT_REG("qr_9_6_double", (qr<9, 6, double>), 2);
PBT_REG("qr_16_4_float", (qr<16, 4, float>), 2);
PBT_REG("qr_12_12_double", (qr<12, 12, double>), 2);
#endif
