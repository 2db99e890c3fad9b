// M15: positive definiteness
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"positive definite", "indefinite",
                                   "semidefinite", "explicit limit", 0};
const char* const pbt::RULE =
    "Random symmetric matrices of order 1-3 built as G'G, as -G'G, with mixed "
    "eigenvalue signs and at random, against Sylvester's criterion in exact or "
    "long double arithmetic; non-trivial = the order is above 1 and the matrix "
    "is not diagonal.";

template <size_t N, class T>
void posdef(Src& s)
{
    vmml::Matrix<N, N, T> m;
    const int kind = (int)s.draw(5);
    const bool ex = s.coin();
    const int scale = s.chance(1, 6) ? (int)s.zigzag(30) : 0;
    LD g[N][N], a[N][N];
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            g[i][j] = ex ? (LD)s.zigzag(6) : (LD)(2 * s.unit53() - 1);
    LD sign[N];
    for (size_t i = 0; i < N; ++i)
        sign[i] = kind == 0 || kind == 4 ? 1 : kind == 1 ? -1 : s.coin() ? 1 : -1;
    if (kind == 4)
        sign[s.draw(N)] = 0;
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            a[i][j] = 0;
            if (kind == 3)
                a[i][j] = i < j ? g[i][j] : g[j][i];
            else
                for (size_t k = 0; k < N; ++k)
                    a[i][j] += sign[k] * g[k][i] * g[k][j];
            m.array[j * N + i] = (T)std::ldexp((T)a[i][j], scale);
        }
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            a[i][j] = m.array[j * N + i];
    s.show("m", m.array, N * N);
    // leading minors, with the magnitude of their terms
    LD d[3] = {a[0][0], 0, 0}, mag[3] = {fabsl(a[0][0]), 0, 0};
    if (N > 1)
    {
        d[1] = a[0][0] * a[1 % N][1 % N] - a[0][1 % N] * a[1 % N][0];
        mag[1] = fabsl(a[0][0] * a[1 % N][1 % N]) + fabsl(a[0][1 % N] * a[1 % N][0]);
    }
    if (N > 2)
    {
        const size_t p[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}};
        for (int q = 0; q < 6; ++q)
        {
            const LD t = a[0][p[q][0] % N] * a[1 % N][p[q][1] % N] * a[2 % N][p[q][2] % N];
            d[2] += q < 3 ? t : -t;
            mag[2] += fabsl(t);
        }
    }
    const bool explicitLimit = s.chance(1, 4);
    static const double LIMS[] = {0, -0.5, 0.5, -1e-3, 1, 4};
    const T limit = explicitLimit ? (T)LIMS[s.draw(6)] : (T)-1e-12;
    if (explicitLimit)
    {
        s.show("limit", limit);
        s.label(3);
    }
    const LD eps = std::numeric_limits<T>::epsilon();
    bool yes = true, no = false;
    for (size_t i = 0; i < N; ++i)
    {
        const LD err = 16 * eps * mag[i];
        const LD tol = ex && explicitLimit ? 0 : err + (explicitLimit ? 0 : 1e-9L);
        if (d[i] < limit - tol)
            no = true;
        if (d[i] < limit + (ex ? 0 : err))
            yes = false;
    }
    const vmml::Matrix<N, N, T> m0 = m;
    const bool got = explicitLimit ? vmml::is_positive_definite(m, limit)
                                   : vmml::is_positive_definite(m);
    if (yes)
        s.same(got, true, "leading minors above the limit");
    if (no)
        s.same(got, false, "a leading minor below the limit");
    s.expect(m == m0, "the matrix is unchanged");
    s.label(yes ? 0 : no ? 1 : 2);
    if (ex && !explicitLimit)
    {
        // -m of a definite matrix is not positive definite
        if (yes && d[0] > 0)
        {
            vmml::Matrix<N, N, T> n;
            for (size_t i = 0; i < N * N; ++i)
                n.array[i] = -m.array[i];
            s.same(vmml::is_positive_definite(n), false, "the negated matrix");
        }
    }
    bool off = false;
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < i; ++j)
            off = off || a[i][j] != 0;
    s.nontrivial(N > 1 && off);
}

PBT_REG("f1", (posdef<1, float>), 1);
PBT_REG("f2", (posdef<2, float>));
PBT_REG("f3", (posdef<3, float>));
PBT_REG("d1", (posdef<1, double>), 1);
PBT_REG("d2", (posdef<2, double>));
PBT_REG("d3", (posdef<3, double>));
