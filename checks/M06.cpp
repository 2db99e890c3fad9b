// M06: matrix inversion
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"refused", "inverted", "exactly singular",
                                   "explicit tolerance", "ill-conditioned",
                                   "affine", 0};
const char* const pbt::RULE =
    "Random 2x2, 3x3 and 4x4 matrices (general, integer, affine, singular, "
    "nearly singular, scaled) with default and explicit tolerances; the verdict "
    "and the inverse are compared with a long double adjugate/determinant "
    "reference within a forward error bound; non-trivial = inverted with a "
    "checked result, or refused although the matrix is not zero.";

template <size_t N>
struct Cof
{
    LD c[N][N], p[N][N], det, perm;
    static void detOf(size_t n, const LD* a, LD& d, LD& p)
    {
        if (n == 1)
        {
            d = a[0];
            p = fabsl(a[0]);
            return;
        }
        d = p = 0;
        LD b[16];
        for (size_t k = 0; k < n; ++k)
        {
            size_t t = 0;
            for (size_t i = 1; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (j != k)
                        b[t++] = a[i * n + j];
            LD sd, sp;
            detOf(n - 1, b, sd, sp);
            d += (k % 2 ? -1 : 1) * a[k] * sd;
            p += fabsl(a[k]) * sp;
        }
    }
    explicit Cof(const LD* a)
    {
        detOf(N, a, det, perm);
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j)
            {
                LD b[16];
                size_t t = 0;
                for (size_t r = 0; r < N; ++r)
                    for (size_t q = 0; q < N; ++q)
                        if (r != i && q != j)
                            b[t++] = a[r * N + q];
                detOf(N - 1, b, c[i][j], p[i][j]);
                if ((i + j) % 2)
                    c[i][j] = -c[i][j];
            }
    }
};

template <size_t N, class T>
void inverse(Src& s)
{
    vmml::Matrix<N, N, T> m, r;
    const int kind = (int)s.draw(6);
    bool exact = false;
    if (kind <= 1)
    {
        exact = true;
        for (size_t i = 0; i < N * N; ++i)
            m.array[i] = (T)s.zigzag(kind ? 3 : 12);
    }
    else
    {
        Gen<T> g(s, 10, N);
        fill(g, m.array, N * N);
        exact = g.exact() && g.unit() == 1;
        if (kind == 2)
        {
            s.label(5);
            for (size_t j = 0; j < N; ++j)
                m.array[j * N + N - 1] = j == N - 1 ? 1 : 0;
        }
        if (kind == 3)
        {
            // diagonally dominant
            for (size_t i = 0; i < N; ++i)
                m.array[i * N + i] += m.array[i * N + i] < 0 ? T(-20) : T(20);
            exact = false;
        }
    }
    if (s.chance(1, 5))
    {
        const size_t i = s.draw(N), j = (i + 1) % N;
        const bool near = s.coin() && !exact;
        for (size_t k = 0; k < N; ++k)
            m.array[k * N + j] = m.array[k * N + i];
        if (near)
            m.array[s.draw(N) * N + j] *= T(1.01);
    }
    T tol = std::numeric_limits<T>::epsilon();
    const bool dflt = s.coin();
    if (!dflt)
    {
        static const double TOL[] = {0, 1e-12, 1e-6, 1e-3, 0.5, 1, 3, 10};
        tol = (T)TOL[s.draw(8)];
        s.label(3);
    }
    s.show("m(col-major)", m.array, N * N);
    s.show("tolerance", tol);
    const vmml::Matrix<N, N, T> m0 = m;
    garbage(r.array, N * N);
    const bool ok = dflt ? m.inverse(r) : m.inverse(r, tol);
    LD a[N * N];
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            a[i * N + j] = m0.array[j * N + i];
    const Cof<N> ref(a);
    const LD eps = std::numeric_limits<T>::epsilon();
    // rounding error of the determinant that the library computes
    const LD derr = exact ? 0 : 16 * eps * ref.perm;
    const LD ad = fabsl(ref.det);
    if (ad <= tol - derr && (exact || derr < tol))
    {
        s.same(ok, false, "a determinant within the tolerance is refused");
    }
    else if (ad > tol + derr)
        s.same(ok, true, "a determinant above the tolerance is inverted");
    if (ref.det == 0 && exact)
        s.label(2);
    for (size_t i = 0; i < N * N; ++i)
        s.same(m.array[i], m0.array[i], "the matrix is unchanged", i);
    vmml::Matrix<N, N, T> r2;
    garbage(r2.array, N * N);
    const bool ok2 = dflt ? vmml::compute_inverse(m, r2) : vmml::compute_inverse(m, r2, tol);
    s.same(ok2, ok, "compute_inverse() agrees with inverse()");
    if (!ok)
    {
        s.label(0);
        s.nontrivial(ref.perm > 0);
        return;
    }
    if (derr > 0.05L * ad || ref.det == 0)
    {
        s.label(4);
        return;
    }
    s.label(1);
    s.nontrivial();
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            const LD want = ref.c[j][i] / ref.det;
            const LD tolr = 24 * eps * (ref.p[j][i] / ad) * (1 + ref.perm / ad) +
                            64 * (LD)std::numeric_limits<T>::min();
            s.within(r.array[j * N + i], want, tolr, "inverse()", i * N + j);
            s.within(r2.array[j * N + i], want, tolr, "compute_inverse()", i * N + j);
        }
}

PBT_REG("f2", (inverse<2, float>));
PBT_REG("f3", (inverse<3, float>));
PBT_REG("f4", (inverse<4, float>), 32);
PBT_REG("d2", (inverse<2, double>));
PBT_REG("d3", (inverse<3, double>));
PBT_REG("d4", (inverse<4, double>), 32);
