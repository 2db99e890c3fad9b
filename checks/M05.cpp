// M05: determinants, minors, cofactors and adjugates
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

#include <algorithm>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"exact integers", "singular",
                                   "floating point", 0};
const char* const pbt::RULE =
    "Random square matrices of order 1-5, among them singular ones, against "
    "Leibniz sums over all permutations (exact for integers, with a rounding "
    "bound from the permanent otherwise); non-trivial = the entries are not all "
    "equal and at most half of them are zero.";
#endif

// Leibniz: determinant and permanent of |a| of an n x n matrix, row-major
inline void leibniz(size_t n, const LD* a, LD& det, LD& perm)
{
    det = perm = 0;
    size_t p[8];
    for (size_t i = 0; i < n; ++i)
        p[i] = i;
    do
    {
        int sign = 1;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j)
                if (p[i] > p[j])
                    sign = -sign;
        LD t = 1;
        for (size_t i = 0; i < n; ++i)
            t *= a[i * n + p[i]];
        det += sign * t;
        perm += fabsl(t);
    } while (std::next_permutation(p, p + n));
}

template <size_t N, class T>
bool rich(const T* a)
{
    size_t zeros = 0;
    bool differ = N == 1;
    for (size_t i = 0; i < N * N; ++i)
    {
        zeros += a[i] == 0;
        differ = differ || a[i] != a[0];
    }
    return differ && zeros * 2 <= N * N;
}

template <size_t N, class T>
void make(Src& s, vmml::Matrix<N, N, T>& m, bool& exact)
{
    if (std::is_integral<T>::value || s.coin())
    {
        exact = true;
        const long long b = N >= 5 ? 5 : N == 4 ? 9 : 20;
        for (size_t i = 0; i < N * N; ++i)
            m.array[i] = (T)s.zigzag(b);
        s.label(0);
    }
    else
    {
        exact = false;
        Gen<T> g(s, 18, N);
        fill(g, m.array, N * N);
        s.label(2);
    }
    if (N > 1 && s.chance(1, 5))
    {
        // two equal or proportional rows or columns
        const size_t i = s.draw(N), j = (i + 1 + s.draw(N > 1 ? N - 1 : 1)) % N;
        const bool row = s.coin();
        for (size_t k = 0; k < N; ++k)
            if (row)
                m.array[k * N + j] = m.array[k * N + i];
            else
                m.array[j * N + k] = m.array[i * N + k];
        s.label(1);
    }
    s.show("m(col-major)", m.array, N * N);
}

template <class T>
void match(Src& s, bool exact, const T& got, LD want, LD mag, const char* what,
           size_t i = 0)
{
    if (exact)
        s.same(got, (T)want, what, i);
    else
        s.near(got, want, mag, 24, what, i);
}

template <size_t N, class T>
void det(Src& s)
{
    vmml::Matrix<N, N, T> m;
    bool exact;
    make(s, m, exact);
    const vmml::Matrix<N, N, T> m0 = m;
    LD a[N * N], d, p;
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            a[i * N + j] = m.array[j * N + i];
    leibniz(N, a, d, p);
    match(s, exact, m.det(), d, p, "det()");
    match(s, exact, vmml::compute_determinant(m), d, p, "compute_determinant()");
    s.expect(m == m0, "the matrix is unchanged");
    s.nontrivial(rich<N>(m.array));
}

template <size_t N, class T>
void cof(Src& s)
{
    vmml::Matrix<N, N, T> m, c, adj;
    bool exact;
    make(s, m, exact);
    const vmml::Matrix<N, N, T> m0 = m;
    garbage(c.array, N * N);
    garbage(adj.array, N * N);
    m.get_cofactors(c);
    m.get_adjugate(adj);
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
        {
            LD a[N * N], d, p;
            size_t k = 0;
            vmml::Matrix<N - 1, N - 1, T> minor;
            garbage(minor.array, (N - 1) * (N - 1));
            const T md = m.get_minor(minor, i, j);
            for (size_t r = 0; r < N; ++r)
                for (size_t q = 0; q < N; ++q)
                    if (r != i && q != j)
                    {
                        a[k] = m.array[q * N + r];
                        s.same(minor.array[(k % (N - 1)) * (N - 1) + k / (N - 1)],
                               m.array[q * N + r], "matrix of get_minor()", k);
                        ++k;
                    }
            leibniz(N - 1, a, d, p);
            match(s, exact, md, d, p, "get_minor()", i * N + j);
            const LD sign = (i + j) % 2 ? -1 : 1;
            match(s, exact, c.array[j * N + i], sign * d, p, "get_cofactors()", i * N + j);
            match(s, exact, adj.array[i * N + j], sign * d, p, "get_adjugate()", i * N + j);
        }
    if (exact)
    {
        // m * adj(m) = det(m) I
        LD a[N * N], d, p;
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j)
                a[i * N + j] = m.array[j * N + i];
        leibniz(N, a, d, p);
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j)
            {
                LD w = 0;
                for (size_t k = 0; k < N; ++k)
                    w += (LD)m.array[k * N + i] * adj.array[j * N + k];
                s.same(w, i == j ? d : 0, "m * adjugate", i * N + j);
            }
    }
    s.expect(m == m0, "the matrix is unchanged");
    s.nontrivial(rich<N>(m.array));
}

#if PBT_PART == 0
PBT_REG("det_f1", (det<1, float>), 1);
PBT_REG("det_f2", (det<2, float>), 8);
PBT_REG("det_f3", (det<3, float>));
PBT_REG("det_f4", (det<4, float>));
PBT_REG("det_d2", (det<2, double>), 8);
PBT_REG("det_d3", (det<3, double>));
PBT_REG("det_d4", (det<4, double>));
PBT_REG("det_i3", (det<3, int>), 8);
PBT_REG("det_i4", (det<4, int>), 8);
PBT_REG("cof_f2", (cof<2, float>), 8);
PBT_REG("cof_f3", (cof<3, float>), 8);
PBT_REG("cof_d3", (cof<3, double>), 8);
PBT_REG("cof_d4", (cof<4, double>), 8);
PBT_REG("cof_i4", (cof<4, int>), 8);
PBT_REG("cof_i5", (cof<5, int>), 2);
PBT_REG("cof_d5", (cof<5, double>), 2);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("det_1_double", (det<1, double>), 2);
PBT_REG("det_2_int", (det<2, int>), 2);
PBT_REG("det_1_int", (det<1, int>), 2);
PBT_REG("cof_2_double", (cof<2, double>), 2);
PBT_REG("cof_4_float", (cof<4, float>), 2);
PBT_REG("cof_5_float", (cof<5, float>), 2);
PBT_REG("cof_3_int", (cof<3, int>), 2);
#endif
