// G01: projection matrices of a frustum
#include <vmmlib/frustum.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"perspective", "orthographic", "symmetric",
                                   "off-axis", "mirrored", "far before near",
                                   "plane at zero",
                                   "nearly symmetric or far off the centre", 0};
const char* const pbt::RULE =
    "Random frusta (symmetric, off-axis, far off the centre, mirrored, swapped planes; dyadic, "
    "magnitude-spread and boundary values) against the eight-corner definition "
    "and the OpenGL formulas in long double; non-trivial = not symmetric in at "
    "least one direction.";

// left,right,bottom,top,near,far with non-empty extents
template <class T>
void params(Src& s, T* f, bool positiveNear)
{
    Gen<T> g(s, 12, 3);
    fill(g, f, 6);
    bool near = false;
    if (s.chance(1, 4))
    {
        f[0] = -f[1];
        f[2] = -f[3];
        s.label(2);
    }
    else if (s.chance(1, 3))
    {
        // nearly symmetric, or far off the centre
        for (int i = 0; i < 4; i += 2)
        {
            const T d = (T)std::ldexp(1 + s.unit53(), -(int)s.range(2, std::numeric_limits<T>::digits - 3));
            f[i] = f[i] == 0 ? T(1) : f[i];
            f[i + 1] = (s.coin() ? -f[i] : f[i]) * (1 + d);
        }
        near = true;
        s.label(7);
    }
    else
        s.label(3);
    if (positiveNear)
    {
        f[4] = std::fabs(f[4]);
        f[5] = std::fabs(f[5]);
        if (f[4] == 0)
            f[4] = (T)0.5;
        if (f[5] == 0)
            f[5] = 8;
    }
    for (int i = 0; i < 6; i += 2)
        if (!(std::fabs(f[i] - f[i + 1]) >=
              (T)1e-4 * (std::fabs(f[i]) + std::fabs(f[i + 1]))) ||
            f[i] == f[i + 1])
        {
            if (near && i < 4 && f[i] != f[i + 1])
                continue;
            f[i + 1] = f[i] + (std::fabs(f[i]) > 1 ? std::fabs(f[i]) : 1);
        }
    if (f[0] > f[1] || f[2] > f[3])
        s.label(4);
    if (f[4] > f[5])
        s.label(5);
    for (int i = 0; i < 4; ++i)
        if (f[i] == 0)
            s.label(6);
    s.nontrivial(f[0] != -f[1] || f[2] != -f[3]);
    s.show("frustum", f, 6);
}

template <class T>
void compare(Src& s, const vmml::Matrix<4, 4, T>& m, const LD W[4][4],
             const LD A[4][4], const char* what)
{
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            s.near(m(i, j), W[i][j], A[i][j], 16, what, i * 4 + j);
}

template <class T>
void matrices(Src& s, bool persp)
{
    s.label(persp ? 0 : 1);
    T f[6];
    params(s, f, persp);
    const LD l = f[0], r = f[1], b = f[2], t = f[3], n = f[4], e = f[5];
    LD W[4][4], A[4][4];
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            W[i][j] = 0;
    if (persp)
    {
        W[0][0] = 2 * n / (r - l);
        W[0][2] = (r + l) / (r - l);
        W[1][1] = 2 * n / (t - b);
        W[1][2] = (t + b) / (t - b);
        W[2][2] = -(e + n) / (e - n);
        W[2][3] = -2 * e * n / (e - n);
        W[3][2] = -1;
    }
    else
    {
        W[0][0] = 2 / (r - l);
        W[0][3] = -(r + l) / (r - l);
        W[1][1] = 2 / (t - b);
        W[1][3] = -(t + b) / (t - b);
        W[2][2] = -2 / (e - n);
        W[2][3] = -(e + n) / (e - n);
        W[3][3] = 1;
    }
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            A[i][j] = fabsl(W[i][j]);
    // sums of opposite sign: the error is relative to the terms
    const LD sx = (fabsl(r) + fabsl(l)) / fabsl(r - l);
    const LD sy = (fabsl(t) + fabsl(b)) / fabsl(t - b);
    const LD sz = (fabsl(e) + fabsl(n)) / fabsl(e - n);
    if (persp)
    {
        A[0][2] = sx;
        A[1][2] = sy;
        A[2][2] = sz;
    }
    else
    {
        A[0][3] = sx;
        A[1][3] = sy;
        A[2][3] = sz;
    }

    const vmml::Frustum<T> fr(f[0], f[1], f[2], f[3], f[4], f[5]);
    vmml::Matrix<4, 4, T> out;
    garbage(out.array, 16);
    if (persp)
        fr.compute_matrix(out);
    else
        fr.compute_ortho_matrix(out);
    compare(s, out, W, A, persp ? "compute_matrix(out)" : "compute_ortho_matrix(out)");
    const vmml::Matrix<4, 4, T> m =
        persp ? fr.compute_matrix() : fr.compute_ortho_matrix();
    compare(s, m, W, A, persp ? "compute_matrix()" : "compute_ortho_matrix()");
    for (int i = 0; i < 6; ++i)
        s.same(fr.array[i], f[i], "the frustum is unchanged", i);

    // the eight corners go to the corners of the cube
    for (int c = 0; c < 8; ++c)
    {
        const LD z = -(c & 4 ? e : n);
        const LD k = persp ? (c & 4 ? e / n : 1) : 1;
        const LD p[4] = {(c & 1 ? r : l) * k, (c & 2 ? t : b) * k, z, 1};
        LD q[4], a[4];
        for (int i = 0; i < 4; ++i)
        {
            q[i] = a[i] = 0;
            for (int j = 0; j < 4; ++j)
            {
                q[i] += (LD)m(i, j) * p[j];
                a[i] += A[i][j] * fabsl(p[j]);
            }
        }
        const LD w = persp ? (c & 4 ? e : n) : 1;
        s.near((T)1, 1 + (q[3] - w) / w, 1, 16, "w of a corner", c);
        const LD want[3] = {c & 1 ? 1.0L : -1.0L, c & 2 ? 1.0L : -1.0L,
                            c & 4 ? 1.0L : -1.0L};
        const LD eps = std::numeric_limits<T>::epsilon();
        for (int i = 0; i < 3; ++i)
            s.within(q[i] / w, want[i], 32 * eps * (1 + a[i] / fabsl(w)),
                     "a corner of the frustum is a corner of the cube", c * 3 + i);
    }
}

template <class T>
void persp(Src& s)
{
    matrices<T>(s, true);
}
template <class T>
void ortho(Src& s)
{
    matrices<T>(s, false);
}

PBT_REG("perspective_f", (persp<float>));
PBT_REG("perspective_d", (persp<double>));
PBT_REG("ortho_f", (ortho<float>));
PBT_REG("ortho_d", (ortho<double>));
