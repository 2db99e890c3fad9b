// Generation of view volumes for the culling checks: planes in long double,
// with bounds on the rounding error of the planes as the library computes them.
#ifndef PBT_CULL_HPP
#define PBT_CULL_HPP

#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>

#include "gen.hpp"

namespace pbt
{
template <class T>
struct Volume
{
    vmml::FrustumCuller<T> culler;
    LD plane[6][4]; // unit normals, pointing inwards
    // error bound of a signed distance at p: base[i] + slope[i] * |p - at[i]|
    LD base[6], slope[6], at[6][3];
    bool exact; // every quantity is exactly representable
    LD scale;   // size of the region of interest
    LD mid[3];  // a point inside
    LD corner[8][3];
    bool hasCorners;
    // the library sees everything enlarged by this power of two; the members above
    // are what it would be without
    T zoom;

    LD dist(int i, const LD* p) const
    {
        return plane[i][0] * p[0] + plane[i][1] * p[1] + plane[i][2] * p[2] +
               plane[i][3];
    }
    LD tol(int i, const LD* p) const
    {
        if (exact)
            return 0;
        const LD eps = std::numeric_limits<T>::epsilon();
        LD m = fabsl(plane[i][3]);
        LD d = 0;
        for (int k = 0; k < 3; ++k)
        {
            m += fabsl(plane[i][k] * p[k]);
            d += (p[k] - at[i][k]) * (p[k] - at[i][k]);
        }
        return 24 * eps * m + base[i] + slope[i] * sqrtl(d);
    }
};

// planes of the clip volume of a row-major matrix
template <class T>
bool planesOf(const T* m, LD plane[6][4], LD cond[6])
{
    for (int i = 0; i < 6; ++i)
    {
        LD n = 0;
        LD a = 0;
        for (int j = 0; j < 4; ++j)
        {
            const LD x = m[12 + j], y = m[(i / 2) * 4 + j];
            plane[i][j] = i & 1 ? x - y : x + y;
            if (j < 3)
            {
                n += plane[i][j] * plane[i][j];
                a += fabsl(x) + fabsl(y);
            }
        }
        n = sqrtl(n);
        if (!(n > 1e-3L * a))
            return false;
        for (int j = 0; j < 4; ++j)
            plane[i][j] /= n;
        // the sum of two elements has a relative error of eps only, but the
        // last one may cancel: its error is relative to its terms
        cond[i] = (fabsl((LD)m[15]) + fabsl((LD)m[(i / 2) * 4 + 3])) / n;
        (void)a;
    }
    return true;
}

inline bool inverse4(const LD m[4][4], LD r[4][4], LD& det)
{
    det = 1;
    LD a[4][8];
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 8; ++j)
            a[i][j] = j < 4 ? m[i][j] : j - 4 == i;
    for (int c = 0; c < 4; ++c)
    {
        int p = c;
        for (int i = c + 1; i < 4; ++i)
            if (fabsl(a[i][c]) > fabsl(a[p][c]))
                p = i;
        if (fabsl(a[p][c]) < 1e-9L)
            return false;
        for (int j = 0; j < 8; ++j)
            std::swap(a[p][j], a[c][j]);
        det *= p == c ? a[c][c] : -a[c][c];
        for (int i = 0; i < 4; ++i)
        {
            const LD f = i == c ? 1 : a[i][c] / a[c][c];
            for (int j = 7; j >= c && i != c; --j)
                a[i][j] -= f * a[c][j];
        }
    }
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            r[i][j] = a[i][4 + j] / a[i][i];
    return true;
}

template <class T>
void enlarge(vmml::Matrix<4, 4, T>& m, T zoom)
{
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 3; ++j)
            m(i, j) /= zoom;
}

// A view volume, set up from a matrix (setup = 0) or from its corners (1).
// Returns false if the case is degenerate.
template <class T>
bool makeVolume(Src& s, Volume<T>& v, int setup)
{
    const LD eps = std::numeric_limits<T>::epsilon();
    v.exact = false;
    v.hasCorners = false;
    v.zoom = 1;
    if (s.chance(1, 6))
    {
        v.zoom = (T)ldexpl(1, (int)s.zigzag(sizeof(T) < 8 ? 15 : 100));
        s.show("enlarged by", v.zoom);
    }
    for (int i = 0; i < 6; ++i)
    {
        v.base[i] = v.slope[i] = 0;
        for (int k = 0; k < 3; ++k)
            v.at[i][k] = 0;
    }
    LD cond[6];
    const int kind = (int)s.draw(6);
    if (kind == 0)
    {
        // an axis-aligned box with power-of-two edges: all is exact
        LD lo[3], len[3];
        for (int k = 0; k < 3; ++k)
        {
            len[k] = ldexpl(1, (int)s.range(1, 5));
            lo[k] = s.zigzag(16);
            v.mid[k] = lo[k] + len[k] / 2;
        }
        v.exact = true;
        v.scale = 16;
        for (int i = 0; i < 6; ++i)
        {
            for (int j = 0; j < 4; ++j)
                v.plane[i][j] = 0;
            const int k = i / 2;
            if (k == 2)
            {
                // near is the larger z
                v.plane[i][2] = i & 1 ? 1 : -1;
                v.plane[i][3] = i & 1 ? -lo[2] : lo[2] + len[2];
            }
            else
            {
                v.plane[i][k] = i & 1 ? -1 : 1;
                v.plane[i][3] = i & 1 ? lo[k] + len[k] : -lo[k];
            }
        }
        for (int c = 0; c < 8; ++c)
        {
            v.corner[c][0] = lo[0] + (c & 1 ? len[0] : 0);
            v.corner[c][1] = lo[1] + (c & 2 ? len[1] : 0);
            v.corner[c][2] = lo[2] + (c & 4 ? 0 : len[2]);
        }
        v.hasCorners = true;
        if (setup == 0)
        {
            vmml::Matrix<4, 4, T> m;
            for (int k = 0; k < 16; ++k)
                m.array[k] = 0;
            for (int k = 0; k < 3; ++k)
            {
                const LD sg = k == 2 ? -1 : 1;
                m(k, k) = (T)(sg * 2 / len[k]);
                m(k, 3) = (T)(-sg * (2 * lo[k] + len[k]) / len[k]);
            }
            m(3, 3) = 1;
            enlarge(m, v.zoom);
            v.culler.setup(m);
            s.show("exact box lo", lo, 3);
            s.show("len", len, 3);
            return true;
        }
    }
    else
    {
        // a frustum (perspective or orthographic) under a rigid motion
        LD l, r, b, t, n, f;
        const bool ortho = kind == 1 || kind == 4;
        n = ldexpl(1 + s.unit53(), (int)s.zigzag(3));
        f = n * (1.5L + 20 * s.unit53());
        r = ldexpl(1 + s.unit53(), (int)s.zigzag(2));
        t = ldexpl(1 + s.unit53(), (int)s.zigzag(2));
        l = -r;
        b = -t;
        if (s.coin())
        {
            // off-axis
            const LD ox = 2 * (s.unit53() - 0.5L) * 2, oy = (s.unit53() - 0.5L) * 2;
            l += ox * r;
            r += ox * r;
            b += oy * t;
            t += oy * t;
        }
        LD R[3][3], a[3], o[3];
        double ua[3];
        unitVec<double, 3>(s, ua);
        LD na = 0;
        for (int k = 0; k < 3; ++k)
            na += (LD)ua[k] * ua[k];
        for (int k = 0; k < 3; ++k)
            a[k] = ua[k] / sqrtl(na);
        const LD th = s.chance(1, 3) ? 0 : (LD)angle<double>(s);
        rodrigues(a, th, R);
        const LD far = s.chance(1, 3) ? 0 : 10 * s.unit53();
        for (int k = 0; k < 3; ++k)
            o[k] = far * (2 * s.unit53() - 1);
        // eye coordinates e = R p + o
        LD P[4][4];
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
                P[i][j] = 0;
        P[0][0] = (ortho ? 2 : 2 * n) / (r - l);
        P[1][1] = (ortho ? 2 : 2 * n) / (t - b);
        if (ortho)
        {
            P[0][3] = -(r + l) / (r - l);
            P[1][3] = -(t + b) / (t - b);
            P[2][2] = -2 / (f - n);
            P[2][3] = -(f + n) / (f - n);
            P[3][3] = 1;
        }
        else
        {
            P[0][2] = (r + l) / (r - l);
            P[1][2] = (t + b) / (t - b);
            P[2][2] = -(f + n) / (f - n);
            P[2][3] = -2 * f * n / (f - n);
            P[3][2] = -1;
        }
        LD M[4][4];
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
            {
                M[i][j] = j == 3 ? P[i][3] : 0;
                for (int k = 0; k < 3; ++k)
                    M[i][j] += P[i][k] * (j == 3 ? o[k] : R[k][j]);
            }
        LD mx = 0;
        for (int c = 0; c < 8; ++c)
        {
            const LD z = c & 4 ? f : n, k = ortho ? 1 : z / n;
            const LD e[3] = {(c & 1 ? r : l) * k - o[0], (c & 2 ? t : b) * k - o[1],
                             -z - o[2]};
            for (int i = 0; i < 3; ++i)
            {
                v.corner[c][i] = R[0][i] * e[0] + R[1][i] * e[1] + R[2][i] * e[2];
                mx = std::max(mx, fabsl(v.corner[c][i]));
            }
        }
        if (kind >= 4)
        {
            // oblique near and far planes, and models that are scaled and sheared
            if (s.coin())
            {
                LD pf[3], nf = 0;
                for (int i = 0; i < 3; ++i)
                {
                    pf[i] = 0;
                    for (int c = 4; c < 8; ++c)
                        pf[i] += v.corner[c][i] / 4;
                    nf += (M[3][i] - M[2][i]) * (M[3][i] - M[2][i]);
                }
                for (int i = 0; i < 3; ++i)
                {
                    const LD d = 0.5L * sqrtl(nf) * (2 * s.unit53() - 1);
                    M[2][i] += d;
                    M[2][3] -= d * pf[i];
                }
            }
            if (s.coin())
            {
                LD A[3][3], N[3];
                for (int i = 0; i < 3; ++i)
                    for (int j = 0; j < 3; ++j)
                        A[i][j] = i == j ? ldexpl(1, (int)s.zigzag(2))
                                         : i < j ? (s.unit53() - 0.5L) : 0;
                for (int i = 0; i < 4; ++i)
                {
                    for (int j = 0; j < 3; ++j)
                        N[j] = M[i][0] * A[0][j] + M[i][1] * A[1][j] + M[i][2] * A[2][j];
                    for (int j = 0; j < 3; ++j)
                        M[i][j] = N[j];
                }
            }
            LD I[4][4], det;
            if (!inverse4(M, I, det) || det >= 0) // tilted across the eye
                return false;
            mx = 0;
            for (int c = 0; c < 8; ++c)
            {
                const LD e[4] = {c & 1 ? 1.L : -1.L, c & 2 ? 1.L : -1.L, c & 4 ? 1.L : -1.L, 1};
                LD q[4];
                for (int i = 0; i < 4; ++i)
                    q[i] = I[i][0] * e[0] + I[i][1] * e[1] + I[i][2] * e[2] + I[i][3];
                if (!(q[3] > 1e-6L)) // not all in front of the eye
                    return false;
                for (int i = 0; i < 3; ++i)
                {
                    v.corner[c][i] = q[i] / q[3];
                    mx = std::max(mx, fabsl(v.corner[c][i]));
                }
            }
            if (mx > 1000 * f)
                return false;
            f = std::max(f, mx);
        }
        v.hasCorners = true;
        v.scale = f;
        for (int i = 0; i < 3; ++i)
        {
            v.mid[i] = 0;
            for (int c = 0; c < 8; ++c)
                v.mid[i] += v.corner[c][i] / 8;
        }
        const LD k = s.coin() ? ldexpl(1 + s.unit53(), (int)s.zigzag(s.coin() ? 3 : 12)) : 1;
        T m[16];
        for (int i = 0; i < 16; ++i)
            m[i] = (T)(k * M[i / 4][i % 4]); // homogeneous: any positive factor
        s.show("matrix", m, 16);
        if (setup == 0)
        {
            // the planes are those of the rounded matrix
            if (!planesOf(m, v.plane, cond))
                return false;
            for (int i = 0; i < 6; ++i)
            {
                v.base[i] = 24 * eps * cond[i];
                LD nn = 0;
                for (int j = 0; j < 3; ++j)
                    nn += fabsl((LD)m[12 + j]) + fabsl((LD)m[(i / 2) * 4 + j]);
                (void)nn;
                v.slope[i] = 8 * eps;
            }
            vmml::Matrix<4, 4, T> mm;
            for (int i = 0; i < 16; ++i)
                mm(i / 4, i % 4) = m[i];
            enlarge(mm, v.zoom);
            v.culler.setup(mm);
            return true;
        }
        T exactM[16];
        (void)exactM;
        LD Md[16];
        for (int i = 0; i < 16; ++i)
            Md[i] = M[i / 4][i % 4];
        if (!planesOf(Md, v.plane, cond))
            return false;
        const LD edge = std::min(r - l, t - b);
        for (int i = 0; i < 6; ++i)
        {
            // rounding of the corners tilts a plane by eps * coordinate / edge
            LD d = 0;
            const int c = i == 5 ? 4 : i == 1 || i == 3 ? 3 : 0;
            for (int q = 0; q < 3; ++q)
                v.at[i][q] = v.corner[c][q];
            (void)d;
            const LD e2 = std::min(edge, f - n);
            v.base[i] = 32 * eps * (mx + 1);
            v.slope[i] = 64 * eps * (mx + 1) / std::min<LD>(e2, 1);
            if (kind >= 4)
            {
                // the smallest height of a triangle of corners of the face
                static const int F[6][4] = {{0, 2, 4, 6}, {1, 3, 5, 7}, {0, 1, 4, 5},
                                            {2, 3, 6, 7}, {0, 1, 2, 3}, {4, 5, 6, 7}};
                LD h = 1, wide = 0;
                for (int o = 0; o < 4; ++o)
                {
                    const LD* a = v.corner[F[i][o]];
                    const LD* b = v.corner[F[i][(o + 1) % 4]];
                    const LD* g = v.corner[F[i][(o + 2) % 4]];
                    LD u[3], w[3], x[3], lu = 0, lw = 0, lx = 0, ar = 0;
                    for (int q = 0; q < 3; ++q)
                    {
                        u[q] = b[q] - a[q];
                        w[q] = g[q] - a[q];
                        x[q] = g[q] - b[q];
                        lu += u[q] * u[q];
                        lw += w[q] * w[q];
                        lx += x[q] * x[q];
                    }
                    for (int q = 0; q < 3; ++q)
                    {
                        const LD z = u[q] * w[(q + 1) % 3] - u[(q + 1) % 3] * w[q];
                        ar += z * z;
                    }
                    wide = std::max(wide, sqrtl(std::max(lu, std::max(lw, lx))));
                    h = std::min(h, sqrtl(ar / std::max(lu, std::max(lw, lx))));
                }
                if (!(h > 0))
                    return false;
                v.slope[i] = 64 * eps * (mx + 1) / h;
                v.base[i] += v.slope[i] * wide; // "at" may be the fourth corner
            }
        }
    }
    typedef vmml::Vector<3, T> V;
    V p[8];
    for (int c = 0; c < 8; ++c)
        for (int i = 0; i < 3; ++i)
            p[c].array[i] = (T)v.corner[c][i] * v.zoom;
    for (int c = 0; c < 8; ++c)
        s.show("corner", p[c].array, 3);
    // bit 0: right, bit 1: top, bit 2: far
    v.culler.setup(p[2], p[3], p[0], p[1], p[6], p[7], p[4], p[5]);
    return true;
}

// the results that rounding leaves open, as a bit set, given for each plane the
// largest and smallest signed distance of the object (with their tolerances)
inline unsigned allowed(const LD lo[6], const LD hi[6], const LD tol[6])
{
    bool none = false, maybeNone = false, partial = false, full = true,
         maybePartial = false;
    for (int i = 0; i < 6; ++i)
    {
        // hi <= 0: outside
        if (tol[i] == 0 && lo[i] == 0 && hi[i] == 0)
            maybeNone = true; // a point on the plane
        else if (hi[i] <= -tol[i])
            none = true;
        else if (hi[i] <= tol[i] && tol[i] > 0)
            maybeNone = true;
        if (lo[i] < -tol[i] || (tol[i] == 0 && lo[i] < 0))
            partial = true;
        else if (lo[i] < tol[i])
            maybePartial = true;
        if (lo[i] < -tol[i] || (tol[i] == 0 && lo[i] < 0))
            full = false;
    }
    unsigned r = 0;
    if (none)
        return 1u << vmml::VISIBILITY_NONE;
    if (maybeNone)
        r |= 1u << vmml::VISIBILITY_NONE;
    if (partial || maybePartial || maybeNone)
        r |= 1u << vmml::VISIBILITY_PARTIAL;
    if (full && !partial)
        r |= 1u << vmml::VISIBILITY_FULL;
    return r;
}
} // namespace pbt
#endif
