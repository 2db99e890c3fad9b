// G04: culling of axis-aligned boxes
#include "cull.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"not visible", "partly visible",
                                   "fully visible", "touching", "rounding leaves it open",
                                   "set up by matrix", "set up by corners",
                                   "flat box", "bounds swapped", 0};
const char* const pbt::RULE =
    "Random view volumes (perspective and orthographic, symmetric and off-axis, "
    "rotated and moved; exact boxes), set up by matrix or corners, and boxes "
    "aimed at their planes, with bounds in either order; the classification by "
    "the eight corners' signed plane distances in long double; non-trivial = the "
    "result is decided and the box comes near a plane.";

template <class T>
void box(Src& s, int setup)
{
    Volume<T> v;
    if (s.chance(1, 6))
    {
        if (!makeVolume(s, v, 1 - setup))
            return;
    }
    if (!makeVolume(s, v, setup))
        return;
    s.label(5 + setup);
    const int n = (int)s.range(1, 6);
    for (int q = 0; q < n; ++q)
    {
        LD c[3], h[3];
        if (v.exact)
            for (int k = 0; k < 3; ++k)
            {
                c[k] = s.zigzag(96) / 2.0L;
                h[k] = s.range(0, 40) / 2.0L;
                if (s.chance(1, 4))
                {
                    // small, on or next to the planes
                    h[k] = s.coin() ? ldexpl(1, -(int)s.range(1, 10)) : s.range(1, 5) / 4.0L;
                    c[k] = s.coin() ? v.mid[k] : v.corner[s.draw(8)][k] + s.zigzag(4) / 4 * h[k];
                }
            }
        else
        {
            const int aim = (int)s.draw(4);
            const LD f = s.coin() ? 0.1L : 1;
            for (int k = 0; k < 3; ++k)
            {
                c[k] = v.mid[k] + (aim == 0 ? 3 : 1) * v.scale * (2 * s.unit53() - 1);
                h[k] = s.chance(1, 10) ? 0 : f * v.scale * s.unit53();
            }
            if (aim >= 2)
            {
                const int i = (int)s.draw(6);
                const int w = (int)s.draw(8);
                LD ext = 0;
                for (int k = 0; k < 3; ++k)
                {
                    const LD u = s.unit53();
                    c[k] = aim == 2 ? v.mid[k] * (1 - u) + u * v.corner[w][k] : c[k];
                    ext += h[k] * fabsl(v.plane[i][k]);
                }
                const LD d = v.dist(i, c);
                const LD gap = ext * (s.coin() ? 1 : -1) * (1 + (s.coin() ? 1 : -1) * 0.01L * s.unit53());
                for (int k = 0; k < 3; ++k)
                    c[k] += v.plane[i][k] * (gap - d);
            }
        }
        T lohi[3][2];
        bool flat = false;
        for (int k = 0; k < 3; ++k)
        {
            lohi[k][0] = (T)(c[k] - h[k]);
            lohi[k][1] = (T)(c[k] + h[k]);
            flat = flat || lohi[k][0] == lohi[k][1];
        }
        for (int k = 0; k < 3; ++k)
            if (s.chance(1, 4))
            {
                std::swap(lohi[k][0], lohi[k][1]);
                s.label(8);
            }
        s.show("box", &lohi[0][0], 6);
        if (flat)
            s.label(7);
        LD lo[6], hi[6], tol[6];
        bool nearPlane = false, touch = false;
        for (int i = 0; i < 6; ++i)
        {
            lo[i] = hi[i] = 0;
            tol[i] = 0;
            for (int w = 0; w < 8; ++w)
            {
                const LD p[3] = {lohi[0][w & 1], lohi[1][w >> 1 & 1],
                                 lohi[2][w >> 2 & 1]};
                const LD d = v.dist(i, p);
                if (w == 0 || d < lo[i])
                    lo[i] = d;
                if (w == 0 || d > hi[i])
                    hi[i] = d;
                tol[i] = std::max(tol[i], 2 * v.tol(i, p));
            }
            nearPlane = nearPlane || lo[i] * hi[i] < 0 ||
                        std::min(fabsl(lo[i]), fabsl(hi[i])) < hi[i] - lo[i];
            touch = touch || (v.exact && (lo[i] == 0 || hi[i] == 0));
        }
        const unsigned ok = allowed(lo, hi, tol);
        const T z = v.zoom;
        const vmml::Vector<2, T> X(lohi[0][0] * z, lohi[0][1] * z),
            Y(lohi[1][0] * z, lohi[1][1] * z), Z(lohi[2][0] * z, lohi[2][1] * z);
        const vmml::FrustumCuller<T>& cc = v.culler;
        const vmml::Visibility got = cc.test_aabb(X, Y, Z);
        const int g = (int)got;
        s.observe(g);
        if (touch)
            s.label(3);
        if (!(ok >> g & 1))
        {
            std::string m = "test_aabb() says ";
            m += g == 0 ? "not visible" : g == 1 ? "partially visible" : "fully visible";
            m += ", allowed:";
            if (ok & 1)
                m += " not visible";
            if (ok & 2)
                m += " partially visible";
            if (ok & 4)
                m += " fully visible";
            s.fail(m);
        }
        const bool decided = (ok & (ok - 1)) == 0;
        if (decided)
            s.label((unsigned)g);
        else
            s.label(4);
        s.nontrivial(decided && nearPlane);
        s.expect(cc.test_aabb(X, Y, Z) == got, "asking again gives the same answer");
    }
}

template <class T>
void byMatrix(Src& s)
{
    box<T>(s, 0);
}
template <class T>
void byCorners(Src& s)
{
    box<T>(s, 1);
}

PBT_REG("matrix_f", (byMatrix<float>));
PBT_REG("matrix_d", (byMatrix<double>));
PBT_REG("corners_f", (byCorners<float>));
PBT_REG("corners_d", (byCorners<double>));
