// G03: culling of spheres
#include "cull.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"not visible", "partly visible",
                                   "fully visible", "touching", "rounding leaves it open",
                                   "set up by matrix", "set up by corners", 0};
const char* const pbt::RULE =
    "Random view volumes (perspective and orthographic, symmetric and off-axis, "
    "rotated and moved; exact boxes), set up by matrix or corners, and spheres "
    "aimed at their planes; the classification by signed plane distances in long "
    "double; non-trivial = the result is decided and the sphere comes near a "
    "plane.";

template <class T>
void sphere(Src& s, int setup)
{
    Volume<T> v;
    if (s.chance(1, 6))
    {
        // a culler that has been used before
        if (!makeVolume(s, v, 1 - setup))
            return;
    }
    if (!makeVolume(s, v, setup))
        return;
    s.label(5 + setup);
    const int n = (int)s.range(1, 6);
    for (int q = 0; q < n; ++q)
    {
        LD c[3], r;
        if (v.exact)
        {
            for (int k = 0; k < 3; ++k)
                c[k] = s.zigzag(96) / 2.0L;
            r = s.range(0, 40) / 2.0L;
            if (s.chance(1, 3))
            {
                // small, on or next to some of the planes
                r = s.coin() ? ldexpl(1, -(int)s.range(1, 10)) : s.range(1, 5) / 4.0L;
                for (int k = 0; k < 3; ++k)
                    if (s.coin())
                        c[k] = v.corner[s.draw(8)][k] + s.zigzag(4) / 4 * r;
                    else
                        c[k] = v.mid[k];
            }
        }
        else
        {
            const int aim = (int)s.draw(4);
            for (int k = 0; k < 3; ++k)
                c[k] = v.mid[k] + (aim == 0 ? 3 : 1) * v.scale * (2 * s.unit53() - 1);
            r = v.scale * s.unit53() * (s.coin() ? 0.1L : 1);
            if (aim >= 2)
            {
                // close to one of the planes
                const int i = (int)s.draw(6);
                const int w = (int)s.draw(8);
                for (int k = 0; k < 3; ++k)
                {
                    const LD u = s.unit53();
                    c[k] = aim == 2 ? v.mid[k] * (1 - u) + u * v.corner[w][k] : c[k];
                }
                const LD d = v.dist(i, c);
                const LD gap = r * (s.coin() ? 1 : -1) * (1 + (s.coin() ? 1 : -1) * 0.01L * s.unit53());
                for (int k = 0; k < 3; ++k)
                    c[k] += v.plane[i][k] * (gap - d);
            }
        }
        T x[4] = {(T)c[0], (T)c[1], (T)c[2], (T)r};
        s.show("sphere", x, 4);
        LD p[3], lo[6], hi[6], tol[6];
        for (int k = 0; k < 3; ++k)
            p[k] = x[k];
        bool nearPlane = false, touch = false;
        for (int i = 0; i < 6; ++i)
        {
            const LD d = v.dist(i, p);
            lo[i] = d - x[3];
            hi[i] = d + x[3];
            tol[i] = v.tol(i, p) + (v.exact ? 0 : 4 * (LD)std::numeric_limits<T>::epsilon() * x[3]);
            nearPlane = nearPlane || fabsl(d) < 2 * (LD)x[3];
            touch = touch || (v.exact && x[3] > 0 && (lo[i] == 0 || hi[i] == 0));
        }
        const unsigned ok = allowed(lo, hi, tol);
        const vmml::Vector<4, T> sp(x[0] * v.zoom, x[1] * v.zoom, x[2] * v.zoom,
                                    x[3] * v.zoom);
        const vmml::FrustumCuller<T>& cc = v.culler;
        const vmml::Visibility got = cc.test_sphere(sp);
        const int g = (int)got;
        s.observe(g);
        if (touch)
            s.label(3);
        if (!(ok >> g & 1))
        {
            std::string m = "test_sphere() says ";
            m += g == 0 ? "not visible" : g == 1 ? "partially visible" : "fully visible";
            m += ", allowed:";
            if (ok & 1)
                m += " not visible";
            if (ok & 2)
                m += " partially visible";
            if (ok & 4)
                m += " fully visible";
            s.fail(m);
        }
        const bool decided = (ok & (ok - 1)) == 0;
        if (decided)
            s.label((unsigned)g);
        else
            s.label(4);
        s.nontrivial(decided && nearPlane);
        s.expect(cc.test_sphere(sp) == got, "asking again gives the same answer");
    }
}

template <class T>
void byMatrix(Src& s)
{
    sphere<T>(s, 0);
}
template <class T>
void byCorners(Src& s)
{
    sphere<T>(s, 1);
}

PBT_REG("matrix_f", (byMatrix<float>));
PBT_REG("matrix_d", (byMatrix<double>));
PBT_REG("corners_f", (byCorners<float>));
PBT_REG("corners_d", (byCorners<double>));
