// G02: frustum parameters: construction, conversion, perspective set-up, near
// plane adjustment, jitter
#include <vmmlib/frustum.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"set_perspective", "adjust_near", "jitter",
                                   "set", "copy", "accessor write", "same near",
                                   "convert", 0};
const char* const pbt::RULE =
    "Random histories of frustum operations against a model of the six values, "
    "and random perspective parameters against gluPerspective in long double; "
    "non-trivial = at least two operations that change values (histories), a "
    "non-square or wide field of view (perspective).";

template <class T>
void perspective(Src& s)
{
    T fov, aspect, nearp, farp;
    switch (s.draw(3))
    {
    case 0:
        fov = (T)s.range(1, 170);
        break;
    case 1:
        fov = (T)(1e-2 + 169 * s.unit53());
        break;
    default:
    {
        static const int F[] = {90, 60, 45, 30, 120, 150};
        fov = (T)F[s.draw(6)];
    }
    }
    aspect = s.coin() ? (T)s.range(1, 8) / (T)s.range(1, 8)
                      : (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(s.coin() ? 4 : 12));
    nearp = s.coin() ? (T)s.range(1, 40) / 8
                     : (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(s.chance(1, 4) ? 30 : 10));
    farp = nearp * (T)(1 + s.range(1, 1000));
    s.show("fov", fov);
    s.show("aspect", aspect);
    s.show("near", nearp);
    s.show("far", farp);
    // whatever the frustum was before
    vmml::Frustum<T> f;
    switch (s.draw(4))
    {
    case 0:
        garbage(f.array, 6);
        break;
    case 1:
        f = vmml::Frustum<T>::DEFAULT;
        break;
    case 2:
        f.set_perspective((T)s.range(20, 120), (T)s.range(1, 16) / 8, nearp, farp);
        break;
    default:
    {
        Gen<T> g(s, 6);
        fill(g, f.array, 6);
    }
    }
    s.show("before", f.array, 6);
    f.set_perspective(fov, aspect, nearp, farp);
    const LD PI = 3.14159265358979323846264338327950288L;
    const LD x = (LD)fov * PI / 360;
    const LD top = (LD)nearp * tanl(x);
    // condition of tan at x
    const LD k = 8 + 8 * x / (sinl(x) * cosl(x));
    const LD want[6] = {-top * aspect, top * aspect, -top, top, nearp, farp};
    static const char* const N[] = {"left", "right", "bottom", "top", "near", "far"};
    (void)N;
    for (int i = 0; i < 6; ++i)
        s.near(f.array[i], want[i], i < 4 ? want[i] : 0, k, "set_perspective()", i);
    s.same(f.left(), -f.right(), "symmetric in x");
    s.same(f.bottom(), -f.top(), "symmetric in y");
    // the matrix of gluPerspective
    const vmml::Matrix<4, 4, T> m = f.compute_matrix();
    const LD c = 1 / tanl(x), n = nearp, e = farp;
    s.near(m(0, 0), c / aspect, c / aspect, k + 16, "matrix of the perspective (0,0)");
    s.near(m(1, 1), c, c, k + 16, "matrix of the perspective (1,1)");
    s.near(m(2, 2), -(e + n) / (e - n), (e + n) / (e - n), 16, "matrix (2,2)");
    s.near(m(2, 3), -2 * e * n / (e - n), 2 * e * n / (e - n), 16, "matrix (2,3)");
    s.same(m(0, 2), 0, "symmetric matrix");
    s.same(m(1, 2), 0, "symmetric matrix");
    s.label(0);
    s.nontrivial(aspect != 1 || fov > 90);
}

template <class T>
void history(Src& s)
{
    typedef vmml::Frustum<T> F;
    Gen<T> g(s, 10, 3);
    const T unit = g.unit(), least = unit / 4;
    T v[6];
    LD w[6], mag[6];
    fill(g, v, 6);
    v[4] = std::fabs(v[4]) + least;
    s.show("start", v, 6);
    F f(v[0], v[1], v[2], v[3], v[4], v[5]);
    for (int i = 0; i < 6; ++i)
    {
        w[i] = v[i];
        mag[i] = 0;
    }
    const int n = (int)s.range(1, 10);
    int changes = 0;
    for (int step = 0; step < n; ++step)
    {
        switch (s.draw(6))
        {
        case 0:
        {
            T z = s.chance(1, 6) ? f.near_plane() : (T)std::fabs(g());
            if (!(z >= (T)1e-3 * unit))
                z = unit;
            s.show("adjust_near", z);
            if (z == f.near_plane())
                s.label(6);
            const T before = f.near_plane();
            const LD ratio = (LD)z / before;
            f.adjust_near(z);
            for (int i = 0; i < 4; ++i)
            {
                w[i] *= ratio;
                mag[i] = mag[i] * ratio + fabsl(w[i]);
            }
            w[4] = z;
            s.label(1);
            changes += z != before;
            break;
        }
        case 1:
        {
            const T j[2] = {g(), g()};
            s.show("jitter", j, 2);
            f.apply_jitter(vmml::Vector<2, T>(j[0], j[1]));
            for (int i = 0; i < 4; ++i)
            {
                w[i] += j[i / 2];
                mag[i] += fabsl(w[i]) + fabsl((LD)j[i / 2]);
            }
            s.label(2);
            ++changes;
            break;
        }
        case 2:
        {
            T u[6];
            fill(g, u, 6);
            u[4] = std::fabs(u[4]) + least;
            s.show("set", u, 6);
            if (s.coin())
                f.set(u[0], u[1], u[2], u[3], u[4], u[5]);
            else
            {
                const F h(u);
                f = h;
            }
            for (int i = 0; i < 6; ++i)
            {
                w[i] = u[i];
                mag[i] = 0;
            }
            s.label(3);
            break;
        }
        case 3:
        {
            const F h(f);
            F k;
            garbage(k.array, 6);
            F& ref = (k = h);
            s.expect(&ref == &k, "assignment returns the frustum");
            F& self = f;
            f = self;
            for (int i = 0; i < 6; ++i)
            {
                s.expect(sameBits(h.array[i], f.array[i]), "copy construction");
                s.expect(sameBits(k.array[i], f.array[i]), "assignment");
            }
            f = k;
            s.label(4);
            break;
        }
        case 4:
        {
            const int i = (int)s.draw(6);
            T x = g();
            if (i == 4)
                x = std::fabs(x) + least;
            s.show("write", i);
            s.show("value", x);
            switch (i)
            {
            case 0:
                f.left() = x;
                break;
            case 1:
                f.right() = x;
                break;
            case 2:
                f.bottom() = x;
                break;
            case 3:
                f.top() = x;
                break;
            case 4:
                f.near_plane() = x;
                break;
            default:
                f.far_plane() = x;
            }
            w[i] = x;
            mag[i] = 0;
            s.label(5);
            ++changes;
            break;
        }
        default:
        {
            Gen<float> h(s, 10); // within the range of the narrower type
            T u[6];
            for (int i = 0; i < 6; ++i)
                u[i] = (T)h();
            u[4] = std::fabs(u[4]) + (T)0.25;
            const double d[6] = {u[0], u[1], u[2], u[3], u[4], u[5]};
            const float e[6] = {(float)u[0], (float)u[1], (float)u[2],
                                (float)u[3], (float)u[4], (float)u[5]};
            switch (s.draw(4))
            {
            case 0:
                f = F(vmml::Frustum<double>(d));
                break;
            case 1:
                f = vmml::Frustum<double>(d);
                break;
            case 2:
                f = F(d);
                break;
            default:
            {
                // through the narrower type
                const vmml::Frustum<float> h(e);
                F k(h);
                f = h;
                for (int i = 0; i < 6; ++i)
                    s.same(k.array[i], (T)e[i], "conversion", i);
                for (int i = 0; i < 6; ++i)
                    u[i] = (T)e[i];
            }
            }
            for (int i = 0; i < 6; ++i)
            {
                w[i] = u[i];
                mag[i] = 0;
            }
            s.label(7);
            break;
        }
        }
        const F& c = f;
        for (int i = 0; i < 6; ++i)
            s.near(f.array[i], w[i], mag[i], 8, "value", i);
        for (int i = 0; i < 6; ++i)
            w[i] = mag[i] == 0 ? w[i] : w[i];
        const T* acc[6] = {&c.left(), &c.right(), &c.bottom(),
                           &c.top(), &c.near_plane(), &c.far_plane()};
        T* mut[6] = {&f.left(), &f.right(), &f.bottom(),
                     &f.top(), &f.near_plane(), &f.far_plane()};
        for (int i = 0; i < 6; ++i)
        {
            s.expect(acc[i] == f.array + i, "const accessor");
            s.expect(mut[i] == f.array + i, "accessor");
        }
        s.near(c.get_width(), fabsl((LD)c.array[1] - (LD)c.array[0]),
               fabsl((LD)c.array[1]) + fabsl((LD)c.array[0]), 2, "get_width()");
        s.near(c.get_height(), fabsl((LD)c.array[3] - (LD)c.array[2]),
               fabsl((LD)c.array[3]) + fabsl((LD)c.array[2]), 2, "get_height()");
        bool big = false;
        for (int i = 0; i < 4; ++i)
            big = big || fabsl(w[i]) > 1e9L * unit;
        if (big)
            break;
    }
    const F def = F::DEFAULT;
    const T dv[6] = {-1, 1, -1, 1, (T)0.1, 100};
    for (int i = 0; i < 6; ++i)
        s.same(def.array[i], dv[i], "DEFAULT", i);
    const F zero;
    for (int i = 0; i < 6; ++i)
        s.same(zero.array[i], 0, "default construction", i);
    s.nontrivial(changes >= 2);
}

PBT_REG("perspective_f", (perspective<float>));
PBT_REG("perspective_d", (perspective<double>));
PBT_REG("history_f", (history<float>));
PBT_REG("history_d", (history<double>));
