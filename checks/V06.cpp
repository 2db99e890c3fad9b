// V06: rotation of a vector, spheres and planes
#include <vmmlib/vector.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"quarter turn", "axis not of unit length",
                                   "point inside the sphere", "thin triangle",
                                   "coordinate axis", "small or large scene", 0};
const char* const pbt::RULE =
    "Random vectors, axes (coordinate, random, scaled), angles (quarter turns, "
    "beyond a full turn, tiny, negative), spheres, planes and triangles against "
    "long double references; non-trivial = the vector is neither zero nor "
    "parallel to the axis, or the figure is not degenerate.";

template <class T>
LD len3(const T* a)
{
    return sqrtl((LD)a[0] * a[0] + (LD)a[1] * a[1] + (LD)a[2] * a[2]);
}

// a factor for everything in a scene; power is that of the numbers in the computation
template <class T>
T sceneScale(Src& s, const std::vector<T>& all, int power)
{
    if (!s.chance(1, 4))
        return 1;
    s.label(5);
    const int top = std::numeric_limits<T>::max_exponent / power - 4;
    const int e = (int)s.zigzag(top * 2 / 3);
    for (size_t i = 0; i < all.size(); ++i)
    {
        const LD x = fabsl(ldexpl((LD)all[i], e));
        if (x > ldexpl(1, top) || (x > 0 && x < ldexpl(1, -top)))
            return 1;
    }
    return (T)std::ldexp(1., e);
}

template <class T>
void rotate(Src& s)
{
    typedef vmml::Vector<3, T> V;
    Gen<T> g(s, 14, 1);
    V v, axis;
    fill(g, v.array, 3);
    unitVec<T, 3>(s, axis.array);
    T scale = 1;
    if (s.coin())
    {
        scale = (T)std::ldexp(1.0 + s.unit53(), (int)s.zigzag(40));
        s.label(1);
        for (int i = 0; i < 3; ++i)
            axis.array[i] *= scale;
    }
    const T th = angle<T>(s);
    s.show("v", v.array, 3);
    s.show("axis", axis.array, 3);
    s.show("theta", th);
    const V v0 = v, axis0 = axis;
    const V r = v.rotate(th, axis);
    LD a[3], R[3][3];
    const LD al = len3(axis0.array);
    for (int i = 0; i < 3; ++i)
        a[i] = axis0.array[i] / al;
    rodrigues(a, th, R);
    const LD mag = len3(v0.array);
    // the angle itself is exact; cos/sin of it are rounded once
    for (int i = 0; i < 3; ++i)
    {
        const LD w = R[i][0] * v0.array[0] + R[i][1] * v0.array[1] + R[i][2] * v0.array[2];
        s.near(r.array[i], w, mag, 24, "rotate()", i);
        s.same(v.array[i], v0.array[i], "rotated vector unchanged", i);
        s.same(axis.array[i], axis0.array[i], "axis unchanged", i);
    }
    s.near((T)len3(r.array), mag, mag, 32, "length is preserved");
    const LD par = fabsl(a[0] * v0.array[0] + a[1] * v0.array[1] + a[2] * v0.array[2]);
    s.nontrivial(mag > 0 && par < 0.999L * mag && th != 0);
}

template <class T>
void sphere(Src& s)
{
    Gen<T> g(s, 10, 2);
    vmml::Vector<4, T> sp;
    vmml::Vector<3, T> p;
    fill(g, sp.array, 3);
    sp.array[3] = g.positive();
    fill(g, p.array, 3);
    if (s.chance(1, 3))
        for (int i = 0; i < 3; ++i)
            p.array[i] = sp.array[i] + (T)(s.unit53() - 0.5) * sp.array[3];
    std::vector<T> all(sp.array, sp.array + 4);
    all.insert(all.end(), p.array, p.array + 3);
    const T f = sceneScale<T>(s, all, 2);
    for (int i = 0; i < 4; ++i)
        sp.array[i] *= f;
    for (int i = 0; i < 3; ++i)
        p.array[i] *= f;
    s.show("sphere", sp.array, 4);
    s.show("point", p.array, 3);
    LD d[3];
    for (int i = 0; i < 3; ++i)
        d[i] = (LD)p.array[i] - sp.array[i];
    const LD dist = len3(d);
    const LD r = sp.array[3];
    if (dist < r)
        s.label(2);
    s.near(sp.distance_to_sphere(p), dist - r, dist + r, 12, "distance_to_sphere()");
    if (dist > 0)
    {
        const vmml::Vector<3, T> q = sp.project_point_onto_sphere(p);
        for (int i = 0; i < 3; ++i)
            s.near(q.array[i], sp.array[i] + d[i] / dist * r,
                   fabsl(sp.array[i]) + r, 16, "project_point_onto_sphere()", i);
        s.nontrivial();
    }
}

template <class T>
void plane(Src& s)
{
    Gen<T> g(s, 10, 2);
    vmml::Vector<4, T> pl;
    vmml::Vector<3, T> p;
    unitVec<T, 3>(s, pl.array);
    pl.array[3] = g();
    fill(g, p.array, 3);
    std::vector<T> all(p.array, p.array + 3);
    all.push_back(pl.array[3]);
    const T f = sceneScale<T>(s, all, 1);
    pl.array[3] *= f;
    for (int i = 0; i < 3; ++i)
        p.array[i] *= f;
    s.show("plane", pl.array, 4);
    s.show("point", p.array, 3);
    LD d = pl.array[3], mag = fabsl(pl.array[3]);
    for (int i = 0; i < 3; ++i)
    {
        d += (LD)pl.array[i] * p.array[i];
        mag += fabsl((LD)pl.array[i] * p.array[i]);
    }
    s.near(pl.distance_to_plane(p), d, mag, 8, "distance_to_plane()");
    const vmml::Vector<3, T> q = pl.project_point_onto_plane(p);
    LD e = pl.array[3];
    for (int i = 0; i < 3; ++i)
    {
        s.near(q.array[i], p.array[i] - d * pl.array[i], fabsl(p.array[i]) + mag,
               12, "project_point_onto_plane()", i);
        e += (LD)pl.array[i] * q.array[i];
    }
    s.within((T)e, 0,
             64 * std::numeric_limits<T>::epsilon() * (mag + len3(p.array)),
             "the projection lies in the plane");
    s.nontrivial(d != 0);
}

template <class T>
void computePlane(Src& s)
{
    typedef vmml::Vector<3, T> V;
    Gen<T> g(s, 10, 4);
    V p[3];
    std::vector<T> all;
    for (int i = 0; i < 3; ++i)
    {
        fill(g, p[i].array, 3);
        all.insert(all.end(), p[i].array, p[i].array + 3);
    }
    const T f = sceneScale<T>(s, all, 4);
    for (int i = 0; i < 3; ++i)
    {
        p[i] *= f;
        s.show("p", p[i].array, 3);
    }
    LD u[3], v[3], n[3];
    for (int i = 0; i < 3; ++i)
    {
        u[i] = (LD)p[1].array[i] - p[2].array[i];
        v[i] = (LD)p[0].array[i] - p[1].array[i];
    }
    for (int i = 0; i < 3; ++i)
        n[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3];
    const LD ln = len3(n);
    const LD eps = std::numeric_limits<T>::epsilon();
    const LD cond = ln > 0 ? len3(u) * len3(v) / ln : 1e30L;
    const vmml::Vector<4, T> pl = vmml::compute_plane(p[0], p[1], p[2]);
    if (cond * eps > 1e-3L)
    {
        s.label(3);
        return;
    }
    for (int i = 0; i < 3; ++i)
        s.within(pl.array[i], n[i] / ln, 24 * eps * cond, "unit normal of the plane", i);
    const LD reach = len3(p[0].array) + len3(p[1].array) + len3(p[2].array);
    for (int j = 0; j < 3; ++j)
    {
        LD d = pl.array[3];
        for (int i = 0; i < 3; ++i)
            d += (LD)pl.array[i] * p[j].array[i];
        s.within((T)d, 0, 64 * eps * cond * reach, "the plane contains its points", j);
    }
    s.nontrivial();
}

PBT_REG("rotate_f", rotate<float>, 32);
PBT_REG("rotate_d", rotate<double>, 32);
PBT_REG("sphere_f", sphere<float>);
PBT_REG("sphere_d", sphere<double>);
PBT_REG("plane_f", plane<float>);
PBT_REG("plane_d", plane<double>);
PBT_REG("compute_plane_f", computePlane<float>);
PBT_REG("compute_plane_d", computePlane<double>);
