// G06: ray-sphere intersection
#include <vmmlib/intersection.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"hit from outside", "hit from inside", "miss",
                                   "behind", "rounding leaves it open",
                                   "direction not of unit length", "origin at the centre",
                                   "small or large scene", 0};
const char* const pbt::RULE =
    "Random rays (direction of any length) and spheres: aimed, grazing, from "
    "inside, behind; against the roots of the quadratic in long double; "
    "non-trivial = the result is decided and the line of the ray meets the sphere.";

template <class T>
void ray(Src& s)
{
    typedef vmml::Vector<3, T> V;
    const LD eps = std::numeric_limits<T>::epsilon();
    T o[3], d[3], c[3], r;
    Gen<T> g(s, 8, 4);
    fill(g, o, 3);
    unitVec<T, 3>(s, d);
    r = std::fabs(g());
    if (!(r > 0))
        r = g.unit();
    switch (s.draw(5))
    {
    case 0: // anywhere
        fill(g, c, 3);
        break;
    case 1: // around the ray, in front or behind
    case 2:
    {
        const LD a = (s.chance(1, 3) ? -1 : 1) * 4 * r * s.unit53();
        T u[3];
        unitVec<T, 3>(s, u);
        const LD off = r * (s.coin() ? s.unit53() : 0.9L + 0.2L * s.unit53());
        LD dot = 0, n = 0, p[3];
        for (int k = 0; k < 3; ++k)
            dot += (LD)u[k] * d[k];
        for (int k = 0; k < 3; ++k)
        {
            p[k] = u[k] - dot * d[k];
            n += p[k] * p[k];
        }
        n = sqrtl(n);
        for (int k = 0; k < 3; ++k)
            c[k] = (T)(o[k] + a * d[k] + (n > 1e-3L ? off * p[k] / n : 0));
        break;
    }
    case 3: // origin inside
    {
        T u[3];
        unitVec<T, 3>(s, u);
        const LD off = r * s.unit53();
        for (int k = 0; k < 3; ++k)
            c[k] = (T)(o[k] + off * u[k]);
        break;
    }
    default:
        for (int k = 0; k < 3; ++k)
            c[k] = o[k];
        s.label(6);
    }
    if (s.coin())
    {
        const T f = (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(30));
        for (int k = 0; k < 3; ++k)
            d[k] *= f;
        s.label(5);
    }
    if (s.chance(1, 4))
    {
        // a small or large scene
        const T f = (T)std::ldexp(1., (int)s.zigzag(sizeof(T) < 8 ? 20 : 300));
        for (int k = 0; k < 3; ++k)
        {
            o[k] *= f;
            c[k] *= f;
        }
        r *= f;
        s.label(7);
    }
    s.show("origin", o, 3);
    s.show("direction", d, 3);
    s.show("centre", c, 3);
    s.show("radius", r);

    LD n = 0, D2 = 0, proj = 0, m2 = 0;
    for (int k = 0; k < 3; ++k)
        n += (LD)d[k] * d[k];
    n = sqrtl(n);
    for (int k = 0; k < 3; ++k)
    {
        const LD x = (LD)c[k] - o[k];
        D2 += x * x;
        proj += x * d[k] / n;
        m2 += ((LD)c[k] * c[k] + (LD)o[k] * o[k]);
    }
    (void)m2;
    const LD r2 = (LD)r * r;
    // the difference of the positions has a relative error of eps per component
    const LD err = 24 * eps * (D2 + r2);
    const LD perr = 16 * eps * sqrtl(D2);
    const LD q = r2 - (D2 - proj * proj);
    const bool inOpen = fabsl(D2 - r2) <= err;
    const bool inside = D2 <= r2;
    const bool hitOpen = fabsl(q) <= err;
    const bool behindOpen = fabsl(proj) <= perr;

    const vmml::Intersection<T> isect(V(o[0], o[1], o[2]), V(d[0], d[1], d[2]));
    T t = (T)-12345;
    const bool got = isect.test_sphere(vmml::Vector<4, T>(c[0], c[1], c[2], r), t);
    s.observe(got);
    // expectation
    bool canMiss = false, canHit = false;
    if (hitOpen)
        canMiss = canHit = true;
    if (q < 0)
        canMiss = true;
    else
    {
        if (!inside || inOpen)
        {
            // outside: a hit unless behind
            if (proj < 0 || behindOpen)
                canMiss = true;
            if (proj >= 0 || behindOpen)
                canHit = true;
        }
        if (inside || inOpen)
            canHit = true;
    }
    if (got ? !canHit : !canMiss)
        s.fail(got ? "test_sphere() reports a hit where there is none"
                   : "test_sphere() misses a sphere");
    const bool decided = !(canHit && canMiss);
    if (!decided)
        s.label(4);
    else if (!got)
        s.label(q >= 0 ? 3 : 2);
    else
        s.label(inside ? 1 : 0);
    if (got)
    {
        const LD root = q > 0 ? sqrtl(q) : 0;
        const LD terr = perr + (q > 4 * err ? err / root : 2 * sqrtl(err + (q > 0 ? q : 0)));
        const LD enter = proj - root, leave = proj + root;
        LD want = inside ? leave : enter;
        if (inOpen && fabsl((LD)t - (inside ? enter : leave)) < fabsl((LD)t - want))
            want = inside ? enter : leave;
        s.within(t, want, terr + 8 * eps * fabsl(want), "distance along the ray");
        // the point is on the sphere
        LD e2 = 0;
        for (int k = 0; k < 3; ++k)
        {
            const LD x = ((LD)o[k] - c[k]) + (LD)t * d[k] / n;
            e2 += x * x;
        }
        s.within((T)0, sqrtl(e2) - r, terr + 16 * eps * (r + fabsl((LD)t)),
                 "distance of the point from the sphere");
        if (!inOpen)
            s.expect((LD)t >= -terr, "the point is in front of the origin");
    }
    s.nontrivial(decided && q > 0);
    T t2 = 1;
    s.expect(isect.test_sphere(vmml::Vector<4, T>(c[0], c[1], c[2], r), t2) == got,
             "asking again gives the same answer");
    if (got)
        s.same(t2, t, "asking again gives the same distance");
}

PBT_REG("ray_f", (ray<float>));
PBT_REG("ray_d", (ray<double>));
