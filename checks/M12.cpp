// M12: 4x4 transformations: rotations, scaling, translation
#include <vmmlib/matrix.hpp>
#include <vmmlib/util.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"axis rotation", "post-rotation",
                                   "pre-rotation", "scale", "translation",
                                   "created or applied", "mixed types",
                                   "sequence", 0};
const char* const pbt::RULE =
    "Random 4x4 matrices and random sequences of 1-6 transformations (angles "
    "over several turns, unit axes, anisotropic scales, translations, arguments "
    "of another type) against a long double model that composes the textbook "
    "matrices; non-trivial = the matrix is general and no parameter is neutral.";

struct M4
{
    LD a[4][4];   // value
    LD mag[4][4]; // magnitude of the terms, for the error bound
    M4()
    {
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
                mag[i][j] = fabsl(a[i][j] = i == j);
    }
    template <class T>
    explicit M4(const vmml::Matrix<4, 4, T>& m)
    {
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
                mag[i][j] = fabsl(a[i][j] = m.array[j * 4 + i]);
    }
    M4 operator*(const M4& o) const
    {
        M4 r;
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
            {
                r.a[i][j] = r.mag[i][j] = 0;
                for (int k = 0; k < 4; ++k)
                {
                    r.a[i][j] += a[i][k] * o.a[k][j];
                    r.mag[i][j] += mag[i][k] * o.mag[k][j];
                }
            }
        return r;
    }
};

inline M4 rotation(const LD* ax, LD th)
{
    LD R[3][3];
    rodrigues(ax, th, R);
    M4 m;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            m.a[i][j] = R[i][j];
            // the angle itself is exact; its sine and cosine are rounded
            m.mag[i][j] = 1 + std::min(fabsl(th), 3.2L);
        }
    return m;
}
inline M4 axisRotation(int axis, LD th)
{
    LD ax[3] = {0, 0, 0};
    ax[axis] = 1;
    M4 m = rotation(ax, th);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            if (i == axis || j == axis)
                m.mag[i][j] = fabsl(m.a[i][j]);
    return m;
}
inline M4 scaling(LD x, LD y, LD z)
{
    M4 m;
    const LD s[3] = {x, y, z};
    for (int i = 0; i < 3; ++i)
        m.mag[i][i] = fabsl(m.a[i][i] = s[i]);
    return m;
}
inline M4 translation(LD x, LD y, LD z)
{
    M4 m;
    const LD t[3] = {x, y, z};
    for (int i = 0; i < 3; ++i)
        m.mag[i][3] = fabsl(m.a[i][3] = t[i]);
    return m;
}

template <class T>
void check(Src& s, const vmml::Matrix<4, 4, T>& m, const M4& w, LD k, const char* what)
{
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            s.near(m.array[j * 4 + i], w.a[i][j], w.mag[i][j], k, what, i * 4 + j);
}

template <class T, class U>
void ops(Src& s)
{
    Gen<T> g(s, 6, std::is_same<T, U>::value ? 2 : 0);
    vmml::Matrix<4, 4, T> m;
    if (s.chance(3, 4))
        fill(g, m.array, 16);
    bool rich = true;
    for (int i = 0; i < 16; ++i)
        rich = rich && (m.array[i] != 0 || s.chance(1, 2));
    s.show("m(col-major)", m.array, 16);
    M4 w(m);
    const int n = 1 + (int)s.draw(6);
    if (n > 1)
        s.label(7);
    if (!std::is_same<T, U>::value)
        s.label(6);
    LD k = 0;
    for (int i = 0; i < n; ++i)
    {
        const int op = (int)s.draw(15);
        s.show("op", op);
        const char* what = "";
        k += 12;
        switch (op)
        {
        case 0:
        {
            const U th = angle<U>(s);
            T ax[3];
            unitVec<T, 3>(s, ax);
            LD la[3] = {ax[0], ax[1], ax[2]};
            s.show("angle", th);
            s.show("axis", ax, 3);
            m.rotate(th, vmml::Vector<3, T>(ax[0], ax[1], ax[2]));
            // sets the matrix
            w = rotation(la, (T)th);
            k = 12;
            what = "rotate()";
            s.label(0);
            rich = true;
            break;
        }
        case 1:
        case 2:
        case 3:
        {
            const U th = angle<U>(s);
            s.show("angle", th);
            if (op == 1)
                m.rotate_x(th);
            if (op == 2)
                m.rotate_y(th);
            if (op == 3)
                m.rotate_z(th);
            w = w * axisRotation(op - 1, (T)th);
            what = op == 1 ? "rotate_x()" : op == 2 ? "rotate_y()" : "rotate_z()";
            rich = rich && th != 0;
            s.label(1);
            break;
        }
        case 4:
        case 5:
        case 6:
        {
            const U th = angle<U>(s);
            s.show("angle", th);
            if (op == 4)
                m.pre_rotate_x(th);
            if (op == 5)
                m.pre_rotate_y(th);
            if (op == 6)
                m.pre_rotate_z(th);
            w = axisRotation(op - 4, -(LD)(T)th) * w;
            what = op == 4 ? "pre_rotate_x()" : op == 5 ? "pre_rotate_y()" : "pre_rotate_z()";
            rich = rich && th != 0;
            s.label(2);
            break;
        }
        case 7:
        case 8:
        case 9:
        {
            Gen<U> h(s, 4, std::is_same<T, U>::value ? 7 : 0);
            U v[3];
            fill(h, v, 3);
            s.show("scale", v, 3);
            if (op == 7)
                m.scale(v);
            if (op == 8)
                m.scale(v[0], (T)v[1], (T)v[2]);
            if (op == 9)
                m.scale(vmml::Vector<3, U>(v[0], v[1], v[2]));
            w = w * scaling((T)v[0], (T)v[1], (T)v[2]);
            what = "scale()";
            rich = rich && v[0] != v[1] && v[1] != v[2] && v[0] != 1;
            s.label(3);
            break;
        }
        case 10:
        {
            Gen<U> h(s, 4, std::is_same<T, U>::value ? 7 : 0);
            U v[3];
            fill(h, v, 3);
            s.show("scale_translation", v, 3);
            if (s.coin())
                m.scale_translation(v);
            else
                m.scale_translation(vmml::Vector<3, U>(v[0], v[1], v[2]));
            for (int j = 0; j < 3; ++j)
            {
                w.a[j][3] *= (T)v[j];
                w.mag[j][3] *= fabsl((T)v[j]);
            }
            what = "scale_translation()";
            s.label(4);
            break;
        }
        case 11:
        {
            Gen<U> h(s, 6, std::is_same<T, U>::value ? 2 : 0);
            U v[3];
            fill(h, v, 3);
            s.show("set_translation", v, 3);
            switch (s.draw(3))
            {
            case 0:
                m.set_translation(v);
                break;
            case 1:
                m.set_translation(v[0], v[1], v[2]);
                break;
            default:
                m.set_translation(vmml::Vector<3, U>(v[0], v[1], v[2]));
            }
            for (int j = 0; j < 3; ++j)
                w.mag[j][3] = fabsl(w.a[j][3] = (T)v[j]);
            what = "set_translation()";
            s.label(4);
            break;
        }
        case 12:
        {
            Gen<T> h(s, 6, std::is_same<T, U>::value ? 2 : 0);
            T v[3];
            fill(h, v, 3);
            s.show("apply_translation", v, 3);
            vmml::apply_translation(m, v[0], v[1], v[2]);
            w = w * translation(v[0], v[1], v[2]);
            what = "apply_translation()";
            s.label(5);
            break;
        }
        case 13:
        {
            const T th = angle<T>(s);
            T ax[3];
            unitVec<T, 3>(s, ax);
            LD la[3] = {ax[0], ax[1], ax[2]};
            s.show("apply_rotation", th);
            s.show("axis", ax, 3);
            vmml::apply_rotation(m, th, ax[0], ax[1], ax[2]);
            w = w * rotation(la, th);
            what = "apply_rotation()";
            s.label(5);
            break;
        }
        default:
        {
            Gen<T> h(s, 6, std::is_same<T, U>::value ? 2 : 0);
            const T v = h();
            const int c = (int)s.draw(3);
            s.show("component", c);
            s.show("v", v);
            (c == 0 ? m.x() : c == 1 ? m.y() : m.z()) = v;
            w.mag[c][3] = fabsl(w.a[c][3] = v);
            what = "x(), y(), z()";
            s.label(4);
        }
        }
        check(s, m, w, k, what);
        // the translation reads back as it is
        vmml::Vector<3, U> t;
        m.get_translation(t);
        const vmml::Vector<3, T> u = m.get_translation();
        for (int j = 0; j < 3; ++j)
        {
            s.same(t.array[j], (U)m.array[12 + j], "get_translation(t)", j);
            s.same(u.array[j], m.array[12 + j], "get_translation()", j);
        }
    }
    s.nontrivial(rich);
}

template <class T>
void create(Src& s)
{
    Gen<T> g(s, 8, 2);
    vmml::Vector<3, T> v;
    fill(g, v.array, 3);
    s.show("v", v.array, 3);
    s.label(5);
    check(s, vmml::create_translation(v), translation(v.array[0], v.array[1], v.array[2]), 0,
          "create_translation()");
    check(s, vmml::create_translation<4, 4, T>(v),
          translation(v.array[0], v.array[1], v.array[2]), 0, "create_translation<4, 4>()");
    check(s, (vmml::Matrix<4, 4, T>)vmml::create_scaling(v),
          scaling(v.array[0], v.array[1], v.array[2]), 0, "create_scaling(vector)");
    check(s, vmml::create_scaling<4, 4, T>(v), scaling(v.array[0], v.array[1], v.array[2]), 0,
          "create_scaling<4, 4>(vector)");
    check(s, vmml::create_scaling(v.array[0]), scaling(v.array[0], v.array[0], v.array[0]), 0,
          "create_scaling(scalar)");
    const T th = angle<T>(s);
    T ax[3];
    unitVec<T, 3>(s, ax);
    LD la[3] = {ax[0], ax[1], ax[2]};
    s.show("angle", th);
    s.show("axis", ax, 3);
    const vmml::Vector<3, T> axis(ax[0], ax[1], ax[2]);
    const vmml::Matrix<4, 4, T> r = vmml::create_rotation(th, axis);
    check(s, r, rotation(la, th), 12, "create_rotation()");
    check(s, vmml::create_rotation<4, 4, T>(th, axis), rotation(la, th), 12,
          "create_rotation<4, 4>()");
    // a rotation preserves lengths and its axis
    const vmml::Vector<3, T> p = r * v;
    LD n0 = 0, n1 = 0;
    for (int i = 0; i < 3; ++i)
    {
        n0 += (LD)v.array[i] * v.array[i];
        n1 += (LD)p.array[i] * p.array[i];
    }
    const LD eps = std::numeric_limits<T>::epsilon();
    s.within(n1, n0, 64 * eps * n0 + 1e-30L, "a rotation preserves lengths");
    const vmml::Vector<3, T> q = r * axis;
    for (int i = 0; i < 3; ++i)
        s.within(q.array[i], ax[i], 64 * eps, "a rotation preserves its axis", i);
    s.nontrivial(th != 0 && v.array[0] != v.array[1] && v.array[1] != v.array[2]);
}

PBT_REG("ops_ff", (ops<float, float>));
PBT_REG("ops_dd", (ops<double, double>));
PBT_REG("ops_fd", (ops<float, double>));
PBT_REG("ops_df", (ops<double, float>));
PBT_REG("create_f", (create<float>));
PBT_REG("create_d", (create<double>));
