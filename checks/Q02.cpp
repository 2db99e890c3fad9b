// Q02: quaternions as rotations
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>

#include "gen.hpp"

using namespace pbt;
const char* const pbt::LABELS[] = {"near half a turn", "exactly half a turn",
                                   "small angle", "general", "x largest",
                                   "y largest", "z largest", "w largest", 0};
const char* const pbt::RULE =
    "Random unit axes and angles (concentrated near 0 and half a turn) converted "
    "between angle/axis, matrix and quaternion, composed, and applied to vectors, "
    "against Rodrigues' formula in long double; non-trivial = the axis is not a "
    "coordinate axis.";

template <class T>
LD rotAngle(Src& s)
{
    const LD PI = 3.14159265358979323846264338327950288L;
    switch (s.draw(5))
    {
    case 0:
        s.label(0);
        return (s.coin() ? PI : -PI) + (2 * (LD)s.unit53() - 1) * powl(10, -(LD)s.range(1, 6));
    case 1:
        s.label(1);
        return s.coin() ? PI : -PI;
    case 2:
        s.label(2);
        return (2 * (LD)s.unit53() - 1) * powl(10, -(LD)s.range(1, 4));
    default:
        s.label(3);
        return (2 * (LD)s.unit53() - 1) * 2 * PI;
    }
}

template <class T>
bool axisOf(Src& s, T* ax)
{
    unitVec<T, 3>(s, ax);
    if (s.chance(1, 6))
    {
        // close to a coordinate axis
        const int i = (int)s.draw(3);
        LD w[3] = {0, 0, 0}, n = 1;
        w[i] = s.coin() ? 1 : -1;
        for (int k = 1; k < 3; ++k)
        {
            const LD d = (2 * s.unit53() - 1) * powl(10, -(LD)s.range(1, 9));
            w[(i + k) % 3] = d;
            n += d * d;
        }
        for (int k = 0; k < 3; ++k)
            ax[k] = (T)(w[k] / sqrtl(n));
    }
    int z = 0;
    for (int i = 0; i < 3; ++i)
        z += ax[i] == 0;
    if (z < 2 && s.chance(1, 4))
    {
        // two components of (almost) the same size
        const int i = (int)s.draw(3), j = (i + 1 + (int)s.draw(2)) % 3;
        LD w[3] = {ax[0], ax[1], ax[2]};
        w[j] = w[i] * (1 + s.zigzag(4) * ldexpl(1, -(int)s.range(2, std::numeric_limits<T>::digits)));
        if (s.coin())
            w[j] = -w[j];
        const LD n = sqrtl(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
        if (n > 0)
            for (int k = 0; k < 3; ++k)
                ax[k] = (T)(w[k] / n);
    }
    return z < 2;
}

template <class T>
vmml::Quaternion<T> quat(const LD* ax, LD th)
{
    return vmml::Quaternion<T>((T)(ax[0] * sinl(th / 2)), (T)(ax[1] * sinl(th / 2)),
                               (T)(ax[2] * sinl(th / 2)), (T)cosl(th / 2));
}

template <class T>
void toMatrix(Src& s)
{
    T axT[3];
    const bool gen = axisOf(s, axT);
    const LD ax[3] = {axT[0], axT[1], axT[2]}, th = rotAngle<T>(s);
    vmml::Quaternion<T> q = quat<T>(ax, th);
    const T scale = s.coin() ? T(1) : (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(30));
    if (scale != 1)
        q *= scale;
    s.show("q", q.array, 4);
    LD R[3][3];
    rodrigues(ax, th, R);
    const LD n2 = (LD)scale * scale;
    const vmml::Matrix<3, 3, T> m = q.get_rotation_matrix();
    vmml::Matrix<4, 4, T> m4;
    garbage(m4.array, 16);
    q.get_rotation_matrix(m4);
    const LD eps = std::numeric_limits<T>::epsilon();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            s.within(m.array[j * 3 + i], n2 * R[i][j], 16 * eps * n2, "get_rotation_matrix()", i * 3 + j);
            s.within(m4.array[j * 4 + i], n2 * R[i][j], 16 * eps * n2,
                     "get_rotation_matrix(4x4)", i * 3 + j);
        }
    vmml::Matrix<4, 4, T> rest;
    garbage(rest.array, 16);
    for (int i = 0; i < 16; ++i)
        if (i % 4 == 3 || i / 4 == 3)
            s.same(m4.array[i], rest.array[i], "get_rotation_matrix(4x4) leaves the rest", i);
    s.nontrivial(gen);
}

// quaternions of simple numbers, of any length
template <class T>
void simple(Src& s)
{
    vmml::Quaternion<T> q;
    LD n = 0, h = s.coin() ? 1 : 0.5L;
    int nz = 0;
    for (int i = 0; i < 4; ++i)
    {
        q.array[i] = (T)(s.zigzag(3) * h);
        n += (LD)q.array[i] * q.array[i];
        nz += q.array[i] != 0;
    }
    if (n == 0)
        return;
    s.show("q", q.array, 4);
    // q e q* is exact in these numbers
    const LD x = q.array[0], y = q.array[1], z = q.array[2], w = q.array[3];
    const LD R[3][3] = {{w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)},
                        {2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)},
                        {2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z}};
    const LD eps = std::numeric_limits<T>::epsilon();
    const vmml::Matrix<3, 3, T> m = q.get_rotation_matrix();
    const vmml::Quaternion<T> inv = vmml::Quaternion<T>(q).inverse();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            s.within(m.array[j * 3 + i], R[i][j], 16 * eps * n, "get_rotation_matrix()", i * 3 + j);
    // and applied to vectors of the same kind, from both sides
    vmml::Quaternion<T> v;
    for (int i = 0; i < 3; ++i)
        v.array[i] = (T)s.zigzag(3);
    v.array[3] = 0;
    s.show("v", v.array, 3);
    const vmml::Quaternion<T> r = q * v * inv;
    for (int i = 0; i < 3; ++i)
    {
        LD u = 0;
        for (int j = 0; j < 3; ++j)
            u += R[i][j] * v.array[j];
        s.within(r.array[i], u / n, 96 * eps, "q v q^-1", i);
    }
    s.within(r.array[3], 0, 96 * eps, "q v q^-1 is a vector");
    s.nontrivial(nz > 1);
}

// rotation matrix -> quaternion
template <size_t D, class T>
void fromMatrix(Src& s)
{
    T axT[3];
    const bool gen = axisOf(s, axT);
    const LD ax[3] = {axT[0], axT[1], axT[2]}, th = rotAngle<T>(s);
    LD R[3][3];
    rodrigues(ax, th, R);
    vmml::Matrix<D, D, T> m;
    Gen<T> g(s, 6);
    fill(g, m.array, D * D);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            m.array[j * D + i] = (T)R[i][j];
    s.show("m(col-major)", m.array, D * D);
    s.show("angle", (double)th);
    s.show("axis", axT, 3);
    const vmml::Quaternion<T> q(m);
    vmml::Quaternion<T> q2;
    garbage(q2.array, 4);
    q2.set(m);
    LD w[4] = {ax[0] * sinl(th / 2), ax[1] * sinl(th / 2), ax[2] * sinl(th / 2), cosl(th / 2)};
    // q and -q are the same rotation
    LD dot = 0;
    for (int i = 0; i < 4; ++i)
        dot += w[i] * q.array[i];
    const LD sign = dot < 0 ? -1 : 1;
    const LD eps = std::numeric_limits<T>::epsilon();
    int big = 3;
    for (int i = 0; i < 4; ++i)
        if (fabsl(w[i]) > fabsl(w[big]))
            big = i;
    s.label(4 + big);
    // the trace 4w^2 is divided by as long as it is above 1e-5; its rounding
    // error is magnified accordingly
    const LD tight = 24 * eps + (4 * w[3] * w[3] > 0.8e-5L ? 0.6L * eps / (w[3] * w[3]) : 0);
    for (int i = 0; i < 4; ++i)
    {
        s.same(q2.array[i], q.array[i], "set(matrix) and Quaternion(matrix)", i);
        s.within(q.array[i], sign * w[i], tight, "quaternion of a rotation matrix", i);
    }
    // and back
    const vmml::Matrix<3, 3, T> b = q.get_rotation_matrix();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            s.within(b.array[j * 3 + i], R[i][j], 8 * tight, "matrix -> quaternion -> matrix",
                     i * 3 + j);
    s.nontrivial(gen);
}

// the product of quaternions is the composition of the rotations
template <class T>
void compose(Src& s)
{
    T a1[3], a2[3];
    const bool g1 = axisOf(s, a1), g2 = axisOf(s, a2);
    const LD l1[3] = {a1[0], a1[1], a1[2]}, l2[3] = {a2[0], a2[1], a2[2]};
    const LD t1 = rotAngle<T>(s), t2 = rotAngle<T>(s);
    const vmml::Quaternion<T> p = quat<T>(l1, t1), q = quat<T>(l2, t2);
    s.show("p", p.array, 4);
    s.show("q", q.array, 4);
    LD A[3][3], B[3][3];
    rodrigues(l1, t1, A);
    rodrigues(l2, t2, B);
    const vmml::Matrix<3, 3, T> m = (p * q).get_rotation_matrix();
    const vmml::Matrix<3, 3, T> inv = vmml::Quaternion<T>(p).inverse().get_rotation_matrix();
    const LD eps = std::numeric_limits<T>::epsilon();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            LD w = 0;
            for (int k = 0; k < 3; ++k)
                w += A[i][k] * B[k][j];
            s.within(m.array[j * 3 + i], w, 48 * eps, "matrix of a product", i * 3 + j);
            s.within(inv.array[j * 3 + i], A[j][i], 48 * eps, "matrix of an inverse", i * 3 + j);
        }
    s.nontrivial(g1 && g2);
}

// rotating a vector
template <class T>
void rotate(Src& s)
{
    T axT[3];
    const bool gen = axisOf(s, axT);
    const LD ax[3] = {axT[0], axT[1], axT[2]};
    const T th = s.chance(1, 4) ? angle<T>(s) : (T)rotAngle<T>(s);
    Gen<T> g(s, 8);
    vmml::Vector<3, T> v;
    fill(g, v.array, 3);
    LD n = 0;
    for (int i = 0; i < 3; ++i)
        n += fabsl(v.array[i]);
    s.show("angle", th);
    s.show("axis", axT, 3);
    s.show("v", v.array, 3);
    const LD eps = std::numeric_limits<T>::epsilon();
    vmml::Quaternion<T> q; // any
    fill(g, q.array, 4);
    for (int k = 0; k < 4; ++k)
    {
        LD e[3] = {LD(k == 1), LD(k == 2), LD(k == 3)}, R[3][3];
        if (k == 0)
            for (int i = 0; i < 3; ++i)
                e[i] = ax[i];
        rodrigues(e, th, R);
        // the axis need not be a unit vector
        const T len = k == 0 ? (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(30)) : T(1);
        vmml::Vector<3, T> axis(axT[0] * len, axT[1] * len, axT[2] * len);
        const vmml::Quaternion<T> r = k == 0   ? q.rotate(th, axis, v)
                                      : k == 1 ? q.rotate_x(th, v)
                                      : k == 2 ? q.rotate_y(th, v)
                                               : q.rotate_z(th, v);
        for (int i = 0; i < 3; ++i)
        {
            LD w = 0;
            for (int j = 0; j < 3; ++j)
                w += R[i][j] * v.array[j];
            s.within(r.array[i], w, 48 * eps * n + 1e-30L,
                     k == 0 ? "rotate()" : k == 1 ? "rotate_x()" : k == 2 ? "rotate_y()" : "rotate_z()", i);
        }
        s.within(r.array[3], 0, 48 * eps * n + 1e-30L, "the rotated vector is a pure quaternion");
    }
    // agrees with Matrix::rotate()
    vmml::Matrix<4, 4, T> m;
    m.rotate(th, vmml::Vector<3, T>(axT[0], axT[1], axT[2]));
    const vmml::Quaternion<T> f(m);
    vmml::Matrix<3, 3, T> b = f.get_rotation_matrix();
    const LD w = cosl((LD)th / 2);
    const LD tol = 400 * eps + (4 * w * w > 0.8e-5L ? 6 * eps / (w * w) : 0);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            s.within(b.array[j * 3 + i], m.array[j * 4 + i], tol, "Matrix::rotate() through a quaternion",
                     i * 3 + j);
    s.nontrivial(gen && n > 0);
}

PBT_REG("toMatrix_f", (toMatrix<float>));
PBT_REG("toMatrix_d", (toMatrix<double>));
PBT_REG("simple_f", (simple<float>), 2);
PBT_REG("simple_d", (simple<double>), 2);
PBT_REG("fromMatrix_f3", (fromMatrix<3, float>));
PBT_REG("fromMatrix_d3", (fromMatrix<3, double>));
PBT_REG("fromMatrix_f4", (fromMatrix<4, float>));
PBT_REG("fromMatrix_d4", (fromMatrix<4, double>));
PBT_REG("compose_f", (compose<float>));
PBT_REG("compose_d", (compose<double>));
PBT_REG("rotate_f", (rotate<float>));
PBT_REG("rotate_d", (rotate<double>));
