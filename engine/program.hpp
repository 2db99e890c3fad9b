// Operations of the library on shared constant operands, as a table: X01 runs
// them in threads, P01 and R01 in histories.
#ifndef PROGRAM_HPP
#define PROGRAM_HPP

#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/intersection.hpp>
#include <vmmlib/lowpass_filter.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/util.hpp>
#include <vmmlib/vector.hpp>

#include "gen.hpp"

#include <limits>
#include <sstream>

namespace
{
template <class T>
struct Prog
{
typedef vmml::Vector<2, T> V2;
typedef vmml::Vector<3, T> V3;
typedef vmml::Vector<4, T> V4;
typedef vmml::Matrix<2, 2, T> M2;
typedef vmml::Matrix<3, 3, T> M3;
typedef vmml::Matrix<4, 4, T> M4;
typedef vmml::Matrix<2, 3, T> M23;
typedef vmml::Matrix<3, 2, T> M32;
typedef vmml::Quaternion<T> Q;

struct Shared
{
    V3 a, b, c, unit;
    V4 v, w;
    M2 m2;
    M3 m3, n3;
    M4 m4, n4;
    M23 m23;
    M32 m32;
    Q p, q;
    vmml::Frustum<T> f;
    vmml::FrustumCuller<T> culler;
    vmml::AABB<T> box;
    vmml::Vector<6, T> v6;
    vmml::Matrix<6, 6, T> m6;
    T t;
    T junk; // what output objects hold before

    template <class A>
    void dirty(A& a) const
    {
        for (size_t i = 0; i < sizeof(a.array) / sizeof(a.array[0]); ++i)
            a.array[i] = junk;
    }
};

struct Out
{
    std::vector<unsigned char> bytes;
    template <class X>
    void add(const X& x)
    {
        const unsigned char* p = (const unsigned char*)&x;
        bytes.insert(bytes.end(), p, p + sizeof(X));
    }
    // the sign of a NaN is arbitrary
    void add(const float& x) { addNumber(x); }
    void add(const double& x) { addNumber(x); }
    template <class X>
    void addNumber(X x)
    {
        if (x != x)
            x = std::fabs(std::numeric_limits<X>::quiet_NaN());
        const unsigned char* p = (const unsigned char*)&x;
        bytes.insert(bytes.end(), p, p + sizeof(X));
    }
    void add(const std::string& s)
    {
        for (size_t i = 0; i < s.size(); ++i)
            if (s.compare(i, 4, "-nan") != 0)
                bytes.push_back((unsigned char)s[i]);
    }
    template <class X, size_t N>
    void add(const X (&x)[N])
    {
        for (size_t i = 0; i < N; ++i)
            add(x[i]);
    }
    template <size_t M, class X>
    void add(const vmml::Vector<M, X>& v)
    {
        for (size_t i = 0; i < M; ++i)
            add(v.array[i]);
    }
    template <size_t M, size_t N, class X>
    void add(const vmml::Matrix<M, N, X>& v)
    {
        for (size_t i = 0; i < M * N; ++i)
            add(v.array[i]);
    }
    void add(const Q& v)
    {
        for (size_t i = 0; i < 4; ++i)
            add(v.array[i]);
    }
};

typedef void (*Op)(const Shared&, Out&);
struct Entry
{
    const char* name;
    Op op;
};

static const Entry* ops(size_t& n)
{
static const Entry OPS[] = {
    {"vector arithmetic", [](const Shared& s, Out& o) {
         o.add(s.a + s.b);
         o.add(s.a - s.b);
         o.add(s.a * s.b);
         o.add(s.v * s.t);
         o.add(-s.v);
         V3 x(s.a);
         x += s.b;
         x *= s.c;
         x -= s.a;
         x /= (T)3;
         o.add(x);
         o.add(x.negate());
     }},
    {"vector products", [](const Shared& s, Out& o) {
         o.add(s.a.dot(s.b));
         o.add(s.a.cross(s.b));
         o.add(vmml::dot(s.v, s.w));
         V3 x;
         s.dirty(x);
         x.cross(s.b, s.c);
         o.add(x);
         o.add(s.v.product());
         o.add(s.a.length());
         o.add(s.a.squared_length());
         o.add(s.a.distance(s.b));
         o.add(s.v6.norm());
     }},
    {"vector normalisation", [](const Shared& s, Out& o) {
         o.add(vmml::normalize(s.v));
         V3 x(s.a);
         o.add(x.normalize());
         o.add(x);
         o.add(x.is_unit_vector());
     }},
    {"vector rotation", [](const Shared& s, Out& o) {
         o.add(s.a.rotate(s.t, s.unit));
         o.add(s.b.rotate(s.t, s.unit));
     }},
    {"vector extremes", [](const Shared& s, Out& o) {
         o.add(s.v6.find_min());
         o.add(s.v6.find_max());
         o.add(s.v6.find_min_index());
         o.add(s.v6.find_max_index());
         o.add(s.v6.find_abs_min_index());
         o.add(s.v6.find_abs_max_index());
         o.add(s.v6.nnz());
         o.add(vmml::manhattan(s.v6));
         o.add(vmml::min(s.v, s.w));
         o.add(vmml::max(s.v, s.w));
     }},
    {"vector maps", [](const Shared& s, Out& o) {
         vmml::Vector<6, T> x(s.v6);
         x.clamp(-1, 1);
         o.add(x);
         x.reciprocal_safe();
         o.add(x);
         vmml::Vector<6, float> y;
         s.v6.scale_to(y, (T)-5, (T)5);
         o.add(y);
         y.cast_from(s.v6);
         o.add(y);
     }},
    {"vector comparison", [](const Shared& s, Out& o) {
         o.add(s.a == s.b);
         o.add(s.a != s.b);
         o.add(s.a < s.b);
         o.add(s.a.equals(s.b, (T)0.5));
     }},
    {"homogeneous vectors", [](const Shared& s, Out& o) {
         o.add(V4(s.a));
         o.add(V3(s.v));
         o.add(V4(s.a, s.t));
         o.add(s.v.template get_sub_vector<2>(1));
     }},
    {"planes and spheres", [](const Shared& s, Out& o) {
         const V4 pl(s.unit, s.t);
         o.add(pl.distance_to_plane(s.a));
         o.add(pl.project_point_onto_plane(s.b));
         o.add(s.v.distance_to_sphere(s.a));
         o.add(s.v.project_point_onto_sphere(s.a));
         o.add(vmml::compute_plane(s.a, s.b, s.c));
         V3 n;
         s.dirty(n);
         n.compute_normal(s.a, s.b, s.c);
         o.add(n);
     }},
    {"matrix arithmetic", [](const Shared& s, Out& o) {
         o.add(s.m4 + s.n4);
         o.add(s.m4 - s.n4);
         o.add(-s.m4);
         M4 x(s.m4);
         x += s.n4;
         x *= (T)2;
         x -= s.m4;
         x.multiply_piecewise(s.n4);
         o.add(x);
     }},
    {"matrix products", [](const Shared& s, Out& o) {
         o.add(s.m4 * s.n4);
         o.add(s.m23 * s.m32);
         o.add(s.m32 * s.m23);
         o.add(s.m4 * s.v);
         o.add(s.m4 * s.a);
         M4 x(s.m4);
         x *= s.n4;
         o.add(x);
         x.multiply(s.n4, s.m4);
         o.add(x);
     }},
    {"determinants", [](const Shared& s, Out& o) {
         o.add(s.m2.det());
         o.add(s.m3.det());
         o.add(s.m4.det());
         M3 r;
         s.dirty(r);
         s.m4.get_minor(r, 1, 2);
         o.add(r);
     }},
    {"inverse 2", [](const Shared& s, Out& o) {
         M2 r;
         s.dirty(r);
         const bool ok = s.m2.inverse(r);
         o.add(ok);
         if (ok)
             o.add(r);
     }},
    {"inverse 3", [](const Shared& s, Out& o) {
         M3 r;
         s.dirty(r);
         const bool ok = s.m3.inverse(r);
         o.add(ok);
         if (ok)
             o.add(r);
     }},
    {"inverse 4", [](const Shared& s, Out& o) {
         M4 r;
         s.dirty(r);
         const bool ok = s.m4.inverse(r);
         o.add(ok);
         if (ok)
             o.add(r);
     }},
    {"adjugate", [](const Shared& s, Out& o) {
         M4 r;
         s.dirty(r);
         s.m4.get_adjugate(r);
         o.add(r);
         s.n4.get_cofactors(r);
         o.add(r);
     }},
    {"transpose", [](const Shared& s, Out& o) {
         o.add(vmml::transpose(s.m23));
         M32 r;
         s.dirty(r);
         s.m23.transpose_to(r);
         o.add(r);
     }},
    {"rows and columns", [](const Shared& s, Out& o) {
         o.add(s.m4.get_row(2));
         o.add(s.m23.get_column(1));
         M23 x(s.m23);
         x.set_row(0, s.m23.get_row(1));
         x.set_column(2, s.m23.get_column(0));
         o.add(x);
         o.add(s.m4.template get_sub_matrix<2, 2>(1, 1));
         M4 y(s.m4);
         y.set_sub_matrix(s.m2, 1, 2);
         o.add(y);
     }},
    {"transformations", [](const Shared& s, Out& o) {
         M4 x(s.m4);
         x.rotate(s.t, s.unit);
         x.rotate_x(s.t);
         x.pre_rotate_y(s.t);
         x.rotate_z(s.t);
         x.scale(s.a);
         x.set_translation(s.b);
         x.scale_translation(s.c);
         o.add(x);
         o.add(x.get_translation());
         o.add(vmml::create_translation(s.a));
         o.add(vmml::create_rotation(s.t, s.unit));
     }},
    {"reductions", [](const Shared& s, Out& o) {
         o.add(s.m6.frobenius_norm());
         o.add(s.m6.p_norm(3));
         o.add(s.m6.get_min());
         o.add(s.m6.get_max());
         o.add(s.m6.get_abs_min());
         o.add(s.m6.get_abs_max());
         o.add(s.m6.nnz());
         o.add(s.m6.nnz((T)1));
         o.add(s.m6.sum_elements());
         vmml::Matrix<3, 6, T> r;
         s.dirty(r);
         s.m6.sum_rows(r);
         o.add(r);
         vmml::Matrix<6, 3, T> c;
         s.dirty(c);
         s.m6.sum_columns(c);
         o.add(c);
         M2 cov;
         s.dirty(cov);
         s.m23.symmetric_covariance(cov);
         o.add(cov);
     }},
    {"convolution", [](const Shared& s, Out& o) {
         vmml::Matrix<6, 6, T> x(s.m6);
         x.convolve(s.m3);
         o.add(x);
     }},
    {"quantisation", [](const Shared& s, Out& o) {
         vmml::Matrix<6, 6, unsigned char> x;
         T lo, hi;
         s.m6.quantize(x, lo, hi);
         o.add(x);
         o.add(lo);
         o.add(hi);
         vmml::Matrix<6, 6, T> y;
         s.dirty(y);
         x.dequantize(y, lo, hi);
         o.add(y);
     }},
    {"dct", [](const Shared& s, Out& o) {
         vmml::Matrix<6, 6, T> x;
         s.dirty(x);
         x.set_dct();
         o.add(x);
     }},
    {"tensor products", [](const Shared& s, Out& o) {
         M3 x;
         s.dirty(x);
         x.tensor(s.a, s.b);
         o.add(x);
         vmml::Matrix<4, 6, T> k;
         s.dirty(k);
         s.m2.kronecker_product(s.m23, k);
         o.add(k);
         vmml::Matrix<6, 3, T> r;
         s.dirty(r);
         s.m23.khatri_rao_product(s.m3, r);
         o.add(r);
         vmml::Matrix<5, 5, T> d;
         s.dirty(d);
         d.direct_sum(s.m2, s.m3);
         o.add(d);
     }},
    {"matrix comparison", [](const Shared& s, Out& o) {
         o.add(s.m4 == s.n4);
         o.add(s.m4 != s.n4);
         o.add(s.m4.equals(s.n4, (T)0.5));
         o.add(vmml::is_positive_definite(s.m3));
     }},
    {"identity", [](const Shared& s, Out& o) {
         M4 x(s.m4);
         vmml::identity(x);
         o.add(x);
         o.add(M4::IDENTITY);
         o.add(M4::ZERO);
         o.add(V3::UP);
         o.add(V3::FORWARD);
         o.add(Q::IDENTITY);
         x.zero();
         o.add(x);
     }},
    {"quaternion algebra", [](const Shared& s, Out& o) {
         o.add(s.p * s.q);
         o.add(s.p + s.q);
         o.add(s.p - s.q);
         o.add(s.p * s.t);
         o.add(-s.p);
         o.add(s.p.get_conjugate());
         o.add(s.p.dot(s.q));
         o.add(s.p.abs());
         o.add(s.p.get_normalized());
         o.add(s.p.cross(s.q));
         Q x(s.p);
         x *= s.q;
         x.normalize();
         o.add(x);
         o.add(x.inverse());
     }},
    {"quaternion rotation", [](const Shared& s, Out& o) {
         const Q x(s.p.get_normalized());
         o.add(x.get_rotation_matrix());
         o.add(Q(x.get_rotation_matrix()));
         o.add(Q::slerp((T)0.3, x, s.q.get_normalized()));
     }},
    {"frustum", [](const Shared& s, Out& o) {
         o.add(s.f.compute_matrix());
         o.add(s.f.compute_ortho_matrix());
         o.add(s.f.get_width());
         vmml::Frustum<T> g(s.f);
         g.adjust_near(3);
         g.apply_jitter(V2(1, 2));
         o.add(g.array);
         g.set_perspective(60, 1.5, 1, 10);
         o.add(g.array);
     }},
    {"culling", [](const Shared& s, Out& o) {
         o.add((int)s.culler.test_sphere(s.v));
         o.add((int)s.culler.test_aabb(V2(-1, 1), V2(-2, 0), V2(-4, -2)));
         vmml::FrustumCuller<T> c;
         c.setup(s.f.compute_matrix());
         o.add((int)c.test_sphere(s.w));
     }},
    {"boxes", [](const Shared& s, Out& o) {
         o.add(s.box.getCenter());
         o.add(s.box.getDimension());
         o.add(s.box.isEmpty());
         vmml::AABB<T> b(s.box);
         o.add(b.isIn(s.a));
         b.merge(s.c);
         b *= 2;
         o.add(b.getMin());
         o.add(b.getMax());
         o.add(b == s.box);
     }},
    {"intersection", [](const Shared& s, Out& o) {
         const vmml::Intersection<T> x(s.a, s.unit);
         T t = 0;
         o.add(x.test_sphere(s.v, t));
         o.add(t);
     }},
    {"filter", [](const Shared& s, Out& o) {
         vmml::LowpassFilter<3, T> f(0.5f);
         for (int i = 0; i < 6; ++i)
             o.add(f.add(s.v6.array[i]));
         vmml::LowpassFilter<2, V3> g(0.25f);
         g.add(s.a);
         o.add(g.add(s.b));
     }},
    {"QR", [](const Shared& s, Out& o) {
         M3 q, r;
         s.dirty(q);
         s.dirty(r);
         vmml::qr_decompose_gram_schmidt(s.m3, q, r);
         o.add(q);
         o.add(r);
     }},
    {"constants and whole vectors", [](const Shared& s, Out& o) {
         V4 x(s.v);
         x = s.t;
         o.add(x);
         x.set(s.a, s.t);
         o.add(x);
         x.set(s.t);
         o.add(x);
         vmml::zero(x);
         o.add(x);
         V3 y(s.v.array);
         o.add(y);
         y.iter_set(s.v6.begin(), s.v6.end());
         o.add(y);
         o.add(vmml::Vector<3, int>(s.unit));
         o.add(s.v6.rbegin()[0]);
         V3 z(s.a);
         z.sqrt_elementwise();
         for (int i = 0; i < 3; ++i)
             o.add(s.a.array[i] < 0 ? T(0) : z.array[i]); // the sign of a NaN is arbitrary
     }},
    {"vector constants", [](const Shared&, Out& o) {
         o.add(V3::ZERO);
         o.add(V3::ONE);
         o.add(V3::DOWN);
         o.add(V3::LEFT);
         o.add(V3::RIGHT);
         o.add(V3::BACKWARD);
         o.add(V3::UNIT_X);
         o.add(V4::UNIT_Y);
         o.add(V4::ZERO);
         o.add(vmml::Frustum<T>::DEFAULT.array);
         o.add(Q::QUATERI);
         o.add(Q::QUATERJ);
         o.add(Q::QUATERK);
     }},
    {"matrix construction", [](const Shared& s, Out& o) {
         o.add(M3(s.m4));
         o.add(M4(s.m2));
         o.add(M23(s.m32));
         M3 x;
         s.dirty(x);
         x = s.m6.array;
         o.add(x);
         x.set(s.m6.begin(), s.m6.end(), false);
         o.add(x);
         x = std::vector<T>(s.m6.begin(), s.m6.end());
         o.add(x);
         x = s.m23;
         o.add(x);
         x.diag(s.a);
         o.add(x);
         x.fill(s.t);
         o.add(x);
         vmml::Matrix<3, 3, float> y;
         y.cast_from(s.m3);
         o.add(y);
         M4 z;
         s.dirty(z);
         z.tensor(s.a, s.b);
         o.add(z);
     }},
    {"thresholds", [](const Shared& s, Out& o) {
         vmml::Matrix<6, 6, T> x(s.m6);
         x.threshold((T)1);
         o.add(x);
         vmml::Vector<6, T> sums;
         s.dirty(sums);
         s.m6.columnwise_sum(sums);
         o.add(sums);
     }},
    {"more transformations", [](const Shared& s, Out& o) {
         M4 x(s.m4);
         vmml::apply_translation(x, s.a.array[0], s.a.array[1], s.a.array[2]);
         o.add(x);
         vmml::apply_rotation(x, s.t, s.unit.array[0], s.unit.array[1], s.unit.array[2]);
         o.add(x);
         x.pre_rotate_x(s.t);
         x.rotate_y(s.t);
         x.pre_rotate_z(s.t);
         o.add(x);
         o.add(vmml::create_scaling(s.a));
         o.add(vmml::create_scaling(s.t));
     }},
    {"more quaternions", [](const Shared& s, Out& o) {
         o.add(Q(s.a, s.t));
         o.add(s.p * s.a);
         o.add(s.p + s.a);
         o.add(s.p - s.a);
         o.add(s.p / (T)3);
         o.add(s.p == s.q);
         o.add(s.p != s.t);
         Q x(s.p);
         o.add(x.is_akin(s.q, (T)30));
         x -= s.q;
         x *= s.b;
         x /= (T)7;
         x.conjugate();
         o.add(x);
         V3 axis(s.unit);
         o.add(x.rotate(s.t, axis, s.a));
         o.add(x.rotate_x(s.t, s.a));
         o.add(x.rotate_y(s.t, s.a));
         o.add(x.rotate_z(s.t, s.a));
         M4 m; // what is beyond the upper left block stays
         s.p.get_rotation_matrix(m);
         o.add(m);
     }},
    {"culler from corners", [](const Shared& s, Out& o) {
         vmml::FrustumCuller<T> c;
         c.setup(V3(-1, 1, -1), V3(1, 1, -1), V3(-1, -1, -1), V3(1, -1, -1),
                 V3(-5, 5, -5), V3(5, 5, -5), V3(-5, -5, -5), V3(5, -5, -5));
         o.add((int)c.test_sphere(s.v));
         o.add((int)c.test_aabb(V2(s.a.array[0], s.b.array[0]), V2(-2, 0), V2(-4, -2)));
     }},
    {"more boxes", [](const Shared& s, Out& o) {
         vmml::AABB<T> b(s.v);
         o.add(b.isIn(s.v));
         o.add(b.isIn2d(s.a));
         b.merge(s.box);
         b += 3;
         b /= (T)2;
         b -= 1;
         o.add(b.getMin());
         o.add(b.getMax());
         b.setEmpty();
         o.add(b.isEmpty());
         o.add((s.box * (T)2).getMax());
         o.add(vmml::AABB<T>::makeUnitBox().getMax());
         b.set(1, 2, 3, 4);
         b.setMin(s.a);
         o.add(b.getMin());
         o.add(b != s.box);
     }},
    {"printing", [](const Shared& s, Out& o) {
         std::ostringstream os;
         os << s.v << s.m4 << s.p << s.f << s.box;
         s.m3.write_to_stream(os);
         s.a.write_to_stream(os);
         o.add(os.str());
         std::istringstream is("1 2 3 4 5 6");
         M23 x;
         s.dirty(x);
         x.read_from_stream(is);
         o.add(x);
     }},
    {"exceptions", [](const Shared& s, Out& o) {
         int n = 0;
         try
         {
             V4 x(s.v);
             M4 y(s.m4);
             y.set_row(9, x);
         }
         catch (const std::exception&)
         {
             ++n;
         }
         o.add(n);
     }},
};
n = sizeof(OPS) / sizeof(OPS[0]);
return OPS;
}

template <class A>
static void scaleBy(A& a, size_t n, T f)
{
    for (size_t i = 0; i < n; ++i)
        a.array[i] *= f;
}

// a thread's own objects: like the shared ones, with other values
static Shared own(const Shared& sh, int k)
{
    Shared o(sh);
    const T f = 1 + (T)(k + 1) / 4;
    scaleBy(o.a, 3, f);
    scaleBy(o.b, 3, f);
    scaleBy(o.c, 3, -f);
    scaleBy(o.v, 4, f);
    scaleBy(o.w, 4, f);
    std::swap(o.unit.array[k % 3], o.unit.array[(k + 1) % 3]);
    scaleBy(o.m2, 4, f);
    scaleBy(o.m3, 9, f);
    scaleBy(o.n3, 9, -f);
    scaleBy(o.m4, 16, f);
    scaleBy(o.n4, 16, -f);
    scaleBy(o.m23, 6, f);
    scaleBy(o.m32, 6, f);
    scaleBy(o.p, 4, f);
    o.q.array[1] += 5 * (k + 1);
    scaleBy(o.v6, 6, f);
    scaleBy(o.m6, 36, f);
    o.t += (T)(k + 1) / 2;
    o.f = vmml::Frustum<T>(-f, 2, -1, f, f, 20 * f);
    o.culler.setup(o.f.compute_matrix());
    o.box = vmml::AABB<T>(V3(-f, -2, -3), V3(4, 5 * f, 6));
    return o;
}

// some operands get a special value: zero, an axis, the identity, a singular matrix
static void special(pbt::Src& s, Shared& sh)
{
    for (size_t k = 1 + s.draw(4); k; --k)
    {
        V3* const vs[] = {&sh.a, &sh.b, &sh.c};
        Q* const qs[] = {&sh.p, &sh.q};
        M3* const ms[] = {&sh.m3, &sh.n3};
        M4* const ns[] = {&sh.m4, &sh.n4};
        switch (s.draw(8))
        {
        case 0:
        {
            V3& x = *vs[s.draw(3)];
            std::fill(x.array, x.array + 3, T(0));
            if (s.coin())
                x.array[s.draw(3)] = s.coin() ? 1 : -1;
            break;
        }
        case 1:
            *vs[s.draw(3)] = *vs[s.draw(3)];
            break;
        case 2:
        case 3: // exact rotations: half turns, quarter turns, equal, opposite
        {
            Q& x = *qs[s.draw(2)];
            std::fill(x.array, x.array + 4, T(0));
            x.array[s.draw(4)] = s.coin() ? 1 : -1;
            if (s.coin())
                x.array[s.draw(4)] = 1;
            break;
        }
        case 4:
            if (s.coin())
                sh.q = sh.p;
            else
                for (int i = 0; i < 4; ++i)
                    sh.q.array[i] = -sh.p.array[i];
            break;
        case 5:
        {
            M3& x = *ms[s.draw(2)];
            for (int i = 0; i < 9; ++i)
                x.array[i] = i % 4 ? 0 : 1;
            if (s.coin())
                x.array[s.draw(9)] = (T)s.zigzag(3);
            break;
        }
        case 6:
        {
            M4& x = *ns[s.draw(2)];
            for (int i = 0; i < 16; ++i)
                x.array[i] = i % 5 ? 0 : 1;
            if (s.coin())
                x.array[s.draw(16)] = (T)s.zigzag(3);
            break;
        }
        default:
            for (int i = 0; i < 4; ++i)
                sh.m2.array[i] = (T)s.zigzag(2);
        }
    }
}

// random operands
static void fillAll(pbt::Src& s, Shared& sh)
{
    using namespace pbt;
    Gen<T> g(s, 4);
    fill(g, sh.a.array, 3);
    fill(g, sh.b.array, 3);
    fill(g, sh.c.array, 3);
    unitVec<T, 3>(s, sh.unit.array);
    fill(g, sh.v.array, 4);
    fill(g, sh.w.array, 4);
    sh.a.array[0] += 11; // not all zero
    sh.v.array[3] = std::fabs(sh.v.array[3]) + 1;
    fill(g, sh.m2.array, 4);
    fill(g, sh.m3.array, 9);
    fill(g, sh.n3.array, 9);
    fill(g, sh.m4.array, 16);
    fill(g, sh.n4.array, 16);
    fill(g, sh.m23.array, 6);
    fill(g, sh.m32.array, 6);
    for (int i = 0; i < 3; ++i)
        sh.m3.array[i * 4] += 40; // regular
    for (int i = 0; i < 4; ++i)
        sh.m4.array[i * 5] += 60;
    fill(g, sh.p.array, 4);
    fill(g, sh.q.array, 4);
    sh.p.array[3] += 30;
    sh.q.array[0] += 30;
    sh.f = vmml::Frustum<T>(-1, 2, -1, 1, 1, 10 + std::fabs(g()));
    sh.culler.setup(sh.f.compute_matrix());
    sh.box = vmml::AABB<T>(V3(-1, -2, -3), V3(4, 5, 6));
    fill(g, sh.v6.array, 6);
    sh.v6.array[2] += 17;
    sh.v6.array[3] -= 17;
    fill(g, sh.m6.array, 36);
    sh.m6.array[7] += 17;
    sh.m6.array[8] -= 17;
    sh.t = angle<T>(s);
    sh.junk = (T)s.zigzag(1000);
    if (s.chance(1, 3))
        special(s, sh);
}
};
}

#endif
