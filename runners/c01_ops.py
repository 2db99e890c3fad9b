"""Operations of the generated programs of C01: name, headers that declare what
the operation uses, element types, and the code (r: random numbers, o: output,
T: element type).  Only portable uses: no implicit pointers, no typedefs."""

A, F, C, I, L, M, Q, D, V, U, H, X = (
    "aabb", "frustum", "frustum_culler", "intersection", "lowpass_filter",
    "matrix", "quaternion", "qr_decomposition", "vector", "util", "math", "vmmlib")
FD = ("float", "double")
FDI = ("float", "double", "int")

OPS = [
 ("vec_arith", [V], FDI, '''
  vmml::Vector<3,T> a = r.vec<3,T>(), b = r.vec<3,T>();
  o.vec(a + b); o.vec(a - b); o.vec(a * b); o.vec(a * T(3)); o.vec(-a);
  a += b; a -= T(2); a *= b; o.vec(a);
  o.put(a == b); o.put(a < b); o.put(a.dot(b)); o.vec(a.cross(b)); o.put(a.product());'''),
 ("vec_div", [V], FD, '''
  vmml::Vector<4,T> a = r.vec<4,T>(), b = r.vec<4,T>();
  for (size_t i = 0; i < 4; ++i) b.at(i) = b.at(i) < 0 ? b.at(i) - 1 : b.at(i) + 1;
  o.vec(a / b); o.vec(a / T(7)); a /= b; o.vec(a); a /= T(3); o.vec(a);'''),
 ("vec_length", [V], FD, '''
  vmml::Vector<3,T> a = r.vec<3,T>(), b = r.vec<3,T>();
  a.x() += 20;
  o.put(a.length()); o.put(a.squared_length()); o.put(a.distance(b)); o.put(a.norm());
  o.vec(vmml::normalize(a)); o.put(a.normalize()); o.vec(a);'''),
 ("vec_extremes", [V], FDI, '''
  vmml::Vector<5,T> a = r.vec<5,T>(), b = r.vec<5,T>();
  o.put(a.find_min()); o.put(a.find_max()); o.put(a.find_min_index());
  o.put(a.find_max_index()); o.put(a.find_abs_min_index()); o.put(a.find_abs_max_index());
  a.clamp(T(-1), T(2)); o.vec(a); o.put(b.nnz());'''),
 ("vec_tolerance", [V], FD, '''
  vmml::Vector<3,T> a = r.vec<3,T>(), b(a);
  b.at(1) += T(0.5);
  o.put(a.equals(b, T(0.75))); o.put(a.equals(b, T(0.25))); o.put(a == b);'''),
 ("vec_homogeneous", [V], FD, '''
  vmml::Vector<3,T> a = r.vec<3,T>(); vmml::Vector<4,T> h(a); h.w() = T(2.5);
  o.vec(h); o.vec(vmml::Vector<3,T>(h)); vmml::Vector<4,T> e(a, T(3)); o.vec(e);
  o.vec(e.template get_sub_vector<2>(1));'''),
 ("vec_planes", [V], FD, '''
  vmml::Vector<3,T> a = r.vec<3,T>(), b = r.vec<3,T>(), c = r.vec<3,T>(), n;
  a.at(0) += 40; b.at(1) += 40; c.at(2) += 40;
  o.vec(vmml::compute_plane(a, b, c)); n.compute_normal(a, b, c); o.vec(n);
  vmml::Vector<4,T> s(a, T(2)); o.put(s.distance_to_sphere(b)); o.vec(s.project_point_onto_sphere(c));'''),
 ("vec_rotate", [V], FD, '''
  vmml::Vector<3,T> a = r.vec<3,T>(), b = r.vec<3,T>(); b.at(2) += 20;
  o.vec(a.rotate(r.num<T>(), b));'''),
 ("vec_convert", [V], FD, '''
  vmml::Vector<6,T> a = r.vec<6,T>(); vmml::Vector<6,int> i; i = a * T(8); o.vec(i);
  vmml::Vector<6,float> f; f.cast_from(a); o.vec(f); vmml::Vector<6,double> d(a); o.vec(d);'''),
 ("vec_print", [V], FDI, '''
  std::ostringstream s; s << r.vec<4,T>(); o.text(s.str());'''),
 ("vec_fill", [V], FDI, '''
  vmml::Vector<5,T> a = r.vec<5,T>(); a.set(T(7)); o.vec(a); a = T(0); o.vec(a);
  T raw[5] = { T(1), T(2), T(3), T(4), T(5) }; a.iter_set(raw, raw + 5); o.vec(a);
  o.vec(vmml::Vector<5,T>());'''),
 ("vec_constants", [V], FDI, '''
  o.vec(vmml::Vector<3,T>::UP); o.vec(vmml::Vector<3,T>::FORWARD); o.vec(vmml::Vector<3,T>::ONE);
  o.vec(vmml::Vector<4,T>::ZERO); o.vec(vmml::Vector<3,T>::UNIT_Y); (void)r;'''),
 ("vec_maps", [V], FD, '''
  vmml::Vector<4,T> a = r.vec<4,T>(); a.reciprocal_safe(); o.vec(a);
  a.sqrt_elementwise(); vmml::Vector<4,T> b = r.vec<4,T>();
  for (size_t i = 0; i < 4; ++i) b.at(i) = b.at(i) * b.at(i) + 1;
  b.sqrt_elementwise(); o.vec(b);'''),
 ("mat_access", [M], FDI, '''
  vmml::Matrix<3,4,T> m = r.mat<3,4,T>(); o.mat(m); o.vec(m.get_row(1)); o.vec(m.get_column(2));
  m.set_row(0, r.vec<4,T>()); m.set_column(3, r.vec<3,T>()); o.mat(m);
  o.mat(m.template get_sub_matrix<2,2>(1, 1)); m.at(2, 1) = T(9); m(0, 2) = T(8); o.mat(m);'''),
 ("mat_arith", [M], FDI, '''
  vmml::Matrix<4,3,T> a = r.mat<4,3,T>(), b = r.mat<4,3,T>();
  o.mat(a + b); o.mat(a - b); o.mat(-a); a *= T(3); o.mat(a); a += b; a -= b; o.mat(a);
  a.multiply_piecewise(b); o.mat(a); o.put(a == b); o.put(a != b);'''),
 ("mat_product", [M], FDI, '''
  vmml::Matrix<3,4,T> a = r.mat<3,4,T>(); vmml::Matrix<4,2,T> b = r.mat<4,2,T>();
  o.mat(a * b); o.vec(a * r.vec<4,T>()); vmml::Matrix<3,3,T> s = r.mat<3,3,T>();
  s *= r.mat<3,3,T>(); o.mat(s); o.mat(vmml::transpose(a));'''),
 ("mat_det", [M], FD, '''
  vmml::Matrix<2,2,T> a = r.mat<2,2,T>(); vmml::Matrix<3,3,T> b = r.mat<3,3,T>();
  vmml::Matrix<4,4,T> c = r.mat<4,4,T>(); o.put(a.det()); o.put(b.det()); o.put(c.det());
  vmml::Matrix<4,4,T> d; c.get_adjugate(d); o.mat(d); c.get_cofactors(d); o.mat(d);'''),
 ("mat_inverse", [M], FD, '''
  vmml::Matrix<2,2,T> a = r.mat<2,2,T>(), ai; a(0,0) += 30; a(1,1) -= 30;
  vmml::Matrix<3,3,T> b = r.mat<3,3,T>(), bi; for (int i = 0; i < 3; ++i) b(i,i) += 40;
  vmml::Matrix<4,4,T> c = r.mat<4,4,T>(), ci; for (int i = 0; i < 4; ++i) c(i,i) += 60;
  o.put(a.inverse(ai)); o.mat(ai); o.put(b.inverse(bi)); o.mat(bi); o.put(c.inverse(ci)); o.mat(ci);'''),
 ("mat_transform", [M], FD, '''
  vmml::Matrix<4,4,T> m = r.mat<4,4,T>(); vmml::Vector<3,T> a = r.vec<3,T>(); a.at(0) += 20;
  m.rotate(r.num<T>(), vmml::normalize(a)); m.rotate_x(r.num<T>()); m.pre_rotate_y(r.num<T>());
  m.scale(r.vec<3,T>()); m.scale_translation(r.vec<3,T>()); o.mat(m);
  m.set_translation(a); o.vec(m.get_translation()); o.vec(m * a);'''),
 ("mat_reduce", [M], FD, '''
  vmml::Matrix<4,6,T> m = r.mat<4,6,T>();
  o.put(m.frobenius_norm()); o.put(m.p_norm(3)); o.put(m.get_min()); o.put(m.get_max());
  o.put(m.get_abs_min()); o.put(m.get_abs_max()); o.put(m.nnz()); o.put(m.nnz(T(1)));
  o.put(m.sum_elements()); vmml::Matrix<2,6,T> s; m.sum_rows(s); o.mat(s);
  vmml::Matrix<4,4,T> c; m.symmetric_covariance(c); o.mat(c); m.threshold(T(1)); o.mat(m);'''),
 ("mat_products2", [M], FD, '''
  vmml::Matrix<3,3,T> t; vmml::Vector<3,T> u = r.vec<3,T>(), v = r.vec<3,T>(); t.tensor(u, v); o.mat(t);
  vmml::Matrix<2,2,T> a = r.mat<2,2,T>(); vmml::Matrix<2,3,T> b = r.mat<2,3,T>();
  vmml::Matrix<4,6,T> k; a.kronecker_product(b, k); o.mat(k);
  vmml::Matrix<5,5,T> d; d.direct_sum(a, t); o.mat(d);'''),
 ("mat_convolve", [M], FD, '''
  vmml::Matrix<5,6,T> m = r.mat<5,6,T>(); m.convolve(r.mat<3,3,T>()); o.mat(m);'''),
 ("mat_quantize", [M], FD, '''
  vmml::Matrix<3,4,T> m = r.mat<3,4,T>(), b; vmml::Matrix<3,4,unsigned char> q; T lo, hi;
  m(0,0) = T(-17); m(2,3) = T(19); m.quantize(q, lo, hi); o.put(lo); o.put(hi);
  q.dequantize(b, lo, hi); o.mat(b, T(0.3));'''),
 ("mat_random", [M], FD, '''
  vmml::Matrix<3,3,T> m; m.set_dct(); o.mat(m);
  for (size_t i = 0; i < 9; ++i) m.array[i] = r.num<T>(); o.mat(m); (void)r;'''),
 ("mat_stream", [M], FDI, '''
  std::ostringstream s; vmml::Matrix<2,3,T> m = r.mat<2,3,T>(); m.write_to_stream(s);
  s << m; o.text(s.str()); std::istringstream i(s.str()); vmml::Matrix<2,3,T> n; n.read_from_stream(i); o.mat(n);'''),
 ("mat_compare", [M], FD, '''
  vmml::Matrix<3,3,T> m = r.mat<3,3,T>(), n(m); n(1,2) -= T(0.5);
  o.put(m.equals(n, T(0.75))); o.put(m.equals(n, T(0.25))); o.put(m == n);
  o.put(vmml::is_positive_definite(m)); vmml::Matrix<4,4,T> w; w = m; o.mat(w);'''),
 ("mat_identity", [M], FDI, '''
  vmml::Matrix<4,4,T> m = r.mat<4,4,T>(); vmml::identity(m); o.mat(m); o.mat(vmml::Matrix<3,3,T>::IDENTITY);
  o.mat(vmml::Matrix<3,3,T>::ZERO); m.zero(); o.mat(m); m = T(4); o.mat(m); m.fill(T(5)); o.mat(m);
  o.mat(vmml::Matrix<2,3,T>()); vmml::Matrix<4,4,T> a = r.mat<4,4,T>(), b = r.mat<4,4,T>(); m.multiply(a, b); o.mat(m);'''),
 ("mat_svd_helpers", [M, U], FD, '''
  o.put(vmml::manhattan(r.vec<4,T>())); vmml::Matrix<4,4,T> m = r.mat<4,4,T>();
  vmml::apply_translation<4,4,T>(m, T(1), T(2), T(3)); o.mat(m);
  vmml::Vector<4,T> a = r.vec<4,T>(), b = r.vec<4,T>(); o.vec(vmml::min(a, b)); o.vec(vmml::max(a, b));
  o.mat(vmml::create_scaling(r.vec<3,T>())); o.mat(vmml::create_translation(r.vec<3,T>()));
  vmml::apply_rotation<4,4,T>(m, T(0.5), T(0), T(0), T(1)); o.mat(m);'''),
 ("quat_algebra", [Q], FD, '''
  vmml::Vector<4,T> u = r.vec<4,T>(), v = r.vec<4,T>(); vmml::Quaternion<T> p(u.at(0), u.at(1), u.at(2), u.at(3) + 20), q(v.at(0), v.at(1) - 20, v.at(2), v.at(3));
  o.quat(p * q); o.quat(p + q); o.quat(p - q); o.quat(p * T(3)); o.quat(-p); o.quat(p.get_conjugate());
  o.put(p.dot(q)); o.put(p.abs()); o.quat(p.get_normalized()); o.quat(p.inverse()); p *= q; o.quat(p);
  o.put(p == q); o.put(p.is_akin(q, T(0.5)));'''),
 ("quat_rotation", [Q], FD, '''
  vmml::Vector<3,T> a = r.vec<3,T>(); a.at(1) += 20; a.normalize();
  const T h = r.num<T>() / 2; vmml::Quaternion<T> q(a * std::sin(h), std::cos(h)); o.quat(q); o.mat(q.get_rotation_matrix());
  vmml::Quaternion<T> p(0, 0, T(0.6), T(0.8)); o.quat(vmml::Quaternion<T>::slerp(T(0.25), q, p));
  std::ostringstream s; s << vmml::Quaternion<T>(1, 2, 3, 4); o.text(s.str());'''),
 ("frustum", [F], FD, '''
  vmml::Frustum<T> f(T(-9) - r.num<T>(), 2, -1, 3, 1, 20); o.mat(f.compute_matrix());
  o.mat(f.compute_ortho_matrix()); f.adjust_near(T(2.5)); f.apply_jitter(r.vec<2,T>());
  for (size_t i = 0; i < 6; ++i) o.put(f.array[i]); f.set_perspective(T(70), T(1.25), T(0.5), T(30));
  for (size_t i = 0; i < 6; ++i) o.put(f.array[i]); o.put(f.get_width()); o.put(f.get_height());'''),
 ("culler", [F, C], FD, '''
  vmml::Frustum<T> f(-1, 1, -1, 1, 1, 20); vmml::FrustumCuller<T> c; c.setup(f.compute_matrix());
  for (int i = 0; i < 6; ++i) { vmml::Vector<4,T> s(r.vec<3,T>() * T(0.5), T(0.37)); o.put((int)c.test_sphere(s)); }
  for (int i = 0; i < 6; ++i) { const T x = r.num<T>() / 2, y = r.num<T>() / 2;
   o.put((int)c.test_aabb(vmml::Vector<2,T>(x, x + T(0.77)), vmml::Vector<2,T>(y, y + T(0.83)), vmml::Vector<2,T>(-5, -3))); }'''),
 ("aabb", [A], FDI, '''
  vmml::AABB<T> b; o.put(b.isEmpty()); for (int i = 0; i < 4; ++i) b.merge(r.vec<3,T>());
  o.vec(b.getMin()); o.vec(b.getMax()); o.vec(b.getCenter()); o.vec(b.getDimension()); o.put(b.isEmpty());
  o.put(b.isIn(r.vec<3,T>())); vmml::AABB<T> u(vmml::Vector<3,T>(0, 0, 0), vmml::Vector<3,T>(1, 2, 3));
  b.merge(u); o.vec(b.getMin()); o.put(b == u); std::ostringstream s; s << u; o.text(s.str());'''),
 ("intersect", [I], FD, '''
  vmml::Vector<3,T> d = r.vec<3,T>(); d.at(2) -= 20; const vmml::Intersection<T> x(vmml::Vector<3,T>(0, 0, 9), d);
  T t = 0; o.put(x.test_sphere(vmml::Vector<4,T>(0, 0, 0, 7), t)); o.put(t);'''),
 ("lowpass", [L], FD, '''
  vmml::LowpassFilter<3,T> f(0.5f); for (int i = 0; i < 7; ++i) { const T x = r.num<T>(); o.put(f.add(x)); }
  f.set_smooth_factor(0.25f); o.put(f.add(T(1))); o.put(f.get()); o.put(*f);'''),
 ("lowpass_vec", [V, L], FD, '''
  vmml::LowpassFilter<2, vmml::Vector<3,T> > f(0.5f); for (int i = 0; i < 4; ++i) o.vec(f.add(r.vec<3,T>()));
  o.put(f->x());'''),
 ("qr", [D], FD, '''
  vmml::Matrix<3,3,T> a = r.mat<3,3,T>(), q, t; for (int i = 0; i < 3; ++i) a(i,i) += 40;
  vmml::qr_decompose_gram_schmidt(a, q, t); o.mat(q); o.mat(t);'''),
 ("math", [H], FD, '''
  const T a = r.num<T>(), b = r.num<T>(); o.put(vmml::math::pythag(a, b)); o.put(vmml::math::squared(a));
  o.put(vmml::math::sign(a, b)); vmml::math::abs_less<T> l; o.put(l(a, b)); vmml::math::abs_greater<T> g; o.put(g(a, b));'''),
 ("errors", [M], FD, '''
  int n = 0; vmml::Matrix<2,2,T> m = r.mat<2,2,T>(); vmml::Vector<4,T> v;
#if defined(VMMLIB_THROW_EXCEPTIONS) && defined(VMMLIB_SAFE_ACCESSORS)
  try { m.at(2, 0) = T(1); } catch (const std::exception& e) { ++n; }
  try { o.vec(m.get_row(7)); } catch (const std::exception& e) { ++n; }
#else
  n = 2;
#endif
  o.put(n); o.mat(m);'''),
 ("vec_index", [V], FDI, '''
  vmml::Vector<4,T> a = r.vec<4,T>(); const vmml::Vector<4,T> c(a);
  for (size_t i = 0; i < 4; ++i) o.put(c[i]); a[1] = T(5); a[size_t(3)] = a[0]; o.vec(a);
  o.put(c.at(2)); o.put(c.x()); o.put(c.y()); o.put(c.z()); o.put(c.w()); a.x() = T(3); a.w() = T(4); o.vec(a);'''),
 ("mat_lines", [M], FDI, '''
  vmml::Matrix<3,4,T> m = r.mat<3,4,T>(); vmml::Matrix<1,4,T> w; vmml::Matrix<3,1,T> c;
  m.get_row(2, w); o.mat(w); m.get_column(3, c); o.mat(c); m.set_row(0, w); m.set_column(1, c); o.mat(m);
  vmml::Vector<4,T> v; m.get_row(1, v); o.vec(v); vmml::Vector<3,T> u; m.get_column(0, u); o.vec(u);
  vmml::Matrix<2,3,T> s; m.get_sub_matrix(s, 1, 1); o.mat(s); m.set_sub_matrix(s, 0, 0); o.mat(m);
  m.set(v.array, v.array + 4); o.mat(m);'''),
 ("mat_minor", [M], FD, '''
  vmml::Matrix<4,4,T> m = r.mat<4,4,T>(); vmml::Matrix<3,3,T> n;
  for (size_t i = 0; i < 4; ++i) { m.get_minor(n, i, 3 - i); o.mat(n); }'''),
 ("vec_geometry", [V], FD, '''
  vmml::Vector<4,T> p(0, T(0.6), T(0.8), T(2)); vmml::Vector<3,T> a = r.vec<3,T>();
  o.put(p.distance_to_plane(a)); o.vec(p.project_point_onto_plane(a)); o.put(a.squared_distance(r.vec<3,T>()));
  vmml::Vector<3,T> x = r.vec<3,T>(), y = r.vec<3,T>(); x.cross(a, y); o.vec(x);'''),
]

# the names that each header gives to common types: (name, type); the second
# list only with VMMLIB_OLD_TYPEDEFS
NAMES = {
 V: ([("Vector2i", "Vector<2, int>"), ("Vector3i", "Vector<3, int>"), ("Vector4i", "Vector<4, int>"),
      ("Vector2ui", "Vector<2, unsigned>"), ("Vector3ui", "Vector<3, unsigned>"),
      ("Vector4ui", "Vector<4, unsigned>"), ("Vector3d", "Vector<3, double>"),
      ("Vector4d", "Vector<4, double>"), ("Vector2f", "Vector<2, float>"),
      ("Vector3f", "Vector<3, float>"), ("Vector4f", "Vector<4, float>"),
      ("Vector3ub", "Vector<3, unsigned char>"), ("Vector4ub", "Vector<4, unsigned char>")],
     [("vec2f", "Vector<2, float>"), ("vec2d", "Vector<2, double>"), ("vec3f", "Vector<3, float>"),
      ("vec3d", "Vector<3, double>"), ("vec4f", "Vector<4, float>"), ("vec4d", "Vector<4, double>")],
     ["vector<5, short>", "Vector<5, short>"]),
 M: ([("Matrix3d", "Matrix<3, 3, double>"), ("Matrix4d", "Matrix<4, 4, double>"),
      ("Matrix3f", "Matrix<3, 3, float>"), ("Matrix4f", "Matrix<4, 4, float>")],
     [("mat3d", "Matrix<3, 3, double>"), ("mat4d", "Matrix<4, 4, double>"),
      ("mat3f", "Matrix<3, 3, float>"), ("mat4f", "Matrix<4, 4, float>")],
     ["matrix<2, 5, short>", "Matrix<2, 5, short>"]),
 Q: ([("Quaternionf", "Quaternion<float>"), ("Quaterniond", "Quaternion<double>")],
     [("quaternionf", "Quaternion<float>"), ("quaterniond", "Quaternion<double>")],
     ["quaternion<float>", "Quaternion<float>"]),
 A: ([("AABBf", "AABB<float>"), ("AABBd", "AABB<double>")], [], None),
 F: ([("Frustumf", "Frustum<float>"), ("Frustumd", "Frustum<double>")],
     [("frustumf", "Frustum<float>"), ("frustumd", "Frustum<double>")],
     ["frustum<double>", "Frustum<double>"]),
 C: ([("FrustumCullerf", "FrustumCuller<float>"), ("FrustumCullerd", "FrustumCuller<double>")],
     [("frustum_cullerf", "FrustumCuller<float>"), ("frustum_cullerd", "FrustumCuller<double>")],
     ["frustum_culler<float>", "FrustumCuller<float>"]),
}


def names(headers):
    """compile-time checks of the names that these headers provide"""
    def same(n, t):
        return "static_assert(std::is_same<vmml::%s, vmml::%s>::value, \"%s\");\n" % (n, t, n)
    s = ["#include <type_traits>\n", "", "", ""]
    for h in sorted(headers):
        if h not in NAMES:
            continue
        new, old, alias = NAMES[h]
        s[1] += "".join(same(n, t) for n, t in new)
        s[2] += "".join(same(n, t) for n, t in old)
        if alias:
            s[2] += same(alias[0], alias[1])
        # without them the names are the program's own
        s[3] += "".join("namespace vmml { struct %s { int own; }; }\n" % n for n, _ in new + old)
    return (s[0] + "#ifndef VMMLIB_NO_TYPEDEFS\n" + s[1] + "#ifdef VMMLIB_OLD_TYPEDEFS\n" + s[2] +
            "#endif\n#else\n" + s[3] + "#endif\n")
