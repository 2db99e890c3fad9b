// V03: construction, conversion, assignment and access of vectors
#include <vmmlib/vector.hpp>

#include "gen.hpp"

#include <list>
#include <new>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"short range", "long range",
                                   "out-of-range index", "type conversion",
                                   "homogeneous coordinate", "sub-vector write", 0};
const char* const pbt::RULE =
    "Random component values are put into a vector over recognisable garbage "
    "through every constructor, setter, assignment and accessor and read back "
    "through the raw storage (and the other way round); non-trivial = the "
    "components are pairwise distinct or the form is a partial write.";
#endif

template <class T, size_t M>
bool distinct(const T* a)
{
    for (size_t i = 0; i < M; ++i)
        for (size_t j = i + 1; j < M; ++j)
            if (a[i] == a[j])
                return false;
    return true;
}

template <size_t M, class T>
void eq(Src& s, const vmml::Vector<M, T>& v, const T* want, const char* what)
{
    for (size_t i = 0; i < M; ++i)
        s.same(v.array[i], want[i], what, i);
}

template <class T>
struct Arr
{
    T v[4];
};
template <class T>
Arr<T> arr(T a, T b, T c, T d = T())
{
    Arr<T> r = {{a, b, c, d}};
    return r;
}

// an object made over dirty memory
template <class V>
struct Dirty
{
    Dirty() { std::memset(mem, 0xA5, sizeof(mem)); }
    alignas(V) unsigned char mem[sizeof(V)];
    void* p() { return mem; }
};

template <size_t M, class T>
void basics(Src& s)
{
    typedef vmml::Vector<M, T> V;
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL);
    T a[M], b[M], z[M];
    fill(g, a, M);
    fill(g, b, M);
    for (size_t i = 0; i < M; ++i)
        z[i] = 0;
    const T k = g();
    s.show("a", a, M);
    s.show("k", k);
    T ks[M];
    for (size_t i = 0; i < M; ++i)
        ks[i] = k;
    Dirty<V> d;
    eq(s, *new (d.p()) V(), z, "Vector()");
    eq(s, *new (d.p()) V(k), ks, "Vector(a)");
    eq(s, *new (d.p()) V((const T*)a), a, "Vector(pointer)");
    V v((const T*)a);
    eq(s, *new (d.p()) V(v), a, "copy constructor");
    V w;
    garbage(w.array, M);
    V& ref = (w = v);
    s.expect(&ref == &w, "assignment returns its target");
    eq(s, w, a, "assignment");
    w = *&w;
    eq(s, w, a, "self-assignment");
    garbage(w.array, M);
    w = (const T*)a;
    eq(s, w, a, "assignment from a pointer");
    garbage(w.array, M);
    const T back = (w = k);
    s.same(back, k, "value of an assignment of a filler");
    eq(s, w, ks, "assignment of a filler");
    garbage(w.array, M);
    w.set(k);
    eq(s, w, ks, "set(a)");
    w.set(v);
    eq(s, w, a, "set(vector of the same size)");
    v = V((const T*)b);
    eq(s, w, a, "a copy is independent of its source");

    // iterators, size and access agree with the storage
    s.same(V::size(), M, "size()");
    s.expect((size_t)V::DIMENSION == M, "DIMENSION");
    const V& c = w;
    s.expect(w.end() - w.begin() == (std::ptrdiff_t)M, "end() - begin()");
    s.expect(c.end() - c.begin() == (std::ptrdiff_t)M, "const end() - begin()");
    size_t i = 0;
    for (typename V::iterator it = w.begin(); it != w.end(); ++it, ++i)
        s.same(*it, a[i], "iteration", i);
    i = 0;
    for (typename V::const_iterator it = c.begin(); it != c.end(); ++it, ++i)
        s.same(*it, a[i], "const iteration", i);
    i = M;
    for (typename V::reverse_iterator it = w.rbegin(); it != w.rend(); ++it)
        s.same(*it, a[--i], "reverse iteration", i);
    s.expect(i == 0, "reverse iteration visits every component");
    i = M;
    for (typename V::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it)
        s.same(*it, a[--i], "const reverse iteration", i);
    s.expect(i == 0, "const reverse iteration visits every component");
    for (i = 0; i < M; ++i)
    {
        s.same(c(i), a[i], "operator()", i);
        s.same(c.at(i), a[i], "at()", i);
        s.same(c[i], a[i], "operator[]", i);
        w(i) = b[i];
        s.same(w.array[i], b[i], "write through operator()", i);
        w.at(i) = a[i];
        s.same(w.array[i], a[i], "write through at()", i);
        w[i] = b[i];
        s.same(w.array[i], b[i], "write through operator[]", i);
        for (size_t j = i + 1; j < M; ++j)
            s.same(w.array[j], a[j], "a write changes one component only", j);
    }
    s.nontrivial(distinct<T, M>(a));
}

template <size_t M, class T>
void bounds(Src& s)
{
#ifndef NDEBUG
    typedef vmml::Vector<M, T> V;
    V v;
    Gen<T> g(s);
    fill(g, v.array, M);
    const V v0 = v;
    const V& c = v;
    const size_t i = s.coin() ? M + s.draw(4) : (size_t)0 - 1 - s.draw(1 << 20);
    s.show("M", M);
    s.show("index", i);
    s.label(2);
    T sink = T();
    s.expect(throws<vmml::exception>([&] { sink = v.at(i); }), "at() beyond the end throws");
    s.expect(throws<vmml::exception>([&] { sink = v(i); }), "operator() beyond the end throws");
    s.expect(throws<vmml::exception>([&] { sink = c.at(i); }), "const at() beyond the end throws");
    s.expect(throws<vmml::exception>([&] { sink = c(i); }), "const operator() beyond the end throws");
    s.expect(throws<std::exception>([&] { v.at(i) = T(5); }), "the exception is a std::exception");
    eq(s, v, v0.array, "vector unchanged after a refused access");
    // every index inside is accepted
    for (size_t j = 0; j < M; ++j)
        s.same(v.at(j), v0.array[j], "at() inside", j);
    s.nontrivial();
    (void)sink;
#else
    s.draw(2);
#endif
}

template <class T>
void named(Src& s)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL);
    T a[4], b[4];
    fill(g, a, 4);
    fill(g, b, 4);
    s.show("a", a, 4);
    typedef vmml::Vector<2, T> V2;
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    Dirty<V4> d;
    eq(s, *new (d.p()) V2(a[0], a[1]), a, "Vector(x, y)");
    eq(s, *new (d.p()) V3(a[0], a[1], a[2]), a, "Vector(x, y, z)");
    eq(s, *new (d.p()) V4(a[0], a[1], a[2], a[3]), a, "Vector(x, y, z, w)");
    V2 v2;
    V3 v3;
    V4 v4;
    garbage(v2.array, 2);
    garbage(v3.array, 3);
    garbage(v4.array, 4);
    v2.set(a[0], a[1]);
    v3.set(a[0], a[1], a[2]);
    v4.set(a[0], a[1], a[2], a[3]);
    eq(s, v2, a, "set(x, y)");
    eq(s, v3, a, "set(x, y, z)");
    eq(s, v4, a, "set(x, y, z, w)");
    // fewer values than components: the rest stays
    T want[4] = {b[0], b[1], a[2], a[3]};
    v4.set(b[0], b[1]);
    eq(s, v4, want, "set(x, y) of a longer vector");
    want[2] = b[2];
    v4.set(b[0], b[1], b[2]);
    eq(s, v4, want, "set(x, y, z) of a longer vector");

    eq(s, *new (d.p()) V4(v3, b[3]), arr<T>(a[0], a[1], a[2], b[3]).v, "Vector(v, last)");
    eq(s, *new (d.p()) V3(v2, b[2]), arr<T>(a[0], a[1], b[2]).v, "Vector(v, last)");
    garbage(v4.array, 4);
    v4.set(v3, b[3]);
    eq(s, v4, arr<T>(a[0], a[1], a[2], b[3]).v, "set(v, last)");

    // named access
    const V4 c(a[0], a[1], a[2], a[3]);
    s.same(c.x(), a[0], "x()");
    s.same(c.y(), a[1], "y()");
    s.same(c.z(), a[2], "z()");
    s.same(c.w(), a[3], "w()");
    s.same(c.r(), a[0], "r()");
    s.same(c.g(), a[1], "g()");
    s.same(c.b(), a[2], "b()");
    s.same(c.a(), a[3], "a()");
    V4 m;
    garbage(m.array, 4);
    m.x() = a[0];
    m.y() = a[1];
    m.z() = a[2];
    m.w() = a[3];
    eq(s, m, a, "write through x() y() z() w()");
    m.r() = b[0];
    m.g() = b[1];
    m.b() = b[2];
    m.a() = b[3];
    eq(s, m, b, "write through r() g() b() a()");
    s.nontrivial(distinct<T, 4>(a) && distinct<T, 4>(b));
}

// set< N >, iter_set, sub vectors
template <size_t M, size_t N, class T>
void parts(Src& s)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL);
    vmml::Vector<M, T> v;
    vmml::Vector<N, T> w;
    T a[M];
    fill(g, a, M);
    fill(g, w.array, N);
    s.show("a", a, M);
    s.show("w", w.array, N);
    std::memcpy(v.array, a, sizeof(a));
    v.template set<N>(w);
    for (size_t i = 0; i < M; ++i)
        s.same(v.array[i], i < N ? w.array[i] : a[i], "set(other vector)", i);

    const size_t len = s.draw(M + 4);
    std::list<double> src;
    for (size_t i = 0; i < len; ++i)
        src.push_back((double)s.range(0, 90));
    s.label(len < M ? 0 : 1);
    std::memcpy(v.array, a, sizeof(a));
    v.iter_set(src.begin(), src.end());
    std::list<double>::const_iterator it = src.begin();
    for (size_t i = 0; i < M; ++i)
        if (i < len)
            s.same(v.array[i], (T)*it++, "iter_set", i);
        else
            s.same(v.array[i], a[i], "iter_set leaves the rest", i);
    s.nontrivial();
}

template <size_t M, size_t N, class T>
void subvec(Src& s)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL);
    typedef vmml::Vector<M, T> V;
    V v;
    T a[M], b[N];
    fill(g, a, M);
    fill(g, b, N);
    const size_t off = s.draw(M - N + 1);
    s.show("a", a, M);
    s.show("N", N);
    s.show("offset", off);
    std::memcpy(v.array, a, sizeof(a));
    const V& c = v;
    const vmml::Vector<N, T> r = c.template get_sub_vector<N>(off);
    for (size_t i = 0; i < N; ++i)
        s.same(r.array[i], a[off + i], "get_sub_vector", i);
    const vmml::Vector<N, T> r0 = c.template get_sub_vector<N>();
    for (size_t i = 0; i < N; ++i)
        s.same(r0.array[i], a[i], "get_sub_vector at the start", i);
    // the mutable one refers to the components of the vector
    for (size_t i = 0; i < N; ++i)
        v.template get_sub_vector<N>(off).array[i] = b[i];
    s.label(5);
    for (size_t i = 0; i < M; ++i)
        s.same(v.array[i], i >= off && i < off + N ? b[i - off] : a[i],
               "write through a sub-vector", i);
    s.nontrivial(distinct<T, M>(a));
}

// conversion of the component type
template <size_t M, class T, class U>
void convert(Src& s)
{
    vmml::Vector<M, U> u;
    for (size_t i = 0; i < M; ++i)
        u.array[i] = convertible<T, U>(s);
    s.show("u", u.array, M);
    s.label(3);
    T want[M];
    for (size_t i = 0; i < M; ++i)
        want[i] = (T)u.array[i];
    vmml::Vector<M, T> a(u), b, c;
    garbage(b.array, M);
    garbage(c.array, M);
    b = u;
    c.cast_from(u);
    eq(s, a, want, "converting constructor");
    eq(s, b, want, "converting assignment");
    eq(s, c, want, "cast_from()");
    s.nontrivial(distinct<U, M>(u.array));
}

template <size_t M, class T>
void homogeneous(Src& s)
{
    Gen<T> g(s, 20, 2);
    s.label(4);
    vmml::Vector<M, T> p;
    fill(g, p.array, M);
    s.show("p", p.array, M);
    vmml::Vector<M + 1, T> h(p), h2;
    garbage(h2.array, M + 1);
    h2 = p;
    for (size_t i = 0; i <= M; ++i)
    {
        s.same(h.array[i], i < M ? p.array[i] : T(1), "to homogeneous (ctor)", i);
        s.same(h2.array[i], i < M ? p.array[i] : T(1), "to homogeneous (=)", i);
    }
    const T w = s.chance(1, 4) ? T(1) : g.nonzero();
    s.show("w", w);
    for (size_t i = 0; i < M; ++i)
        h.array[i] = g();
    h.array[M] = w;
    vmml::Vector<M, T> q(h), q2;
    garbage(q2.array, M);
    q2 = h;
    for (size_t i = 0; i < M; ++i)
    {
        // integers are divided as integers are
        const LD want = std::is_integral<T>::value ? (LD)(T)(h.array[i] / w) : (LD)h.array[i] / w;
        s.near(q.array[i], want, want, 3, "from homogeneous (ctor)", i);
        s.near(q2.array[i], want, want, 3, "from homogeneous (=)", i);
    }
    s.nontrivial(w != 1 && distinct<T, M>(p.array));
}

template <class T>
void constants(Src& s)
{
    typedef vmml::Vector<3, T> V;
    static const struct
    {
        const V* v;
        int e[3];
    } C[] = {{&V::FORWARD, {0, 0, -1}}, {&V::BACKWARD, {0, 0, 1}},
             {&V::UP, {0, 1, 0}},       {&V::DOWN, {0, -1, 0}},
             {&V::LEFT, {-1, 0, 0}},    {&V::RIGHT, {1, 0, 0}},
             {&V::ONE, {1, 1, 1}},      {&V::ZERO, {0, 0, 0}},
             {&V::UNIT_X, {1, 0, 0}},   {&V::UNIT_Y, {0, 1, 0}},
             {&V::UNIT_Z, {0, 0, 1}}};
    const size_t i = s.draw(11);
    s.show("constant", i);
    for (size_t j = 0; j < 3; ++j)
        s.same(C[i].v->array[j], (T)C[i].e[j], "constant vector", j);
    const vmml::Vector<4, T>& one = vmml::Vector<4, T>::ONE;
    for (size_t j = 0; j < 4; ++j)
        s.same(one.array[j], T(1), "Vector4::ONE", j);
    s.nontrivial();
}

#if PBT_PART == 0
PBT_REG("basics_f3", basics<3, float>);
PBT_REG("basics_f4", basics<4, float>);
PBT_REG("basics_d2", basics<2, double>);
PBT_REG("basics_d5", basics<5, double>);
PBT_REG("basics_i3", basics<3, int>);
PBT_REG("basics_u8_4", basics<4, uint8_t>);
PBT_REG("bounds_f3", bounds<3, float>, 8);
PBT_REG("bounds_i4", bounds<4, int>, 8);
PBT_REG("named_f", named<float>);
PBT_REG("named_d", named<double>);
PBT_REG("named_i", named<int>);
PBT_REG("parts_42", (parts<4, 2, float>), 8);
PBT_REG("parts_36", (parts<3, 6, double>), 8);
PBT_REG("parts_54", (parts<5, 4, int>), 8);
PBT_REG("subvec_43", (subvec<4, 3, float>), 8);
PBT_REG("subvec_72", (subvec<7, 2, double>), 8);
PBT_REG("subvec_33", (subvec<3, 3, int>), 8);
PBT_REG("convert_fd", (convert<3, float, double>), 8);
PBT_REG("convert_if", (convert<4, int, float>), 8);
PBT_REG("convert_du8", (convert<4, double, uint8_t>), 8);
PBT_REG("convert_u8d", (convert<3, uint8_t, double>), 8);
PBT_REG("convert_fi", (convert<2, float, int>), 8);
PBT_REG("convert_di", (convert<3, double, int>), 8);
PBT_REG("convert_id", (convert<5, int, double>), 8);
PBT_REG("convert_ui", (convert<4, unsigned, int>), 8);
PBT_REG("convert_lu", (convert<3, int64_t, unsigned>), 8);
PBT_REG("homogeneous_f3", homogeneous<3, float>);
PBT_REG("homogeneous_d2", homogeneous<2, double>);
PBT_REG("homogeneous_d4", homogeneous<4, double>);
PBT_REG("homogeneous_i3", homogeneous<3, int>, 8);
PBT_REG("constants_f", constants<float>, 2);
PBT_REG("constants_i", constants<int>, 2);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("basics_1_float", (basics<1, float>), 3);
PBT_REG("basics_2_float", (basics<2, float>), 3);
PBT_REG("basics_5_int", (basics<5, int>), 3);
PBT_REG("basics_6_double", (basics<6, double>), 3);
PBT_REG("basics_7_float", (basics<7, float>), 3);
PBT_REG("basics_8_double", (basics<8, double>), 3);
PBT_REG("basics_9_int", (basics<9, int>), 3);
PBT_REG("basics_16_float", (basics<16, float>), 3);
PBT_REG("basics_17_double", (basics<17, double>), 3);
PBT_REG("basics_3_int64_t", (basics<3, int64_t>), 3);
PBT_REG("bounds_1_double", (bounds<1, double>), 2);
PBT_REG("bounds_2_float", (bounds<2, float>), 2);
PBT_REG("bounds_5_float", (bounds<5, float>), 2);
PBT_REG("bounds_8_int", (bounds<8, int>), 2);
PBT_REG("bounds_17_double", (bounds<17, double>), 2);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("named_unsigned", (named<unsigned>), 3);
PBT_REG("named_uint8_t", (named<uint8_t>), 3);
PBT_REG("named_int64_t", (named<int64_t>), 3);
PBT_REG("parts_2_1_float", (parts<2, 1, float>), 2);
PBT_REG("parts_3_2_float", (parts<3, 2, float>), 2);
PBT_REG("parts_3_3_double", (parts<3, 3, double>), 2);
PBT_REG("parts_4_3_float", (parts<4, 3, float>), 2);
PBT_REG("parts_2_4_int", (parts<2, 4, int>), 2);
PBT_REG("parts_6_3_float", (parts<6, 3, float>), 2);
PBT_REG("parts_8_5_float", (parts<8, 5, float>), 2);
PBT_REG("parts_5_9_double", (parts<5, 9, double>), 2);
PBT_REG("parts_16_7_int", (parts<16, 7, int>), 2);
PBT_REG("subvec_2_1_float", (subvec<2, 1, float>), 2);
PBT_REG("subvec_4_2_float", (subvec<4, 2, float>), 2);
PBT_REG("subvec_4_4_double", (subvec<4, 4, double>), 2);
PBT_REG("subvec_5_3_int", (subvec<5, 3, int>), 2);
PBT_REG("subvec_8_4_float", (subvec<8, 4, float>), 2);
PBT_REG("subvec_9_3_double", (subvec<9, 3, double>), 2);
PBT_REG("subvec_16_5_float", (subvec<16, 5, float>), 2);
PBT_REG("convert_2_float_double", (convert<2, float, double>), 2);
PBT_REG("convert_4_double_float", (convert<4, double, float>), 2);
PBT_REG("convert_7_int_double", (convert<7, int, double>), 2);
PBT_REG("convert_9_float_double", (convert<9, float, double>), 2);
PBT_REG("convert_1_double_float", (convert<1, double, float>), 2);
PBT_REG("convert_16_uint8_t_float", (convert<16, uint8_t, float>), 2);
PBT_REG("convert_4_float_int64_t", (convert<4, float, int64_t>), 2);
PBT_REG("convert_3_int64_t_uint64_t", (convert<3, int64_t, uint64_t>), 2);
PBT_REG("convert_2_uint64_t_int64_t", (convert<2, uint64_t, int64_t>), 2);
PBT_REG("convert_3_int64_t_int", (convert<3, int64_t, int>), 2);
PBT_REG("convert_5_double_int64_t", (convert<5, double, int64_t>), 2);
PBT_REG("convert_3_int8_t_int16_t", (convert<3, int8_t, int16_t>), 2);
PBT_REG("homogeneous_1_float", (homogeneous<1, float>), 2);
PBT_REG("homogeneous_2_float", (homogeneous<2, float>), 2);
PBT_REG("homogeneous_3_double", (homogeneous<3, double>), 2);
PBT_REG("homogeneous_4_float", (homogeneous<4, float>), 2);
PBT_REG("homogeneous_5_double", (homogeneous<5, double>), 2);
PBT_REG("homogeneous_7_float", (homogeneous<7, float>), 2);
PBT_REG("basics_300_float", (basics<300, float>), 1);
PBT_REG("convert_300_double_float", (convert<300, double, float>), 1);
PBT_REG("homogeneous_300_double", (homogeneous<300, double>), 1);
#endif
