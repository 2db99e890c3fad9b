// S01: text streams: write_to_stream/read_from_stream and operator<<
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/vector.hpp>

#include "gen.hpp"

#include <iomanip>
#include <sstream>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"several objects in one stream", "truncated input",
                                   "other flags", "hexadecimal or scientific",
                                   "byte components", "other white space", 0};
const char* const pbt::RULE =
    "Random vectors and matrices of several types and sizes, written one after "
    "the other to a stream of enough precision and read back (also re-spaced and "
    "truncated), and printed under random stream settings; non-trivial = at least "
    "two different components.";
#endif

template <class T>
bool varied(const T* p, size_t n)
{
    for (size_t i = 1; i < n; ++i)
        if (p[i] != p[0])
            return true;
    return false;
}

// any value of the type, for round trips
template <class T>
struct Any
{
    static T get(Src& s, Gen<T>& g, std::true_type)
    {
        if (s.chance(1, 4))
        {
            T v = (T)std::ldexp(1 + s.unit53(), (int)s.zigzag(std::numeric_limits<T>::max_exponent - 3));
            return s.coin() ? -v : v;
        }
        return g();
    }
    static T get(Src& s, Gen<T>& g, std::false_type)
    {
        switch (s.draw(4))
        {
        case 0:
            return std::numeric_limits<T>::max();
        case 1:
            return std::numeric_limits<T>::lowest();
        default:
            return g();
        }
    }
};

template <class T>
T anyValue(Src& s, Gen<T>& g)
{
    return Any<T>::get(s, g, std::integral_constant<bool, std::is_floating_point<T>::value>());
}

template <class O>
size_t elements(const O&)
{
    return sizeof(((O*)0)->array) / sizeof(((O*)0)->array[0]);
}

// position in storage of the i-th component in reading order
template <size_t M, class T>
size_t pos(const vmml::Vector<M, T>&, size_t i)
{
    return i;
}
template <size_t M, size_t N, class T>
size_t pos(const vmml::Matrix<M, N, T>&, size_t i)
{
    return (i % N) * M + i / N;
}

template <class O, class T>
void roundTrip(Src& s)
{
    const size_t n = sizeof(O) / sizeof(T);
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL, 1);
    const int k = (int)s.range(1, 3);
    O src[3];
    std::ostringstream os;
    os.precision(std::numeric_limits<T>::max_digits10 + (std::is_floating_point<T>::value ? 0 : 6));
    if (s.coin() && std::is_floating_point<T>::value)
    {
        os.setf(std::ios::scientific, std::ios::floatfield);
        s.label(3);
    }
    const std::ios::fmtflags fl = os.flags();
    const std::streamsize pr = os.precision();
    if (sizeof(T) == 1)
        s.label(4);
    for (int j = 0; j < k; ++j)
    {
        for (size_t i = 0; i < n; ++i)
            src[j].array[i] = anyValue(s, g);
        s.show("object", src[j].array, n);
        const O c(src[j]);
        c.write_to_stream(os);
        for (size_t i = 0; i < n; ++i)
            s.same(c.array[i], src[j].array[i], "writing does not change the object", i);
    }
    s.expect(os.flags() == fl && os.precision() == pr, "the stream's settings are kept");
    if (k > 1)
        s.label(0);
    std::string text = os.str();
    // the numbers, in row order
    {
        std::istringstream is(text);
        for (int j = 0; j < k; ++j)
            for (size_t i = 0; i < n; ++i)
            {
                long double v;
                is >> v;
                s.expect(!is.fail(), "the text consists of numbers");
                const T w = src[j].array[pos(src[j], i)];
                s.within((T)v, (LD)w, 0, "number in the text", i);
            }
        std::string rest;
        is >> rest;
        s.expect(rest.empty(), "nothing follows the numbers");
    }
    if (s.coin())
    {
        // any white space separates
        for (size_t i = 0; i < text.size(); ++i)
            if (text[i] == ' ')
                text[i] = "\n\t  "[s.draw(4)];
        text = "\n " + text;
        s.label(5);
    }
    std::istringstream is(text);
    for (int j = 0; j < k; ++j)
    {
        O r;
        garbage(r.array, n);
        r.read_from_stream(is);
        s.expect(!is.fail(), "reading succeeds");
        for (size_t i = 0; i < n; ++i)
            s.same(r.array[i], src[j].array[i], "value after the round trip", i);
    }
    s.nontrivial(varied(src[0].array, n));
}

// Reading from a stream that ends early: what was there is read, the stream
// reports failure, and the rest of the object is not filled with anything else.
template <class O, class T>
void truncated(Src& s)
{
    const size_t n = sizeof(O) / sizeof(T);
    Gen<T> g(s, 6);
    const size_t have = s.draw(n);
    std::ostringstream os;
    os.precision(20);
    std::vector<T> v;
    for (size_t i = 0; i < have; ++i)
    {
        v.push_back(g());
        os << +v[i] << ' ';
    }
    s.show("numbers", v.data(), v.size());
    O r;
    garbage(r.array, n);
    const O before(r);
    std::istringstream is(os.str());
    r.read_from_stream(is);
    s.expect(is.fail(), "the stream reports failure");
    for (size_t i = 0; i < have; ++i)
        s.same(r.array[pos(r, i)], v[i], "component that was there", i);
    for (size_t i = have; i < n; ++i)
    {
        const T x = r.array[pos(r, i)];
        s.expect(x == before.array[pos(r, i)] || x == 0,
                 "missing components keep their value or are zero");
    }
    s.label(1);
    s.nontrivial(have > 0);
}

// stream settings a program may have chosen
inline void settings(Src& s, std::ostream& os)
{
    if (s.coin())
        return;
    s.label(2);
    os.precision(s.range(0, 20));
    if (s.coin())
        os.setf(s.coin() ? std::ios::left : std::ios::internal, std::ios::adjustfield);
    if (s.chance(1, 3))
        os.setf(std::ios::showpos);
    if (s.chance(1, 4))
        os.setf(std::ios::showpoint);
    if (s.chance(1, 4))
        os.setf(s.coin() ? std::ios::fixed : std::ios::scientific, std::ios::floatfield);
    if (s.chance(1, 6))
        os.setf(std::ios::uppercase);
}

inline std::string strip(const std::string& t)
{
    std::string o;
    for (size_t i = 0; i < t.size(); ++i)
    {
        const char c = t[i];
        o += (c == '[' || c == ']' || c == '|' || c == '(' || c == ')' || c == ',') ? ' ' : c;
    }
    return o;
}

template <class O, class T>
void print(Src& s, const O& o, const std::vector<T>& order, int precision, const char* what,
           size_t rows = 0, const char* open = "[ ", const char* close = " ]")
{
    std::ostringstream os;
    settings(s, os);
    const std::ios::fmtflags fl = os.flags();
    const std::streamsize pr = os.precision();
    const char fc = os.fill();
    os << "x";
    std::ostream& ret = os << o;
    s.expect(&ret == &os, "operator<< returns the stream");
    s.expect(os.flags() == fl && os.precision() == pr && os.width() == 0 && os.fill() == fc,
             "operator<< leaves the stream's settings as they were");
    s.expect(os.good(), "the stream is good");
    std::ostringstream ref;
    ref.flags(fl);
    ref.setf(std::ios::right, std::ios::adjustfield);
    ref.precision(precision ? precision : pr);
    std::string text = os.str().substr(1);
    if (rows)
    {
        size_t nl = 0;
        for (size_t i = 0; i < text.size(); ++i)
            nl += text[i] == '\n';
        s.same(nl, rows, "one line per row");
        // the components of a row are on its line
        std::istringstream lines(text);
        std::string line;
        for (size_t r = 0; std::getline(lines, line); ++r)
        {
            std::istringstream is(strip(line));
            std::string tok;
            size_t c = 0;
            while (is >> tok)
                ++c;
            s.same(c, order.size() / rows, "components on a line", r);
        }
    }
    std::istringstream is(strip(text));
    for (size_t i = 0; i < order.size(); ++i)
    {
        ref.str("");
        ref << +order[i];
        std::string tok;
        is >> tok;
        if (tok != ref.str())
            s.fail(std::string(what) + ": component " + std::to_string(i) + " printed as \"" +
                   tok + "\", expected \"" + ref.str() + "\"");
    }
    std::string rest;
    is >> rest;
    s.expect(rest.empty(), "nothing else is printed");
    // the layout: columns of ten, between brackets or bars
    if (!precision)
        return;
    ref.str("");
    ref.fill(os.fill());
    const size_t lines = rows ? rows : 1, n = order.size() / lines;
    for (size_t r = 0; r < lines; ++r)
    {
        ref << (rows ? "|" : open);
        for (size_t i = 0; i < n; ++i)
        {
            ref << std::setw(10) << +order[r * n + i];
            if (close[0] == ' ' || i + 1 < n || rows)
                ref << " ";
        }
        ref << (rows ? "|\n" : close + (close[0] == ' '));
    }
    if (text != ref.str())
        s.fail(std::string(what) + " printed as \"" + text + "\", expected \"" + ref.str() + "\"");
}

template <size_t M, class T>
void printVector(Src& s)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL, 1);
    vmml::Vector<M, T> v;
    fill(g, v.array, M);
    s.show("v", v.array, M);
    print(s, v, std::vector<T>(v.array, v.array + M), 5, "vector");
    s.nontrivial(varied(v.array, M));
}
template <size_t M, size_t N, class T>
void printMatrix(Src& s)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 20 : FULL, 1);
    vmml::Matrix<M, N, T> m;
    fill(g, m.array, M * N);
    s.show("m", m.array, M * N);
    std::vector<T> o;
    for (size_t i = 0; i < M * N; ++i)
        o.push_back(m.array[pos(m, i)]);
    print(s, m, o, 5, "matrix", M);
    s.nontrivial(varied(m.array, M * N));
}
template <class T>
void printOthers(Src& s)
{
    Gen<T> g(s, 20, 1);
    T x[6];
    fill(g, x, 6);
    s.show("x", x, 6);
    const vmml::Quaternion<T> q(x[0], x[1], x[2], x[3]);
    print(s, q, std::vector<T>(q.array, q.array + 4), 0, "quaternion");
    const vmml::Frustum<T> f(x[0], x[1], x[2], x[3], x[4], x[5]);
    print(s, f, std::vector<T>(x, x + 6), 5, "frustum", 0, "[", "]");
    {
        const vmml::AABB<T> b(vmml::Vector<3, T>(x[0], x[1], x[2]),
                              vmml::Vector<3, T>(x[3], x[4], x[5]));
        std::ostringstream os, ref;
        os << b;
        ref << b.getMin() << b.getMax();
        std::string a, c;
        std::istringstream i1(strip(os.str())), i2(strip(ref.str()));
        std::vector<std::string> t1, t2;
        while (i1 >> a)
            if (a != "-")
                t1.push_back(a);
        while (i2 >> c)
            t2.push_back(c);
        s.expect(t1 == t2, "a box prints its corners");
    }
    const vmml::Visibility v[3] = {vmml::VISIBILITY_NONE, vmml::VISIBILITY_PARTIAL,
                                   vmml::VISIBILITY_FULL};
    static const char* const N[3] = {"not visible", "partially visible", "fully visible"};
    for (int i = 0; i < 3; ++i)
    {
        std::ostringstream os;
        os << v[i];
        s.expect(os.str().find(N[i]) == 0, "visibility prints its name");
    }
    s.nontrivial(varied(x, 6));
}

#define V(M, T) vmml::Vector<M, T>, T
#define MM(M, N, T) vmml::Matrix<M, N, T>, T
typedef unsigned char ub;
typedef signed char sb;
#if PBT_PART == 0
PBT_REG("round_trip_v3_f", (roundTrip<V(3, float)>), 8);
PBT_REG("round_trip_v4_d", (roundTrip<V(4, double)>), 8);
PBT_REG("round_trip_v2_i", (roundTrip<V(2, int)>), 4);
PBT_REG("round_trip_v4_ub", (roundTrip<V(4, ub)>), 4);
PBT_REG("round_trip_v3_sb", (roundTrip<V(3, sb)>), 4);
PBT_REG("round_trip_v5_l", (roundTrip<V(5, long long)>), 4);
PBT_REG("round_trip_m3_f", (roundTrip<MM(3, 3, float)>), 4);
PBT_REG("round_trip_m24_d", (roundTrip<MM(2, 4, double)>), 4);
PBT_REG("round_trip_m42_i", (roundTrip<MM(4, 2, int)>), 4);
PBT_REG("round_trip_m23_ub", (roundTrip<MM(2, 3, ub)>), 4);
PBT_REG("truncated_v4_f", (truncated<V(4, float)>), 4);
PBT_REG("truncated_m23_d", (truncated<MM(2, 3, double)>), 4);
PBT_REG("truncated_m32_i", (truncated<MM(3, 2, int)>), 4);
PBT_REG("print_v3_f", (printVector<3, float>), 4);
PBT_REG("print_v4_d", (printVector<4, double>), 4);
PBT_REG("print_v2_i", (printVector<2, int>), 4);
PBT_REG("print_m4_f", (printMatrix<4, 4, float>), 4);
PBT_REG("print_m23_d", (printMatrix<2, 3, double>), 4);
PBT_REG("print_m31_i", (printMatrix<3, 1, int>), 4);
PBT_REG("print_others_f", (printOthers<float>), 4);
PBT_REG("print_others_d", (printOthers<double>), 4);
#elif PBT_PART == 1 // further shapes and types
PBT_REG("roundTrip_V_1_float_", (roundTrip<V(1, float)>), 2);
PBT_REG("roundTrip_V_7_double_", (roundTrip<V(7, double)>), 2);
PBT_REG("roundTrip_V_8_float_", (roundTrip<V(8, float)>), 2);
PBT_REG("roundTrip_V_16_double_", (roundTrip<V(16, double)>), 2);
PBT_REG("roundTrip_V_17_int_", (roundTrip<V(17, int)>), 2);
PBT_REG("roundTrip_MM_1_1_float_", (roundTrip<MM(1, 1, float)>), 2);
PBT_REG("roundTrip_MM_4_4_float_", (roundTrip<MM(4, 4, float)>), 2);
PBT_REG("roundTrip_MM_4_4_double_", (roundTrip<MM(4, 4, double)>), 2);
PBT_REG("roundTrip_MM_5_3_float_", (roundTrip<MM(5, 3, float)>), 2);
#elif PBT_PART == 2 // further shapes and types
PBT_REG("roundTrip_MM_8_8_double_", (roundTrip<MM(8, 8, double)>), 2);
PBT_REG("roundTrip_MM_3_9_int_", (roundTrip<MM(3, 9, int)>), 2);
PBT_REG("roundTrip_MM_17_2_float_", (roundTrip<MM(17, 2, float)>), 2);
PBT_REG("roundTrip_V_6_short_", (roundTrip<V(6, short)>), 2);
PBT_REG("roundTrip_V_3_unsigned_", (roundTrip<V(3, unsigned)>), 2);
PBT_REG("truncated_V_2_double_", (truncated<V(2, double)>), 2);
PBT_REG("truncated_V_7_float_", (truncated<V(7, float)>), 2);
PBT_REG("truncated_MM_4_4_float_", (truncated<MM(4, 4, float)>), 2);
PBT_REG("truncated_MM_3_5_double_", (truncated<MM(3, 5, double)>), 2);
PBT_REG("truncated_V_9_int_", (truncated<V(9, int)>), 2);
PBT_REG("print_v4_ub", (printVector<4, ub>), 4);
PBT_REG("print_v3_sb", (printVector<3, sb>), 4);
PBT_REG("print_v2_c", (printVector<2, char>), 2);
PBT_REG("print_m23_ub", (printMatrix<2, 3, ub>), 4);
PBT_REG("print_m32_sb", (printMatrix<3, 2, sb>), 2);
PBT_REG("printVector_1_double", (printVector<1, double>), 2);
PBT_REG("printVector_7_float", (printVector<7, float>), 2);
PBT_REG("printVector_8_double", (printVector<8, double>), 2);
PBT_REG("printVector_17_int", (printVector<17, int>), 2);
PBT_REG("printMatrix_1_1_double", (printMatrix<1, 1, double>), 2);
PBT_REG("printMatrix_3_3_double", (printMatrix<3, 3, double>), 2);
PBT_REG("printMatrix_5_2_float", (printMatrix<5, 2, float>), 2);
PBT_REG("printMatrix_8_8_int", (printMatrix<8, 8, int>), 2);
PBT_REG("printMatrix_4_9_double", (printMatrix<4, 9, double>), 2);
PBT_REG("roundTrip_V_300_double", (roundTrip<V(300, double)>), 1);
PBT_REG("roundTrip_MM_17_17_int", (roundTrip<MM(17, 17, int)>), 1);
PBT_REG("printVector_300_float", (printVector<300, float>), 1);
PBT_REG("printMatrix_17_16_double", (printMatrix<17, 16, double>), 1);
#endif
