// random inputs and output of the generated programs of C01; included after
// the vmmlib headers of the program, so that these stand on their own
#ifndef C01_HPP
#define C01_HPP
#include <cmath>
#include <cstdio>
#include <sstream>
#include <string>

namespace vmml
{
template <size_t M, typename T> class Vector;
template <size_t M, size_t N, typename T> class Matrix;
}

struct Rng
{
    unsigned long long s;
    unsigned next()
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return (unsigned)(s >> 40);
    }
    template <class T>
    T num()
    {
        // -8 .. 8 in steps of 1/64, or integers
        const int k = (int)(next() % 1025) - 512;
        return T(1) / T(2) == T(0) ? T(k / 64) : T(k) / T(64);
    }
    template <size_t M, class T>
    vmml::Vector<M, T> vec()
    {
        vmml::Vector<M, T> v;
        for (size_t i = 0; i < M; ++i)
            v.array[i] = num<T>();
        return v;
    }
    template <size_t M, size_t N, class T>
    vmml::Matrix<M, N, T> mat()
    {
        vmml::Matrix<M, N, T> m;
        for (size_t i = 0; i < M * N; ++i)
            m.array[i] = num<T>();
        return m;
    }
};

struct Sink
{
    double tol;
    void one(double v) { std::printf(" %.17g", v); }
    void begin(const char* k, double t) { std::printf("%s %.3g", k, t); }
    void end() { std::printf("\n"); }
    template <class V>
    void range(const char* k, const V& v, size_t n, double t)
    {
        begin(k, t);
        for (size_t i = 0; i < n; ++i)
            one((double)v.array[i]);
        end();
    }
    template <class V>
    void vec(const V& v)
    {
        range("v", v, sizeof(v.array) / sizeof(v.array[0]), 0);
    }
    template <class V>
    void mat(const V& v, double t = 0)
    {
        range("m", v, sizeof(v.array) / sizeof(v.array[0]), t);
    }
    template <class V>
    void quat(const V& v)
    {
        range("q", v, 4, 0);
    }
    template <class X>
    void put(X x)
    {
        begin("x", 0);
        one((double)x);
        end();
    }
    void text(const std::string& s)
    {
        std::printf("t ");
        for (size_t i = 0; i < s.size(); ++i)
            std::printf("%c", s[i] == '\n' ? '$' : s[i]);
        std::printf("\n");
    }
};

#endif
