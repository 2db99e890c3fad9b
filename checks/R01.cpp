// R01: nothing is left behind: memory and files are released, whether an
// operation succeeds, fails or throws
#include "program.hpp"

#include <fstream>
#include <iostream>
#include <memory>
#include <new>

#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"operations", "errors", "files", "missing or short files",
                                   "filter history", "streams that end early", 0};
const char* const pbt::RULE =
    "Random selections of operations on vectors, matrices, quaternions, volumes, "
    "filters, streams and files, some of which fail or throw, are repeated and the "
    "heap (all allocations) and the open files are compared before and after; "
    "non-trivial = an action other than a plain operation.";
#endif

#if defined(__SANITIZE_ADDRESS__)
#define R01_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define R01_ASAN 1
#endif
#endif

namespace
{
long long live; // allocations not yet released
#ifdef R01_ASAN
bool counting;
#endif
}

#ifdef R01_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));
extern "C" void r01Malloc(const volatile void*, size_t)
{
    ++live;
}
extern "C" void r01Free(const volatile void* p)
{
    if (p)
        --live;
}
#endif

namespace
{
long long heap()
{
#ifdef R01_ASAN
    if (!counting)
    {
        counting = true;
        __sanitizer_install_malloc_and_free_hooks(r01Malloc, r01Free);
    }
#endif
    return live;
}

long long openFiles()
{
    DIR* d = opendir("/proc/self/fd");
    if (!d)
        return 0;
    long long n = 0;
    while (readdir(d))
        ++n;
    closedir(d);
    return n;
}

struct Scratch
{
    std::string dir;
    pid_t owner;
    Scratch()
    {
        const char* b = getenv("PBT_SCRATCH");
        std::string t = std::string(b ? b : "/tmp") + "/pbt-r01-XXXXXX";
        std::vector<char> v(t.begin(), t.end());
        v.push_back(0);
        if (!mkdtemp(v.data()))
        {
            perror("mkdtemp");
            exit(2);
        }
        dir = v.data();
        owner = getpid();
    }
    void clear()
    {
        DIR* p = opendir(dir.c_str());
        if (!p)
            return;
        while (dirent* e = readdir(p))
        {
            const std::string n = e->d_name;
            if (n != "." && n != "..")
                unlink((dir + "/" + n).c_str());
        }
        closedir(p);
    }
    ~Scratch()
    {
        if (owner != getpid())
            return;
        clear();
        rmdir(dir.c_str());
    }
};
Scratch& scratch()
{
    static Scratch s;
    return s;
}

struct Quiet
{
    std::ostringstream sink;
    std::streambuf *a, *b;
    Quiet() : a(std::cout.rdbuf()), b(std::cerr.rdbuf())
    {
        std::cout.rdbuf(sink.rdbuf());
        std::cerr.rdbuf(sink.rdbuf());
    }
    ~Quiet()
    {
        std::cout.rdbuf(a);
        std::cerr.rdbuf(b);
    }
};

// one thing done: a kind and two parameters
struct Action
{
    size_t kind, x, y;
};

template <class T>
void writeFile(const std::string& path, size_t n)
{
    std::ofstream f(path.c_str(), std::ios::binary);
    const std::string bytes(n, '\3');
    f.write(bytes.data(), bytes.size());
}

template <class T>
struct Run
{
    typedef Prog<T> P;
    typedef typename P::Shared Shared;

    static void act(const Action& a, const Shared& sh)
    {
        typename P::Out out;
        const std::string& dir = scratch().dir;
        switch (a.kind)
        {
        case 0:
        {
            size_t n;
            const typename P::Entry* const ops = P::ops(n);
            ops[a.x % n].op(sh, out);
            break;
        }
        case 1: // errors
            try
            {
                typename P::Q q(sh.p);
                if (a.x % 3 == 0)
                    q /= (T)0;
                else if (a.x % 3 == 1)
                    q = q / (T)0;
                else
                {
                    typename P::M3 m;
                    m = std::vector<T>(a.y % 9, (T)1);
                }
            }
            catch (const std::exception& e)
            {
                std::string w(e.what());
            }
            break;
        case 2: // files
        {
            vmml::Matrix<6, 6, T> m(sh.m6);
            m.write_to_raw(dir, "a");
            if (a.x & 1)
                m.write_to_raw(dir + "/", "a.raw");
            m.read_from_raw(dir, a.x & 2 ? "a" : "a.raw");
            if (a.x & 4)
                m.write_csv_file(dir, "b");
            break;
        }
        case 3: // files that are missing, short, long or cannot be created
        {
            vmml::Matrix<6, 6, T> m(sh.m6);
            if (a.x & 1)
                m.read_from_raw(dir, "none");
            if (a.x & 2)
                m.read_from_raw(dir + "/none", "x");
            if (a.x & 4)
                m.write_to_raw(dir + "/none", "x");
            if (a.x & 8)
                m.write_csv_file(dir + "/none", "x");
            const std::string p = dir + "/short.raw";
            writeFile<T>(p, a.y % (2 * 36 * sizeof(T)));
            m.read_from_raw(dir, "short");
            break;
        }
        case 4: // a filter
        {
            vmml::LowpassFilter<4, T> f(0.5f);
            vmml::LowpassFilter<3, typename P::V3> g(0.25f);
            for (size_t i = 0; i < a.x % 40; ++i)
            {
                f.add(sh.v6.array[i % 6]);
                g.add(i & 1 ? sh.a : sh.b);
            }
            vmml::LowpassFilter<4, T> h(f);
            h.add(sh.t);
            h = f;
            break;
        }
        case 5: // streams
        {
            std::ostringstream os;
            sh.m6.write_to_stream(os);
            os << sh.m4 << sh.v << sh.box;
            std::string text = os.str();
            text.resize(a.x % (text.size() + 1));
            std::istringstream is(text);
            vmml::Matrix<6, 6, T> m;
            m.read_from_stream(is);
            typename P::V4 v;
            v.read_from_stream(is);
            break;
        }
        default: // sums
        {
            vmml::Matrix<3, 5, T> m;
            m.set_random((int)(a.x % 1000));
            vmml::Matrix<1, 5, T> r;
            vmml::Matrix<3, 2, T> c;
            m.sum_rows(r);
            m.sum_columns(c);
            vmml::Vector<7, T> v;
            v.set_random((int)(a.y % 1000));
            v.perturb((T)0.5);
        }
        }
    }
};
}

template <class T>
void released(Src& s)
{
    typename Prog<T>::Shared sh;
    Prog<T>::fillAll(s, sh);
    std::vector<Action> todo;
    const size_t n = 1 + s.draw(8);
    for (size_t i = 0; i < n; ++i)
    {
        Action a;
        a.kind = s.draw(7);
        a.x = s.draw(10000);
        a.y = s.draw(10000);
        if (a.kind < 6)
            s.label((unsigned)a.kind);
        if (s.verbose)
        {
            s.show("action", (long long)a.kind);
            s.show("x", (long long)a.x);
            s.show("y", (long long)a.y);
        }
        todo.push_back(a);
    }
    bool other = false;
    for (size_t i = 0; i < n; ++i)
        other = other || todo[i].kind != 0;
    const long long files = openFiles();
    long long before = 0;
    {
        Quiet quiet;
        // what is set up once (streams, locales, caches) is not left behind
        const int reps = 5;
        for (int r = 0; r < 2 + reps; ++r)
        {
            if (r == 2)
                before = heap();
            for (size_t i = 0; i < n; ++i)
                Run<T>::act(todo[i], sh);
            // what the operations print is not theirs
            if (!quiet.sink.str().empty())
            {
                quiet.sink.str(std::string());
                std::ostringstream().swap(quiet.sink);
                std::cout.rdbuf(quiet.sink.rdbuf());
                std::cerr.rdbuf(quiet.sink.rdbuf());
            }
            else if (r < 2)
                std::cout.flush();
        }
        const long long growth = heap() - before;
        // something left behind each time, not a buffer that grew once
        if (growth >= reps)
            s.fail("memory is left behind: " + std::to_string(growth) +
                   " allocations after 5 repetitions");
    }
    scratch().clear();
    s.expect(openFiles() == files, "no file is left open");
    s.nontrivial(other);
}

#if !defined(PBT_FUZZ) && !defined(R01_ASAN)
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++live;
    return p;
}
void* operator new[](size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++live;
    return p;
}
void operator delete(void* p) noexcept
{
    if (p)
        --live;
    free(p);
}
void operator delete[](void* p) noexcept
{
    if (p)
        --live;
    free(p);
}
void operator delete(void* p, size_t) noexcept
{
    if (p)
        --live;
    free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    if (p)
        --live;
    free(p);
}
#endif

#if PBT_PART == 0
PBT_REG("released_double", released<double>, 2);
PBT_REG("released_float", released<float>, 2);
#endif
