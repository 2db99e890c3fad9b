// S02: raw and text files of matrices.  All files live in a scratch directory.
#include <vmmlib/matrix.hpp>

#include "gen.hpp"

#include <fstream>
#include <iostream>
#include <new>

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace pbt;
#if PBT_PART == 0
const char* const pbt::LABELS[] = {"name without suffix", "directory with separator",
                                   "missing file", "short file", "long file",
                                   "overwrites a longer file", "text file", "relative directory",
                                   "suffix by hand", 0};
const char* const pbt::RULE =
    "Random matrices written to and read from files of a scratch directory: names "
    "with and without suffix, directory with and without separator, missing, "
    "truncated, over-long and overwritten files, with heap accounting; "
    "non-trivial = a matrix with at least two different elements is read back.";
#endif

namespace
{
long long live; // allocations minus deallocations

struct Scratch
{
    std::string dir;
    pid_t owner;
    Scratch()
    {
        const char* b = getenv("PBT_SCRATCH");
        std::string t = std::string(b ? b : "/tmp") + "/pbt-s02-XXXXXX";
        std::vector<char> v(t.begin(), t.end());
        v.push_back(0);
        if (!mkdtemp(v.data()))
        {
            perror("mkdtemp");
            exit(2);
        }
        dir = v.data();
        owner = getpid();
        mkdir((dir + "/sub").c_str(), 0755);
    }
    void clear(const std::string& d)
    {
        DIR* p = opendir(d.c_str());
        if (!p)
            return;
        while (dirent* e = readdir(p))
        {
            const std::string n = e->d_name;
            if (n != "." && n != ".." && n != "sub")
                unlink((d + "/" + n).c_str());
        }
        closedir(p);
    }
    ~Scratch()
    {
        clear(dir + "/sub");
        clear(dir);
        rmdir((dir + "/sub").c_str());
        rmdir(dir.c_str());
    }
};

// one directory per process (replayed cases run in child processes that end
// with _exit and share their parent's)
Scratch& scratch()
{
    static Scratch s;
    return s;
}

struct Quiet
{
    std::streambuf* old;
    struct Null : std::streambuf
    {
        int overflow(int c) { return c == EOF ? 0 : c; }
    } sink;
    Quiet() { old = std::cout.rdbuf(&sink); }
    ~Quiet() { std::cout.rdbuf(old); }
};

static bool slurp(const std::string& p, std::string& out)
{
    FILE* f = fopen(p.c_str(), "rb");
    if (!f)
        return false;
    char b[4096];
    size_t n;
    out.clear();
    while ((n = fread(b, 1, sizeof(b), f)) > 0)
        out.append(b, n);
    fclose(f);
    return true;
}
static void spill(const std::string& p, const std::string& c)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f)
        return;
    fwrite(c.data(), 1, c.size(), f);
    fclose(f);
}

template <class T>
void anyBits(Src& s, T* p, size_t n)
{
    Gen<T> g(s, std::is_floating_point<T>::value ? 24 : FULL, 1);
    for (size_t i = 0; i < n; ++i)
        p[i] = s.chance(1, 8) ? (s.coin() ? std::numeric_limits<T>::max()
                                          : std::numeric_limits<T>::lowest())
                              : g();
}

// choice of directory spelling and file name; path = where the file is
static void place(Src& s, std::string& dir, std::string& name, std::string& path,
           const char* suffix)
{
    // names that contain the suffix, or part of it, are names like any other
    static const char* const N[] = {"a",     "m1",    "core",   "matrix", "csvdata",
                                    "rawdata", "my.csv.x", "x.raw.y", "csv1", "raw2",
                                    "a.b",     "draw-1", "sv0",    "aw_",    "matrix.csv0"};
    const bool sub = s.chance(1, 4);
    const std::string full = scratch().dir + (sub ? "/sub" : "");
    dir = full;
    name = N[s.draw(15)];
    path = full + "/" + name + "." + suffix;
    // the same place relative to the working directory
    const int rel = (int)s.draw(6);
    if (rel == 4)
        dir = sub ? "sub" : ".";
    else if (rel == 5)
        dir = sub ? "./sub" : "";
    if (rel >= 4)
        s.label(7);
    if (s.coin())
    {
        name += std::string(".") + suffix;
        s.label(8);
    }
    else
        s.label(0);
    if (s.coin() && !dir.empty())
    {
        dir += "/";
        s.label(1);
    }
    s.show("dir", dir);
    s.show("name", name);
}

// the scratch directory as the working directory of a case
struct Cwd
{
    int fd;
    Cwd()
        : fd(open(".", O_RDONLY | O_DIRECTORY))
    {
        if (chdir(scratch().dir.c_str()))
            exit(2);
    }
    ~Cwd()
    {
        if (fd >= 0)
        {
            if (fchdir(fd))
                exit(2);
            close(fd);
        }
    }
};
}

template <size_t M, size_t N, class T>
void raw(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    const size_t bytes = M * N * sizeof(T);
    Scratch& sc = scratch();
    sc.clear(sc.dir);
    sc.clear(sc.dir + "/sub");
    Quiet quiet;
    Cwd cwd;
    std::string dir, name, path;
    place(s, dir, name, path, "raw");
    if (s.chance(1, 4))
    {
        spill(path, std::string(bytes + 40, 'z'));
        s.label(5);
    }
    Mat m;
    anyBits(s, m.array, M * N);
    s.show("m", m.array, M * N);
    const Mat c(m);
    c.write_to_raw(dir, name);
    std::string content;
    s.expect(slurp(path, content), "the file exists");
    s.same(content.size(), bytes, "size of the file");
    s.expect(memcmp(content.data(), m.array, bytes) == 0, "content of the file");
    // read with either spelling
    std::string rname = name;
    if (s.chance(1, 3))
    {
        const bool has = name.size() > 4 && name.substr(name.size() - 4) == ".raw";
        rname = has ? name.substr(0, name.size() - 4) : name + ".raw";
        s.show("read as", rname);
    }
    size_t have = bytes;
    const int damage = (int)s.draw(5);
    if (damage == 3)
    {
        have = s.draw(bytes);
        spill(path, content.substr(0, have));
        s.show("bytes left", (int)have);
        s.label(3);
    }
    else if (damage == 4)
    {
        spill(path, content + std::string(1 + s.draw(40), 'q'));
        s.label(4);
    }
    Mat r;
    garbage(r.array, M * N);
    const Mat before(r);
    const long long l0 = live;
    r.read_from_raw(dir, rname);
    const long long l1 = live;
    s.same(l1, l0, "memory held after reading");
    for (size_t i = 0; i < M * N; ++i)
    {
        if ((i + 1) * sizeof(T) <= have)
            s.expect(sameBits(r.array[i], m.array[i]), "element read back");
        else
            s.expect(sameBits(r.array[i], before.array[i]) || r.array[i] == 0,
                     "elements missing in a short file keep their value or are zero");
    }
    bool varied = false;
    for (size_t i = 1; i < M * N; ++i)
        varied = varied || m.array[i] != m.array[0];
    s.nontrivial(varied && have == bytes);
}

// a file that is not there: nothing changes, nothing leaks, no exception
template <size_t M, size_t N, class T>
void missing(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Scratch& sc = scratch();
    sc.clear(sc.dir);
    sc.clear(sc.dir + "/sub");
    Quiet quiet;
    Cwd cwd;
    std::string dir, name, path;
    place(s, dir, name, path, "raw");
    if (s.coin())
        dir = sc.dir + "/nodir";
    Mat m;
    anyBits(s, m.array, M * N);
    const Mat c(m);
    const long long l0 = live;
    m.read_from_raw(dir, name);
    const long long l1 = live;
    s.expect(l1 == l0, "no memory is held after a failed read");
    for (size_t i = 0; i < M * N; ++i)
        s.expect(sameBits(m.array[i], c.array[i]), "a failed read leaves the matrix alone");
    if (dir == sc.dir + "/nodir")
    {
        // neither can a file be written there
        m.write_to_raw(dir, name);
        m.write_csv_file(dir, name);
        s.expect(live == l0, "no memory is held after a failed write");
        for (size_t i = 0; i < M * N; ++i)
            s.expect(sameBits(m.array[i], c.array[i]), "a failed write leaves the matrix alone");
        std::string any;
        s.expect(!slurp(dir + "/" + name, any) && !slurp(dir + name, any),
                 "a failed write makes no file");
    }
    s.label(2);
    s.nontrivial();
}

template <size_t M, size_t N, class T>
void text(Src& s)
{
    typedef vmml::Matrix<M, N, T> Mat;
    Scratch& sc = scratch();
    sc.clear(sc.dir);
    sc.clear(sc.dir + "/sub");
    Quiet quiet;
    Cwd cwd;
    std::string dir, name, path;
    place(s, dir, name, path, "csv");
    if (s.chance(1, 3))
    {
        // a file that is there already is replaced
        spill(path, std::string(1 + s.draw(2000), 'z'));
        s.label(5);
    }
    Mat m;
    Gen<T> g(s, 16);
    fill(g, m.array, M * N);
    s.show("m", m.array, M * N);
    const Mat c(m);
    c.write_csv_file(dir, name);
    std::string content;
    s.expect(slurp(path, content), "the file exists");
    std::istringstream a(content);
    std::ostringstream os;
    os << m;
    std::istringstream b(os.str());
    std::string x, y;
    while (b >> y)
    {
        a >> x;
        s.expect(x == y, "the text file contains the printed matrix");
    }
    x = "";
    a >> x;
    s.expect(x.empty() || !a, "nothing else is in the text file");
    s.label(6);
    s.nontrivial();
}

#ifndef PBT_FUZZ
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++live;
    return p;
}
void* operator new[](size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++live;
    return p;
}
void operator delete(void* p) noexcept
{
    if (p)
        --live;
    free(p);
}
void operator delete[](void* p) noexcept
{
    if (p)
        --live;
    free(p);
}
void operator delete(void* p, size_t) noexcept
{
    if (p)
        --live;
    free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    if (p)
        --live;
    free(p);
}
#endif

typedef unsigned char ub;
#if PBT_PART == 0
PBT_REG("raw_33_f", (raw<3, 3, float>), 4);
PBT_REG("raw_42_d", (raw<4, 2, double>), 4);
PBT_REG("raw_25_ub", (raw<2, 5, ub>), 4);
PBT_REG("raw_73_i", (raw<7, 3, int>), 4);
PBT_REG("raw_20x30_f", (raw<20, 30, float>), 1);
PBT_REG("missing_33_f", (missing<3, 3, float>), 2);
PBT_REG("missing_42_d", (missing<4, 2, double>), 2);
PBT_REG("text_33_f", (text<3, 3, float>), 2);
PBT_REG("text_24_d", (text<2, 4, double>), 2);
PBT_REG("text_32_ub", (text<3, 2, ub>), 2);
PBT_REG("raw_1_1_double", (raw<1, 1, double>), 1);
PBT_REG("raw_4_4_float", (raw<4, 4, float>), 1);
PBT_REG("raw_1_17_float", (raw<1, 17, float>), 1);
PBT_REG("raw_17_1_double", (raw<17, 1, double>), 1);
PBT_REG("raw_8_8_int", (raw<8, 8, int>), 1);
PBT_REG("raw_5_5_ub", (raw<5, 5, ub>), 1);
PBT_REG("raw_64_3_double", (raw<64, 3, double>), 1);
PBT_REG("missing_1_1_float", (missing<1, 1, float>), 1);
PBT_REG("missing_4_4_double", (missing<4, 4, double>), 1);
PBT_REG("text_1_1_float", (text<1, 1, float>), 1);
PBT_REG("text_4_4_float", (text<4, 4, float>), 1);
PBT_REG("text_7_2_double", (text<7, 2, double>), 1);
PBT_REG("text_1_5_float", (text<1, 5, float>), 1);
PBT_REG("text_5_1_double", (text<5, 1, double>), 1);
#endif
