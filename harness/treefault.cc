// Parses a schema and generates code as a library, with each allocation failing in turn. Prints what goes wrong and exits with 1, or exits with 0
// (the number of failure points goes to the standard error).
#include <protogen/protogen.hh>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>

static long left = -1, live = 0;
static bool persist = false, hit = false;

static void *allocate(size_t n)
{
    if (left > 0) --left;
    else if (left == 0 && (!hit || persist)) { hit = true; return nullptr; }
    void *p = malloc(n ? n : 1);
    if (p) ++live;
    return p;
}
static void release(void *p) { if (p) { --live; free(p); } }

void *operator new(size_t n) { void *p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p); }

struct Result
{
    bool failed;            // a protogen exception
    int line, column;
    std::string message, code;
    bool operator==(const Result &o) const { return failed == o.failed && line == o.line && column == o.column && message == o.message && code == o.code; }
};

static void plain(const std::string &text, const std::string &name, Result &r)
{
    r.failed = false;
    r.line = r.column = 0;
    std::istringstream in(text);
    std::ostringstream out;
    protogen::Proto3 proto;
    try
    {
        proto.parse(in, name);
        protogen::CppGenerator gen;
        gen.generate(proto, out);
        r.code = out.str();
    }
    catch (protogen::exception &e)
    {
        r.failed = true;
        r.line = e.line;
        r.column = e.column;
        r.message = e.cause();
    }
}

static const char *once(const std::string &text, const std::string &name, unsigned flags, long k, bool strict, const Result &want, bool &failed)
{
    const char *why = nullptr;
    long live0 = live;
    {
        std::istringstream in(text);
        if (flags & 1) in >> std::noskipws;
        if (flags & 2) in >> std::hex;
        std::ios_base::fmtflags before = in.flags();
        std::ostringstream out;
        bool thrown = false, refused = false, done = false;
        left = k;
        hit = false;
        try
        {
            protogen::Proto3 proto;
            proto.parse(in, name);
            protogen::CppGenerator gen;
            gen.generate(proto, out);
            done = true;
        }
        catch (std::bad_alloc &) { thrown = true; }
        catch (protogen::exception &) { refused = true; }
        catch (...) { thrown = true; why = "another exception gets out"; }
        left = -1;
        failed = hit;
        if (why) ;
        else if (in.flags() != before) why = "the flags of the stream are not restored";
        else if (thrown && !failed) why = "an exception without a failure";
        else if (done && want.failed) why = "a wrong schema is accepted";
        else if (refused && !want.failed) why = "a good schema is refused as if it were wrong";
        else if (done && out.good() && out.str() != want.code) why = "incomplete or wrong code without a sign of it";
    }
    if (!why && strict && live != live0) why = live > live0 ? "memory is not released" : "memory is released twice";
    return why;
}

int main()
{
    std::string in((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>());
    size_t at = 0;
    auto u32 = [&]() { uint32_t v; memcpy(&v, in.data() + at, 4); at += 4; return v; };
    auto blob = [&]() { uint32_t n = u32(); std::string s = in.substr(at, n); at += n; return s; };
    persist = u32() != 0;
    unsigned flags = u32();
    long limit = (long) u32();
    std::string text = blob(), name = blob();
    Result want, again;
    long points = 0;
    if (flags & 4)
    {
        // even what is prepared at the first use may fail
        for (long k = 0; k < limit; ++k)
        {
            hit = false;
            Result r;
            left = k;
            try { plain(text, name, r); } catch (std::bad_alloc &) {}
            left = -1;
            if (!hit) break;
        }
    }
    plain(text, name, want);
    for (int pass = 0; pass < 2; ++pass)
        for (long k = 0; k < limit; ++k)
        {
            bool failed = false;
            const char *why = once(text, name, flags, k, pass > 0, want, failed);
            if (why) { printf("%s (failure point %ld)", why, k); return 1; }
            if (!failed) break;
            ++points;
        }
    plain(text, name, again);
    if (!(again == want)) { printf("the library gives another result after failures"); return 1; }
    fprintf(stderr, "%ld", points);
    return 0;
}
