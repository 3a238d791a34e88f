// Fault injection: every allocation, or every call of a stream supplied by the user, fails in turn during one operation.
// Included by pgdrv.hh (the replaced operators count and fail).
#include <new>
#include <stdexcept>

namespace fault {

static long left = -1;          // points before the failing one, -1 when nothing fails
static bool persist = false;    // whether everything fails from then on
static bool calls = false;      // whether the points are calls of user streams instead of allocations
static bool hit = false;
static long live = 0;           // blocks in use

struct Interrupt { int code; };

static bool point(bool call)
{
    if (left < 0 || call != calls) return false;
    if (left > 0) { --left; return false; }
    if (hit && !persist) return false;
    hit = true;
    return true;
}
static void arm(long k, bool p, bool c) { hit = false; persist = p; calls = c; left = k; }
static bool disarm() { left = -1; return hit; }
static void user() { if (point(true)) { Interrupt e; e.code = 42; throw e; } }

static void *allocate(size_t n)
{
    if (point(false)) return nullptr;
    void *p = malloc(n ? n : 1);
    if (p) ++live;
    return p;
}
static void release(void *p) { if (p) { --live; free(p); } }

} // namespace fault

void *operator new(size_t n) { void *p = fault::allocate(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = fault::allocate(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fault::allocate(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fault::allocate(n); }
void operator delete(void *p) noexcept { fault::release(p); }
void operator delete[](void *p) noexcept { fault::release(p); }
void operator delete(void *p, size_t) noexcept { fault::release(p); }
void operator delete[](void *p, size_t) noexcept { fault::release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { fault::release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { fault::release(p); }

namespace drv {

#define USER_POINT() fault::user()
#include "userio.hh"

// Streams of the standard library over a buffer that may throw.
struct ThrowingBuf : std::streambuf
{
    const std::string &text;
    size_t at;
    char ch;
    ThrowingBuf(const std::string &text) : text(text), at(0), ch(0) {}
    int underflow()
    {
        fault::user();
        if (at >= text.size()) return traits_type::eof();
        ch = text[at++];
        setg(&ch, &ch, &ch + 1);
        return traits_type::to_int_type(ch);
    }
};
struct ThrowingSink : std::streambuf
{
    std::string &got;
    ThrowingSink(std::string &got) : got(got) {}
    int overflow(int c) { fault::user(); if (c != EOF) got += (char) c; return c == EOF ? 0 : c; }
};

// The containers of the array functions, with the interface of the messages.
template<class T, class C> struct ArrayObject
{
    C c;
    template<class S> bool serialize(S &out, PGNS::Parameters *pp) const { return PGNS::serialize_array(c, out, pp); }
    template<class S> bool deserialize(S &in, PGNS::Parameters *pp) { return PGNS::deserialize_array(c, in, pp); }
    bool deserialize(const char *p, size_t n, PGNS::Parameters *pp) { return PGNS::deserialize_array(c, p, n, pp); }
    // the array functions have no form for these
    bool serialize(std::ostream &out, PGNS::Parameters *pp) const { std::string s; bool ok = serialize(s, pp); out << s; return ok && out.good(); }
    bool deserialize(std::istream &in, PGNS::Parameters *pp) { std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); return deserialize(s, pp); }
    bool serialize(char *p, size_t n, PGNS::Parameters *pp) const { std::string s; bool ok = serialize(s, pp); memcpy(p, s.data(), std::min(n, s.size())); return ok && s.size() <= n; }
    void clear() { c.clear(); }
    bool empty() const { return c.empty(); }
    void swap(ArrayObject &o) { c.swap(o.c); }
    bool operator==(const ArrayObject &o) const { return c == o.c; }
};

template<class M> std::string image(M &m) { Wr w; Dump v(w); visit(v, m); return w.b; }
template<class T, class C> std::string image(ArrayObject<T, C> &a)
{
    Wr w;
    uint32_t n = 0;
    for (typename C::const_iterator it = a.c.begin(); it != a.c.end(); ++it) { ++n; Elem<T>::put(w, *it); }
    w.u32(n);
    return w.b;
}

enum Kind { SER_STRING, SER_VECTOR, SER_STREAM, SER_USER, SER_USER_THROWS, SER_STREAM_THROWS, SER_BUFFER, DES_STRING, DES_VECTOR, DES_STREAM, DES_POINTER, DES_USER,
    DES_USER_THROWS, DES_STREAM_THROWS, COPY_ASSIGN, COPY_CONSTRUCT, MOVE_ASSIGN, MOVE_CONSTRUCT, SWAP, CLEAR, COMPARE };

template<class M> struct Fault
{
    M &init, &source;
    std::string text, full, before, clean, cleanText;
    bool cleanOk, fullOk;
    int kind, pmode, pflags;
    bool persist;
    uint32_t threw, refused, carried;

    Fault(M &init, M &source) : init(init), source(source), threw(0), refused(0), carried(0) {}

    void settings(PGNS::Parameters &p) const { p.ensure_ascii = (pflags & 1) != 0; p.serialize_null = (pflags & 2) != 0; }

    // one execution whose point k fails; false: nothing failed
    const char *once(long k, bool strict, bool &failed)
    {
        const char *why = nullptr;
        long live0 = fault::live;
        locale_t loc0 = uselocale((locale_t) 0);
        {
            M target(init), other(source);
            const M &from = source;
            std::unique_ptr<M> made;
            PGNS::Parameters params, *pp = pmode ? &params : nullptr;
            settings(params);
            std::string out, in(text);
            std::vector<char> vout, vin(text.begin(), text.end());
            std::ostringstream os;
            std::istringstream is(text);
            if (pflags & 4) is.unsetf(std::ios::skipws);
            if (pflags & 8) { is >> std::hex; os << std::hex << std::showbase << std::uppercase << std::showpos; }
            std::ios_base::fmtflags isf = is.flags(), osf = os.flags();
            std::string got;
            got.reserve(full.size() * 2 + 64);
            UserOut uo(got);
            UserIn ui(in);
            ThrowingBuf tb(in);
            std::istream ts(&tb);
            if (pflags & 4) ts.unsetf(std::ios::skipws);
            // with this flag the exception of the buffer gets out
            if (pflags & 16) ts.exceptions(std::ios::badbit);
            std::ios_base::fmtflags tsf = ts.flags();
            ThrowingSink tk(got);
            std::ostream to(&tk);
            if (pflags & 16) to.exceptions(std::ios::badbit);
            std::vector<char> fixed(full.size());
            bool ok = false, other_exception = false, thrown = false;
            bool byCall = kind == SER_USER_THROWS || kind == DES_USER_THROWS || kind == DES_STREAM_THROWS || kind == SER_STREAM_THROWS;

            fault::arm(k, persist, byCall);
            try
            {
                switch (kind)
                {
                    case SER_STRING: ok = from.serialize(out, pp); break;
                    case SER_VECTOR: ok = from.serialize(vout, pp); break;
                    case SER_STREAM: ok = from.serialize((std::ostream&) os, pp); break;
                    case SER_USER: case SER_USER_THROWS: ok = from.serialize((PGNS::ostream&) uo, pp); break;
                    case SER_STREAM_THROWS: ok = from.serialize(to, pp); break;
                    case SER_BUFFER: ok = source.serialize(fixed.data(), fixed.size(), pp); break;
                    case DES_STRING: ok = target.deserialize((const std::string&) in, pp); break;
                    case DES_VECTOR: ok = target.deserialize((const std::vector<char>&) vin, pp); break;
                    case DES_STREAM: ok = target.deserialize((std::istream&) is, pp); break;
                    case DES_POINTER: ok = target.deserialize(in.data(), in.size(), pp); break;
                    case DES_USER: case DES_USER_THROWS: ok = target.deserialize((PGNS::istream&) ui, pp); break;
                    case DES_STREAM_THROWS: ok = target.deserialize(ts, pp); break;
                    case COPY_ASSIGN: target = from; ok = true; break;
                    case COPY_CONSTRUCT: made.reset(new M(from)); ok = true; break;
                    case MOVE_ASSIGN: target = std::move(other); ok = true; break;
                    case MOVE_CONSTRUCT: made.reset(new M(std::move(other))); ok = true; break;
                    case SWAP: target.swap(other); ok = true; break;
                    case CLEAR: target.clear(); ok = true; break;
                    default: ok = target == from && !target.empty(); break;
                }
            }
            catch (std::bad_alloc &) { thrown = true; if (byCall) other_exception = true; }
            catch (fault::Interrupt &e) { thrown = true; if (!byCall || e.code != 42) other_exception = true; }
            catch (...) { thrown = other_exception = true; }
            failed = fault::disarm();

            if (uselocale((locale_t) 0) != loc0) { uselocale(loc0); why = "the locale of the thread is not restored"; }
            else if (is.flags() != isf || ts.flags() != tsf) why = "the flags of the input stream are not restored";
            else if (os.flags() != osf) why = "the flags of the output stream are not restored";
            else if (other_exception) why = "another exception gets out";
            else if (thrown && !failed) why = "an exception without a failure";
            else if (image(source) != before) why = "the source of the operation changes";
            else if (in != text || std::string(vin.begin(), vin.end()) != text) why = "the text changes";
            else if (params.ensure_ascii != ((pflags & 1) != 0) || params.serialize_null != ((pflags & 2) != 0)) why = "the settings of the parameters change";
            else if (thrown) ++threw;
            else if (kind < DES_STRING && ok)
            {
                if (failed) ++carried;
                if (!fullOk) why = "success is reported for an object that can not be serialised";
                else if ((kind == SER_STRING && out != full) || (kind == SER_VECTOR && std::string(vout.begin(), vout.end()) != full) || (kind == SER_STREAM && os.str() != full) ||
                    ((kind == SER_USER || kind == SER_USER_THROWS || kind == SER_STREAM_THROWS) && got != full) || (kind == SER_BUFFER && std::string(fixed.begin(), fixed.end()) != full))
                    why = "success is reported for an incomplete or wrong text";
            }
            else if (kind < COPY_ASSIGN && kind >= DES_STRING && ok)
            {
                if (failed) ++carried;
                if (!cleanOk) why = "success is reported for a text that is not accepted";
                else if (image(target) != clean) why = "success is reported but the object is incomplete or wrong";
            }
            else if (kind < COPY_ASSIGN)
            {
                if (failed) ++refused;
                else if (kind < DES_STRING ? fullOk : cleanOk) why = "a failure is reported without any";
            }
            else if ((kind == COPY_ASSIGN || kind == MOVE_ASSIGN || kind == SWAP) && image(target) != before) why = "the target is not equal to the source";
            else if ((kind == COPY_CONSTRUCT || kind == MOVE_CONSTRUCT) && image(*made) != before) why = "the new object is not equal to the source";

            // everything is still usable
            if (!why)
            {
                std::string what = image(target);
                what = image(other);
                target.clear();
                other.clear();
                if (!target.empty() || !other.empty()) why = "an object is not empty after clear";
                else
                {
                    bool again = target.deserialize((const std::string&) text, pp);
                    other = from;
                    std::string s;
                    bool back = other.serialize(s, pp);
                    if (again != cleanOk || (again && image(target) != cleanText)) why = "the object is not usable after the failure";
                    else if (image(other) != before || back != fullOk || (back && s != full)) why = "an object can not be assigned after the failure";
                    else if (pp && back && (params.error.code != PGNS::PGERR_OK || !params.error.message.empty())) why = "an error remains in the parameters";
                }
            }
        }
        if (!why && strict && fault::live != live0) why = fault::live > live0 ? "memory is not released" : "memory is released twice";
        return why;
    }

    void run(Rd &r, Wr &w, State &)
    {
        kind = r.u8();
        persist = r.u8() != 0;
        pmode = r.u8();
        pflags = r.u8();
        uint32_t limit = r.u32();
        text = r.blob();
        const char *why = nullptr;
        uint32_t at = 0;
        long where = -1;
        bool first = (pflags & 32) != 0;
        if (first)
        {
            // even what is prepared at the first use may fail (the expected results are not known yet: only effects count)
            for (long k = 0; k < (long) limit && !why; ++k)
            {
                std::string out;
                locale_t loc0 = uselocale((locale_t) 0);
                bool over = true;
                {
                    M target(init);
                    fault::arm(k, persist, false);
                    try { if (kind < DES_STRING) ((const M&) source).serialize(out, nullptr); else target.deserialize((const std::string&) text, nullptr); }
                    catch (std::bad_alloc &) { over = false; }
                    catch (...) { why = "another exception gets out"; }
                    if (!fault::disarm()) over = true; else over = false;
                }
                if (uselocale((locale_t) 0) != loc0) { uselocale(loc0); why = "the locale of the thread is not restored"; }
                if (why) where = k;
                if (over) break;
            }
        }
        PGNS::Parameters p, *pp = pmode ? &p : nullptr;
        settings(p);
        before = image(source);
        fullOk = ((const M&) source).serialize(full, pp);
        {
            M t(init);
            settings(p);
            cleanOk = t.deserialize((const std::string&) text, pp);
            clean = image(t);
            M u;
            u.deserialize((const std::string&) text, pp);
            cleanText = image(u);
        }
        // the first pass prepares whatever is prepared once, the second one must release everything
        for (int pass = 0; pass < 2 && !why; ++pass)
            for (at = 0; at < limit && !why; ++at)
            {
                bool failed = false;
                why = once((long) at, pass > 0, failed);
                if (why) where = at;
                if (!failed) break;
            }
        w.u32(at);
        w.u32(threw);
        w.u32(refused);
        w.u32(carried);
        w.u32((uint32_t) where);
        w.blob(why ? why : "");
    }
};

} // namespace drv
