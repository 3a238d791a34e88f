// Driver runtime: executes operation sequences on the message classes of one generated header.
// Included after the generated header. PGNS is the protogen namespace.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <locale.h>
#include <deque>
#include <functional>
#include <list>
#include <locale>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <type_traits>
#ifdef PG_THREADS
#include <atomic>
#include <thread>
#endif

namespace drv {

struct Rd
{
    const unsigned char *p, *e;
    void need(size_t n) { if ((size_t) (e - p) < n) { fprintf(stderr, "driver: short request\n"); _Exit(99); } }
    uint8_t u8() { need(1); return *p++; }
    uint32_t u32() { need(4); uint32_t v; memcpy(&v, p, 4); p += 4; return v; }
    int32_t i32() { return (int32_t) u32(); }
    uint64_t u64() { need(8); uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
    double f64() { need(8); double v; memcpy(&v, p, 8); p += 8; return v; }
    std::string blob() { uint32_t n = u32(); need(n); std::string s((const char*) p, n); p += n; return s; }
};

struct Wr
{
    std::string b;
    void u8(uint8_t v) { b += (char) v; }
    void u32(uint32_t v) { b.append((const char*) &v, 4); }
    void u64(uint64_t v) { b.append((const char*) &v, 8); }
    void f64(double v) { b.append((const char*) &v, 8); }
    void blob(const char *p, size_t n) { u32((uint32_t) n); b.append(p, n); }
    void blob(const std::string &s) { blob(s.data(), s.size()); }
};

template<class T> typename std::enable_if<std::is_floating_point<T>::value>::type put(Wr &w, T v) { w.f64((double) v); }
template<class T> typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value>::type put(Wr &w, T v) { w.u64((uint64_t) (int64_t) v); }
template<class T> typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value>::type put(Wr &w, T v) { w.u64((uint64_t) v); }
template<class T> typename std::enable_if<std::is_floating_point<T>::value, T>::type get(Rd &r) { return (T) r.f64(); }
template<class T> typename std::enable_if<std::is_integral<T>::value, T>::type get(Rd &r) { return (T) r.u64(); }

typedef std::vector<uint8_t> bytes_t;
inline bytes_t get_bytes(Rd &r) { std::string s = r.blob(); return bytes_t(s.begin(), s.end()); }
inline void put_bytes(Wr &w, const bytes_t &b) { w.blob(b.empty() ? "" : (const char*) &b[0], b.size()); }

// ---- visitors (visit() is generated; kinds: num, str, byt, msg and their repeated forms)

struct Dump
{
    Wr &w;
    Dump(Wr &w) : w(w) {}
    template<class F> void num(F &f)
    {
        if (f.empty()) { w.u8(0); return; }
        w.u8(1); put<typename F::value_type>(w, (typename F::value_type) f);
    }
    template<class F> void str(F &f)
    {
        const F &c = f;
        if (c.empty()) { w.u8(0); return; }
        w.u8(1); w.blob(*c);
    }
    void byt(bytes_t &f) { put_bytes(w, f); }
    template<class M> void msg(M &m) { visit(*this, m); }
    template<class C> void rnum(C &c)
    {
        w.u32((uint32_t) c.size());
        for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) put<typename C::value_type>(w, *it);
    }
    template<class C> void rstr(C &c) { w.u32((uint32_t) c.size()); for (auto it = c.begin(); it != c.end(); ++it) str(*it); }
    template<class C> void rbyt(C &c) { w.u32((uint32_t) c.size()); for (auto it = c.begin(); it != c.end(); ++it) byt(*it); }
    template<class C> void rmsg(C &c) { w.u32((uint32_t) c.size()); for (auto it = c.begin(); it != c.end(); ++it) msg(*it); }
};

// Assigns decoded values. The style selects one of the equivalent ways of writing a field.
struct Set
{
    Rd &r;
    int style;
    Set(Rd &r, int style) : r(r), style(style) {}
    template<class F> void num(F &f)
    {
        typedef typename F::value_type T;
        if (!r.u8()) { absent(f); return; }
        T v = get<T>(r);
        switch (style % 4)
        {
            case 1: { F t; t = v; f = t; break; }
            case 2: { T t = v; f.swap(t); break; }
            case 3: { F t; t = v; F u(t); f.swap(u); break; }
            default: f = v;
        }
    }
    template<class F> void absent(F &f)
    {
        switch (style % 3)
        {
            case 1: { F t; f = t; break; }
            case 2: { F t; f.swap(t); break; }
            default: f.clear();
        }
    }
    template<class F> void str(F &f)
    {
        if (!r.u8())
        {
            if (style % 4 == 3) f.empty(true); else absent(f);
            return;
        }
        std::string v = r.blob();
        switch (style % 11)
        {
            case 8: if (v.find('\0') == std::string::npos) { F t(v.c_str()); f = t; } else f = v; break;
            case 9: f.empty(false); *f = v; break;
            case 10: f.empty(true); f.empty(false); { std::string &ref = f; ref += v; } break;
            case 1: { F t(v); f = t; break; }
            case 2: if (v.empty()) f = v; else *f = v; break;
            case 3: if (v.empty()) f = v; else { std::string &ref = f; ref = v; } break;
            case 4: { std::string t = v; f.swap(t); break; }
            case 5: if (v.find('\0') == std::string::npos) f = v.c_str(); else f = v; break;
            case 6: if (v.empty()) f = v; else { (*f).clear(); for (auto c : v) (*f) += c; } break;
            case 7: { F t; *t = v; if (v.empty()) t = v; f = t; break; }
            default: f = v;
        }
    }
    void byt(bytes_t &f) { f = get_bytes(r); }
    template<class M> void msg(M &m) { visit(*this, m); }
    template<class C> void rnum(C &c) { c.clear(); for (uint32_t n = r.u32(); n > 0; --n) c.push_back(get<typename C::value_type>(r)); }
    template<class C> void rstr(C &c)
    {
        c.clear();
        for (uint32_t n = r.u32(); n > 0; --n)
        {
            if (style % 5 == 4 && r.p < r.e && *r.p != 0)
            {
                // from texts
                r.u8();
                std::string v = r.blob();
                if (v.find('\0') != std::string::npos) c.push_back(v);
                else if (n % 2) c.push_back(v.c_str());
                else c.emplace_back(v.c_str());
                continue;
            }
            c.push_back(typename C::value_type());
            str(c.back());
        }
    }
    template<class C> void rbyt(C &c) { c.clear(); for (uint32_t n = r.u32(); n > 0; --n) c.push_back(get_bytes(r)); }
    template<class C> void rmsg(C &c) { c.clear(); for (uint32_t n = r.u32(); n > 0; --n) { c.push_back(typename C::value_type()); msg(c.back()); } }
};

// Forwards one field (by position) to another visitor.
template<class V> struct At
{
    V &v;
    uint32_t idx, pos;
    At(V &v, uint32_t idx) : v(v), idx(idx), pos(0) {}
    template<class F> void num(F &f) { if (pos++ == idx) v.num(f); }
    template<class F> void str(F &f) { if (pos++ == idx) v.str(f); }
    template<class F> void byt(F &f) { if (pos++ == idx) v.byt(f); }
    template<class F> void msg(F &f) { if (pos++ == idx) v.msg(f); }
    template<class F> void rnum(F &f) { if (pos++ == idx) v.rnum(f); }
    template<class F> void rstr(F &f) { if (pos++ == idx) v.rstr(f); }
    template<class F> void rbyt(F &f) { if (pos++ == idx) v.rbyt(f); }
    template<class F> void rmsg(F &f) { if (pos++ == idx) v.rmsg(f); }
};

struct Clear
{
    template<class F> void any(F &f) { f.clear(); }
    template<class F> void num(F &f) { any(f); }
    template<class F> void str(F &f) { any(f); }
    template<class F> void byt(F &f) { any(f); }
    template<class F> void msg(F &f) { any(f); }
    template<class F> void rnum(F &f) { any(f); }
    template<class F> void rstr(F &f) { any(f); }
    template<class F> void rbyt(F &f) { any(f); }
    template<class F> void rmsg(F &f) { any(f); }
};

// empty() of a field
struct IsEmpty
{
    bool result;
    template<class F> void any(F &f) { const F &c = f; result = c.empty(); }
    template<class F> void num(F &f) { any(f); }
    template<class F> void str(F &f) { any(f); }
    template<class F> void byt(F &f) { any(f); }
    template<class F> void msg(F &f) { any(f); }
    template<class F> void rnum(F &f) { any(f); }
    template<class F> void rstr(F &f) { any(f); }
    template<class F> void rbyt(F &f) { any(f); }
    template<class F> void rmsg(F &f) { any(f); }
};

// Collects the address of a field; used to compare or copy the same field of two objects.
struct Addr
{
    void *p;
    template<class F> void num(F &f) { p = &f; }
    template<class F> void str(F &f) { p = &f; }
    template<class F> void byt(F &f) { p = &f; }
    template<class F> void msg(F &f) { p = &f; }
    template<class F> void rnum(F &f) { p = &f; }
    template<class F> void rstr(F &f) { p = &f; }
    template<class F> void rbyt(F &f) { p = &f; }
    template<class F> void rmsg(F &f) { p = &f; }
};
struct CmpWith
{
    void *other;
    bool eq, ne;
    template<class F> void any(F &f) { F &o = *(F*) other; eq = f == o; ne = f != o; }
    template<class F> void num(F &f) { any(f); }
    template<class F> void str(F &f) { any(f); }
    template<class F> void byt(F &f) { any(f); }
    template<class F> void msg(F &f) { any(f); }
    template<class F> void rnum(F &f) { any(f); }
    template<class F> void rstr(F &f) { any(f); }
    template<class F> void rbyt(F &f) { any(f); }
    template<class F> void rmsg(F &f) { any(f); }
};
// == and != of a field and a plain value
struct CmpValue
{
    Rd &r;
    int n;
    uint8_t res[4];
    CmpValue(Rd &r) : r(r), n(0) {}
    template<class F> void num(F &f)
    {
        typename F::value_type v = get<typename F::value_type>(r);
        const F &c = f;
        res[n++] = c == v; res[n++] = c != v;
    }
    template<class F> void str(F &f)
    {
        std::string v = r.blob();
        const F &c = f;
        res[n++] = c == v; res[n++] = c != v;
        if (v.find('\0') == std::string::npos) { res[n++] = c == v.c_str(); res[n++] = c != v.c_str(); }
    }
    template<class F> void byt(F &) {}
    template<class F> void msg(F &) {}
    template<class F> void rnum(F &) {}
    template<class F> void rstr(F &) {}
    template<class F> void rbyt(F &) {}
    template<class F> void rmsg(F &) {}
};
struct CopyFrom
{
    void *other;
    int how;
    // wrapper classes have their own swap
    template<class F> void wrapper(F &f)
    {
        F &o = *(F*) other;
        if (how == 0) f = o;
        else if (how == 1) { F t(o); f = t; }
        else f.swap(o);
    }
    template<class F> void plain(F &f)
    {
        F &o = *(F*) other;
        if (how == 0) f = o;
        else if (how == 1) { F t(o); f = t; }
        else std::swap(f, o);
    }
    template<class F> void num(F &f) { wrapper(f); }
    template<class F> void str(F &f) { wrapper(f); }
    template<class F> void byt(F &f) { plain(f); }
    template<class F> void msg(F &f) { wrapper(f); }
    template<class F> void rnum(F &f) { plain(f); }
    template<class F> void rstr(F &f) { plain(f); }
    template<class F> void rbyt(F &f) { plain(f); }
    template<class F> void rmsg(F &f) { plain(f); }
};

// ---- operations

struct State
{
    PGNS::Parameters params;
    std::locale *stream_locale;
    State() : stream_locale(nullptr) {}
};

// The error information behaves as a plain value; returns what is wrong with it.
inline const char *odd_error(const PGNS::ErrorInfo &e)
{
    typedef PGNS::ErrorInfo E;
    if ((bool) e != (e.code == PGNS::PGERR_OK)) return "conversion to bool";
    if (!(e == e.code) || e == (e.code == PGNS::PGERR_OK ? PGNS::PGERR_INVALID_NAME : PGNS::PGERR_OK)) return "comparison with a code";
    E a(e), b, c(e.code, e.message, e.line, e.column), d;
    b = e;
    if (a.message != e.message || b.message != e.message || c.message != e.message) return "copy of the message";
    if (!(a == e) || !(b == e) || !(c == e)) return "copy";
    a.line = e.line + 1;
    b.column = e.column + 1;
    c.code = e.code == PGNS::PGERR_OK ? PGNS::PGERR_INVALID_NAME : PGNS::PGERR_OK;
    if (a == e || b == e || c == e) return "comparison";
    a.clear();
    if (a.code != PGNS::PGERR_OK || !a.message.empty() || a.line || a.column || !(a == d)) return "clear";
    E f(std::move(b));
    if (f.code != e.code || f.line != e.line || f.column != e.column + 1 || f.message != e.message) return "move";
    alignas(E) unsigned char room[sizeof(E)];
    memset(room, 0xA5, sizeof(room));
    E *g = new (room) E(e.code, e.message);
    bool ok = g->code == e.code && g->message == e.message && g->line == 0 && g->column == 0;
    g->~E();
    return ok ? nullptr : "constructor without a position";
}

inline void put_error(Wr &w, State &st)
{
    if (const char *what = odd_error(st.params.error))
    {
        fprintf(stderr, "ERROR: the error information is not a plain value: %s\n", what);
        fflush(stderr);
        abort();
    }
    w.u32((uint32_t) (int) st.params.error.code);
    w.u32((uint32_t) st.params.error.line);
    w.u32((uint32_t) st.params.error.column);
    w.blob(st.params.error.message);
    w.u8((uint8_t) ((st.params.ensure_ascii ? 1 : 0) | (st.params.serialize_null ? 2 : 0)));
}

// parameter modes: 0 none; 1 shared object of the case; 2 shared object, after planting an old error in it
inline PGNS::Parameters *get_params(Rd &r, State &st, uint8_t &mode)
{
    mode = r.u8();
    uint8_t flags = r.u8();
    if (mode == 0) return nullptr;
    st.params.ensure_ascii = (flags & 1) != 0;
    st.params.serialize_null = (flags & 2) != 0;
    if (mode == 2) st.params.error = PGNS::ErrorInfo(PGNS::PGERR_INVALID_NAME, "stale", 77, 88);
    return &st.params;
}

#ifndef PG_FAULTS
#define USER_POINT() ((void) 0)
#include "userio.hh"

// A stream that hands out characters of a queue, with the values of std::istream::peek.
struct Feed : PGNS::istream
{
    std::deque<char> left;
    int l, c;
    Feed(const std::string &text) : left(text.begin(), text.end()), l(1), c(1) {}
    int peek() { return left.empty() ? -1 : (int) (unsigned char) left.front(); }
    void next()
    {
        if (left.empty()) return;
        if (left.front() == '\n') { ++l; c = 1; } else ++c;
        left.pop_front();
    }
    bool eof() const { return left.empty(); }
    int line() const { return l; }
    int column() const { return c; }
};

template<class M> bool des_more(uint8_t source, M &m, const std::string &text, PGNS::Parameters *pp)
{
    if (source == 5) { UserIn in(text); return m.deserialize((PGNS::istream&) in, pp); }
    if (source == 6) { Feed in(text); return m.deserialize((PGNS::istream&) in, pp); }
    if (source == 7)
    {
        std::list<char> l(text.begin(), text.end());
        PGNS::iterator_istream<std::list<char>::const_iterator> in(l.begin(), l.end());
        return m.deserialize((PGNS::istream&) in, pp);
    }
    std::istringstream is(text);
    PGNS::iterator_istream< std::istreambuf_iterator<char> > in((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    return m.deserialize((PGNS::istream&) in, pp);
}

template<class M> bool ser_more(uint8_t sink, const M &m, std::string &out, PGNS::Parameters *pp)
{
    bool ok;
    if (sink == 5) { UserOut os(out); return m.serialize((PGNS::ostream&) os, pp); }
    if (sink == 6)
    {
        std::deque<char> d(out.begin(), out.end());
        auto at = std::back_inserter(d);
        PGNS::iterator_ostream<decltype(at)> os(at);
        ok = m.serialize((PGNS::ostream&) os, pp);
        out.assign(d.begin(), d.end());
        return ok;
    }
    std::ostringstream s;
    s << out;
    std::ostreambuf_iterator<char> at(s);
    PGNS::iterator_ostream< std::ostreambuf_iterator<char> > os(at);
    ok = m.serialize((PGNS::ostream&) os, pp);
    out = s.str();
    return ok;
}
#endif

struct ChunkBuf : std::streambuf
{
    const std::string &text;
    size_t pos, size;
    std::vector<char> chunk;
    ChunkBuf(const std::string &text, size_t size) : text(text), pos(0), size(size) {}
    int underflow()
    {
        if (pos >= text.size()) return EOF;
        size_t n = text.size() - pos < size ? text.size() - pos : size;
        chunk.assign(text.begin() + (long) pos, text.begin() + (long) (pos + n));
        pos += n;
        setg(chunk.data(), chunk.data(), chunk.data() + n);
        return (unsigned char) chunk[0];
    }
};

template<class M> void do_ser(Rd &r, Wr &w, M &m, State &st)
{
    uint8_t sink = r.u8(), mode;
    PGNS::Parameters *pp = get_params(r, st, mode);
    std::string prefix = r.blob();
    const M &cm = m;
    bool ok = false;
    std::string out;
    if (sink == 0)
    {
        out = prefix;
        ok = cm.serialize(out, pp);
    }
    else if (sink == 1)
    {
        std::vector<char> v(prefix.begin(), prefix.end());
        ok = cm.serialize(v, pp);
        out.assign(v.begin(), v.end());
    }
    else if (sink == 2)
    {
        std::ostringstream os;
        if (st.stream_locale) os.imbue(*st.stream_locale);
        os.write(prefix.data(), (std::streamsize) prefix.size());
        ok = cm.serialize(os, pp);
        out = os.str();
    }
    else if (sink == 3)
    {
        // prefix: i32 difference to the exact length, or absolute length with the high bit
        int32_t delta = 0;
        memcpy(&delta, prefix.data(), 4);
        std::string exact;
        PGNS::Parameters copy;
        if (pp) copy = *pp;
        cm.serialize(exact, pp ? &copy : nullptr);
        long n = (long) exact.size() + delta;
        if (n < 0) n = 0;
        char *buf = (char*) malloc((size_t) n + 128);
        memset(buf, 0x5A, (size_t) n + 128);
        // the buffer has its exact size in the heap when the sanitizer watches
#ifdef PG_EXACT
        char *exactbuf = (char*) malloc((size_t) n);
        memset(exactbuf, 0x5A, (size_t) n);
        ok = m.serialize(exactbuf, (size_t) n, pp);
        memcpy(buf + 64, exactbuf, (size_t) n);
        free(exactbuf);
#else
        ok = m.serialize(buf + 64, (size_t) n, pp);
#endif
        bool guard = true;
        for (int i = 0; i < 64; ++i) if (buf[i] != 0x5A || buf[64 + n + i] != 0x5A) guard = false;
        w.u8(guard ? 1 : 0);
        out.assign(buf + 64, (size_t) n);
        free(buf);
    }
#ifndef PG_FAULTS
    else if (sink >= 5)
    {
        out = prefix;
        ok = ser_more(sink, m, out, pp);
    }
#endif
    else
    {
        // a stream that refuses everything after some bytes
        struct Buf : std::streambuf
        {
            size_t left;
            std::string got;
            int overflow(int c) { if (left == 0) return EOF; --left; got += (char) c; return c; }
        } buf;
        int32_t n = 0;
        memcpy(&n, prefix.data(), 4);
        buf.left = (size_t) n;
        std::ostream os(&buf);
        ok = cm.serialize(os, pp);
        out = buf.got;
    }
    w.u8(ok ? 1 : 0);
    w.blob(out);
    if (mode) put_error(w, st);
}

template<class M> void do_des(Rd &r, Wr &w, M &m, State &st)
{
    uint8_t source = r.u8(), mode;
    PGNS::Parameters *pp = get_params(r, st, mode);
    std::string text = r.blob();
    bool ok = false;
    uint8_t restored = 1;
    if (source == 0)
        ok = m.deserialize(text, pp);
    else if (source == 1)
    {
        std::vector<char> v(text.begin(), text.end());
        ok = m.deserialize(v, pp);
    }
    else if (source == 2 || source == 3 || source >= 9)
    {
        // a stream that can not be positioned and has few characters at a time, or one that is already used
        ChunkBuf chunks(text, source == 9 ? 1 : 7);
        std::istream pipe(&chunks);
        std::istringstream memory(source == 11 ? "{\"x\":[1]} " + text : text);
        std::istream &is = (source == 9 || source == 10) ? pipe : memory;
        if (source == 11) is.ignore(10);
        if (st.stream_locale) is.imbue(*st.stream_locale);
        if (source == 3 || source == 10) is.unsetf(std::ios::skipws);
        std::ios_base::fmtflags before = is.flags();
        ok = m.deserialize(is, pp);
        restored = is.flags() == before;
    }
#ifndef PG_FAULTS
    else if (source >= 5)
        ok = des_more(source, m, text, pp);
#endif
    else
    {
        char *buf = (char*) malloc(text.size());
        memcpy(buf, text.data(), text.size());
        ok = m.deserialize(buf, text.size(), pp);
        free(buf);
    }
    w.u8(ok ? 1 : 0);
    w.u8(restored);
    if (mode) put_error(w, st);
}

// serialise a into text and text into b with the same parameters
template<class M> void do_round(Rd &r, Wr &w, M &a, M &b, State &st)
{
    uint8_t mode;
    PGNS::Parameters *pp = get_params(r, st, mode);
    uint8_t source = r.u8();
    const M &ca = a;
    std::string text;
    bool ok = ca.serialize(text, pp);
    w.u8(ok ? 1 : 0);
    w.blob(text);
    if (mode) put_error(w, st);
    // the request of the second half
    Wr q;
    q.u8(source);
    q.u8(mode ? 1 : 0);
    q.u8((uint8_t) ((st.params.ensure_ascii ? 1 : 0) | (st.params.serialize_null ? 2 : 0)));
    q.blob(text);
    Rd s;
    s.p = (const unsigned char*) q.b.data();
    s.e = s.p + q.b.size();
    do_des(s, w, b, st);
}

#ifdef PG_FAULTS
} // namespace drv
#include "arrays.hh"
#include "faults.hh"
namespace drv {
#endif
#ifdef PG_GROWTH
} // namespace drv
#include "arrays.hh"
#include "growth.hh"
namespace drv {
#endif

static const int NSLOTS = 4;

struct Base
{
    virtual ~Base() {}
    virtual void reset() = 0;
    // another set of objects whose last slot is this one's (read only)
    virtual Base *fork() = 0;
    virtual void run(uint8_t op, Rd &r, Wr &w, State &st) = 0;
};

template<class M> struct Type : Base
{
    std::unique_ptr<M> slot[NSLOTS];
    M *shared;

    Type() : shared(nullptr) {}
    Base *fork() { Type *t = new Type(); t->shared = &at(NSLOTS - 1); return t; }
    M &at(uint8_t i) { if (shared && i == NSLOTS - 1) return *shared; if (i >= NSLOTS) { fprintf(stderr, "driver: bad slot\n"); _Exit(99); } if (!slot[i]) slot[i].reset(new M()); return *slot[i]; }
    void reset() { for (int i = 0; i < NSLOTS; ++i) slot[i].reset(); }
    void run(uint8_t op, Rd &r, Wr &w, State &st)
    {
        uint8_t a = r.u8();
        switch (op)
        {
            case 'N': slot[a].reset(new M()); break;
            case 'S': { int style = r.u8(); Set v(r, style); visit(v, at(a)); break; }
            case 'D': { Dump v(w); visit(v, at(a)); break; }
            case 's': do_ser(r, w, at(a), st); break;
            case 'd': do_des(r, w, at(a), st); break;
            case 'Z': { uint8_t b = r.u8(); do_round(r, w, at(a), at(b), st); break; }
            case 'C': { uint8_t b = r.u8(); at(a) = at(b); break; }
            case 'A': { uint8_t b = r.u8(); at(a) = std::move(at(b)); break; }
            case 'K': { uint8_t b = r.u8(); std::unique_ptr<M> t(new M(at(b))); slot[a].swap(t); break; }
            case 'M': { uint8_t b = r.u8(); std::unique_ptr<M> t(new M(std::move(at(b)))); slot[a].swap(t); break; }
            case 'W': { uint8_t b = r.u8(); at(a).swap(at(b)); break; }
            case 'X': at(a).clear(); break;
            case 'E': { const M &m = at(a); w.u8(m.empty() ? 1 : 0); break; }
            case '=':
            {
                uint8_t b = r.u8();
                const M &x = at(a), &y = at(b);
                w.u8(x == y ? 1 : 0); w.u8(x != y ? 1 : 0); w.u8(x.equal(y) ? 1 : 0);
                break;
            }
            case 'F': { uint32_t idx = r.u32(); int style = r.u8(); Set v(r, style); At<Set> f(v, idx); visit(f, at(a)); break; }
            case 'L': { uint32_t idx = r.u32(); Clear v; At<Clear> f(v, idx); visit(f, at(a)); break; }
            case 'e': { uint32_t idx = r.u32(); IsEmpty v; v.result = false; At<IsEmpty> f(v, idx); visit(f, at(a)); w.u8(v.result ? 1 : 0); break; }
            case 'c':
            {
                uint8_t b = r.u8();
                uint32_t idx = r.u32();
                Addr ad; ad.p = nullptr; At<Addr> fa(ad, idx); visit(fa, at(b));
                CmpWith v; v.other = ad.p; v.eq = v.ne = false; At<CmpWith> f(v, idx); visit(f, at(a));
                w.u8(v.eq ? 1 : 0); w.u8(v.ne ? 1 : 0);
                break;
            }
            case 'f':
            {
                uint8_t b = r.u8();
                uint32_t idx = r.u32();
                int how = r.u8();
                Addr ad; ad.p = nullptr; At<Addr> fa(ad, idx); visit(fa, at(b));
                CopyFrom v; v.other = ad.p; v.how = how; At<CopyFrom> f(v, idx); visit(f, at(a));
                break;
            }
            case 'v':
            {
                uint32_t idx = r.u32();
                CmpValue v(r); At<CmpValue> f(v, idx); visit(f, at(a));
                w.u8((uint8_t) v.n);
                for (int i = 0; i < v.n; ++i) w.u8(v.res[i]);
                break;
            }
#ifdef PG_FAULTS
            case 'Y': { uint8_t b = r.u8(); Fault<M> f(at(a), at(b)); f.run(r, w, st); break; }
#endif
#ifdef PG_GROWTH
            case 'G': measure(at(a), r, w); break;
#endif
            default: fprintf(stderr, "driver: bad operation\n"); _Exit(99);
        }
    }
};

// ---- locale operations

struct Punct : std::numpunct<char>
{
    char do_decimal_point() const { return ','; }
    char do_thousands_sep() const { return '.'; }
    std::string do_grouping() const { return "\1\2"; }
    std::string do_truename() const { return "ja"; }
    std::string do_falsename() const { return "nein"; }
};

inline void do_locale(Rd &r, Wr &w, State &st)
{
    uint8_t what = r.u8();
    std::string name = r.blob();
    bool ok = true;
    if (what == 0) ok = setlocale(LC_ALL, name.c_str()) != nullptr;
    else if (what == 1)
    {
#ifdef __cpp_exceptions
        try { std::locale::global(std::locale(name.c_str())); } catch (std::exception &) { ok = false; }
#else
        ok = false;
#endif
    }
    else if (what == 2) std::locale::global(std::locale(std::locale(), new Punct));
    else if (what == 3) { delete st.stream_locale; st.stream_locale = new std::locale(std::locale::classic(), new Punct); }
    else if (what == 4)
    {
        // per-thread C locale
        locale_t l = newlocale(LC_ALL_MASK, name.c_str(), (locale_t) 0);
        ok = l != (locale_t) 0;
        if (ok) uselocale(l);
    }
    else if (what == 5)
    {
        // back to the state of a fresh process
        locale_t l = uselocale(LC_GLOBAL_LOCALE);
        if (l != LC_GLOBAL_LOCALE) freelocale(l);
        std::locale::global(std::locale::classic());
        setlocale(LC_ALL, "C");
        delete st.stream_locale;
        st.stream_locale = nullptr;
    }
    else if (what == 6) ok = setlocale(LC_NUMERIC, name.c_str()) != nullptr;
    else if (what == 7) ok = setlocale(LC_CTYPE, name.c_str()) != nullptr;
    w.u8(ok ? 1 : 0);
}

inline void query_locale(Wr &w)
{
    char tmp[64];
    snprintf(tmp, sizeof(tmp), "%.2f", 1234.5);
    w.blob(tmp);
    const char *n = setlocale(LC_ALL, nullptr);
    w.blob(n ? n : "");
    std::ostringstream os;
    os << 1234.5 << true;
    w.blob(os.str());
    w.u64((uint64_t) (uintptr_t) uselocale((locale_t) 0));
    // the stored object must still be usable
    w.u8((uint8_t) MB_CUR_MAX);
}

// extension point (array helpers)
typedef void (*ext_fn)(uint8_t op, Rd &r, Wr &w, State &st);

inline void execute(std::vector<Base*> &types, const std::string &typeinfo, ext_fn ext, Rd &r, Wr &w, State &st);

#ifdef PG_THREADS
// requests executed one after the other or each in a thread of its own, on separate objects (slot 3 is shared)
inline void parallel(std::vector<Base*> &types, const std::string &typeinfo, ext_fn ext, Rd &r, Wr &w)
{
    bool concurrent = r.u8() != 0;
    uint32_t n = r.u32();
    std::vector<std::string> req(n);
    std::vector<Wr> res(n);
    std::vector< std::vector<Base*> > own(n);
    for (uint32_t i = 0; i < n; ++i)
    {
        req[i] = r.blob();
        for (size_t k = 0; k < types.size(); ++k) own[i].push_back(types[k]->fork());
    }
    std::atomic<uint32_t> ready(0);
    auto body = [&](uint32_t i)
    {
        if (concurrent)
        {
            // start together, without ordering the threads for the race detector
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        }
        State st;
        Rd q;
        q.p = (const unsigned char*) req[i].data();
        q.e = q.p + req[i].size();
        execute(own[i], typeinfo, ext, q, res[i], st);
    };
    std::vector<std::thread> threads;
    for (uint32_t i = 0; i < n; ++i)
    {
        if (concurrent) threads.push_back(std::thread(body, i));
        else { std::thread t(body, i); t.join(); }
    }
    for (size_t i = 0; i < threads.size(); ++i) threads[i].join();
    for (uint32_t i = 0; i < n; ++i)
    {
        w.blob(res[i].b);
        for (size_t k = 0; k < own[i].size(); ++k) delete own[i][k];
    }
}

#endif

inline void execute(std::vector<Base*> &types, const std::string &typeinfo, ext_fn ext, Rd &r, Wr &w, State &st)
{
    while (r.p < r.e)
    {
        uint8_t op = r.u8();
        if (op == 'l') do_locale(r, w, st);
        else if (op == 'q') query_locale(w);
        else if (op == 'T') w.blob(typeinfo);
#ifdef PG_THREADS
        else if (op == 'P') parallel(types, typeinfo, ext, r, w);
#endif
        else if (op >= 0x80) { if (ext) ext(op, r, w, st); else _Exit(97); }
        else
        {
            uint8_t t = r.u8();
            if (t >= types.size()) { fprintf(stderr, "driver: bad type\n"); _Exit(99); }
            types[t]->run(op, r, w, st);
        }
    }
}

inline int drive(std::vector<Base*> &types, const std::string &typeinfo, ext_fn ext)
{
    // keep the response channel apart from anything the code under test might print
    FILE *in = stdin, *out = stdout;
    std::string buf;
    while (true)
    {
        uint32_t n;
        if (fread(&n, 4, 1, in) != 1) return 0;
        buf.resize(n);
        if (n && fread(&buf[0], 1, n, in) != n) return 98;
        // exact copy so that the sanitizer sees reads beyond the request
        Rd r;
        r.p = (const unsigned char*) buf.data();
        r.e = r.p + n;
        Wr w;
        {
            State st;
            for (size_t i = 0; i < types.size(); ++i) types[i]->reset();
            execute(types, typeinfo, ext, r, w, st);
        }
        uint32_t m = (uint32_t) w.b.size();
        fwrite(&m, 4, 1, out);
        fwrite(w.b.data(), 1, m, out);
        fflush(out);
    }
}

} // namespace drv
