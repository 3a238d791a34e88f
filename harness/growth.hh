// Processor time and memory of one operation. Included by pgdrv.hh (the replaced operators measure).
#include <malloc.h>
#include <time.h>
#include <new>

namespace growth {

static size_t live = 0, peak = 0, total = 0;

static void *allocate(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) { fprintf(stderr, "driver: no memory\n"); abort(); }
    size_t k = malloc_usable_size(p);
    live += k;
    total += k;
    if (live > peak) peak = live;
    return p;
}
static void release(void *p) { if (p) { live -= malloc_usable_size(p); free(p); } }
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

} // namespace growth

void *operator new(size_t n) { return growth::allocate(n); }
void *operator new[](size_t n) { return growth::allocate(n); }
void operator delete(void *p) noexcept { growth::release(p); }
void operator delete[](void *p) noexcept { growth::release(p); }
void operator delete(void *p, size_t) noexcept { growth::release(p); }
void operator delete[](void *p, size_t) noexcept { growth::release(p); }

namespace drv {

// The containers of the array functions, with the interface of the messages.
template<class T, class C> struct GrowthArray
{
    C c;
    template<class S> bool serialize(S &out, PGNS::Parameters *pp) const { return PGNS::serialize_array(c, out, pp); }
    template<class S> bool deserialize(S &in, PGNS::Parameters *pp) { return PGNS::deserialize_array(c, in, pp); }
    bool deserialize(const char *p, size_t n, PGNS::Parameters *pp) { return PGNS::deserialize_array(c, p, n, pp); }
    // the array functions have no form for these
    bool serialize(std::ostream &out, PGNS::Parameters *pp) const { std::string s; bool ok = serialize(s, pp); out << s; return ok; }
    bool deserialize(std::istream &in, PGNS::Parameters *pp) { std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); return deserialize(s, pp); }
    bool serialize(char *, size_t, PGNS::Parameters *pp) const { std::string s; return serialize(s, pp); }
    void clear() { c.clear(); }
    void swap(GrowthArray &o) { c.swap(o.c); }
    bool operator==(const GrowthArray &o) const { return c == o.c; }
};

// op: 0-5 sinks, 6-11 sources, 12 copy construction, 13 copy assignment, 14 comparison, 15 clear, 16 swap
template<class O> void measure(O &source, Rd &r, Wr &w)
{
    uint8_t op = r.u8(), flags = r.u8();
    std::string text = r.blob();
    bool ok = false;
    double best = 1e9;
    size_t peak = 0, total = 0, size = text.size();
    const O &from = source;
    for (int round = 0; round < 3; ++round)
    {
        PGNS::Parameters params, *pp = (flags & 4) ? &params : nullptr;
        params.ensure_ascii = (flags & 1) != 0;
        params.serialize_null = (flags & 2) != 0;
        std::string out;
        std::vector<char> vout, vin;
        std::ostringstream os;
        std::unique_ptr<O> target(new O()), made;
        size_t base, used;
        std::vector<char> fixed;
        if (op == 4) { from.serialize(out, pp); fixed.resize(out.size()); out = std::string(); }
        if (op == 7) vin.assign(text.begin(), text.end());
        std::istringstream is;
        if (op == 8) is.str(text);
        if (op == 13 || op == 15 || op == 16 || op == 14) *target = from;
        UserOut uo(out);
        UserIn ui(text);
        growth::peak = base = growth::live;
        used = growth::total;
        double start = growth::now();
        switch (op)
        {
            case 0: ok = from.serialize(out, pp); break;
            case 1: ok = from.serialize(vout, pp); break;
            case 2: ok = from.serialize((std::ostream&) os, pp); break;
            case 3: ok = from.serialize((PGNS::ostream&) uo, pp); break;
            case 4: ok = source.serialize(fixed.data(), fixed.size(), pp); break;
            case 5: { PGNS::Parameters q; q.serialize_null = true; ok = from.serialize(out, &q); break; }
            case 6: ok = target->deserialize((const std::string&) text, pp); break;
            case 7: ok = target->deserialize((const std::vector<char>&) vin, pp); break;
            case 8: ok = target->deserialize((std::istream&) is, pp); break;
            case 9: ok = target->deserialize(text.data(), text.size(), pp); break;
            case 10: ok = target->deserialize((PGNS::istream&) ui, pp); break;
            case 11: ok = target->deserialize((const std::string&) text, pp); ok = target->deserialize((const std::string&) text, pp); break;
            case 12: made.reset(new O(from)); ok = true; break;
            case 13: *target = from; ok = true; break;
            case 14: ok = *target == from; break;
            case 15: target->clear(); ok = true; break;
            default: { O other; target->swap(other); ok = true; break; }
        }
        double t = growth::now() - start;
        if (t < best) best = t;
        peak = growth::peak - base;
        total = growth::total - used;
        if (op < 6) size = std::max(std::max(out.size(), vout.size()), std::max(os.str().size(), fixed.size()));
        if (best < 0.02 && round == 0) continue;
        // what takes very long is not repeated
        if (t > 2) break;
    }
    w.u8(ok ? 1 : 0);
    w.f64(best);
    w.u64(peak);
    w.u64(total);
    w.u64(size);
}

} // namespace drv
