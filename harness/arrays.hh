// Array helpers, as an extension of the driver. Included before the generated dispatch function.
#pragma once
namespace drv {

template<class T, class E = void> struct Elem;
template<class T> struct Elem<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
{
    static T get(Rd &r) { return drv::get<T>(r); }
    static void put(Wr &w, T v) { drv::put<T>(w, v); }
    static void own(Wr &, const T &, PGNS::Parameters *) {}
    static const bool message = false;
};
template<> struct Elem<std::string, void>
{
    static std::string get(Rd &r) { r.u8(); return r.blob(); }
    static void put(Wr &w, const std::string &v) { w.u8(1); w.blob(v); }
    static void own(Wr &, const std::string &, PGNS::Parameters *) {}
    static const bool message = false;
};
template<> struct Elem<PGNS::string_field, void>
{
    static PGNS::string_field get(Rd &r) { PGNS::string_field f; if (r.u8()) f = r.blob(); return f; }
    static void put(Wr &w, const PGNS::string_field &v) { if (v.empty()) w.u8(0); else { w.u8(1); w.blob(*v); } }
    static void own(Wr &, const PGNS::string_field &, PGNS::Parameters *) {}
    static const bool message = false;
};
template<class T> struct Elem<T, typename std::enable_if<std::is_class<typename T::underlying_type>::value>::type>
{
    static T get(Rd &r) { T m; Set v(r, 0); visit(v, m); return m; }
    static void put(Wr &w, const T &m) { T t(m); Dump v(w); visit(v, t); }
    static void own(Wr &w, const T &m, PGNS::Parameters *pp)
    {
        PGNS::Parameters p;
        if (pp) p = *pp;
        std::string s;
        w.u8(m.serialize(s, pp ? &p : nullptr) ? 1 : 0);
        w.blob(s);
    }
    static const bool message = true;
};

#ifdef PG_FAULTS
template<class T, class C> struct ArrayObject;
template<class M> struct Fault;
#endif
#ifdef PG_GROWTH
template<class T, class C> struct GrowthArray;
template<class O> void measure(O &source, Rd &r, Wr &w);
#endif

template<class T, class C> void array_op(Rd &r, Wr &w, State &st)
{
    uint8_t what = r.u8(), how = r.u8(), mode;
    PGNS::Parameters *pp = get_params(r, st, mode);
    bool ok = false;
#ifdef PG_GROWTH
    if (what == 2)
    {
        GrowthArray<T, C> source;
        for (uint32_t n = r.u32(); n > 0; --n) source.c.push_back(Elem<T>::get(r));
        measure(source, r, w);
        return;
    }
#endif
#ifdef PG_FAULTS
    if (what == 2)
    {
        ArrayObject<T, C> init, source;
        for (uint32_t n = r.u32(); n > 0; --n) init.c.push_back(Elem<T>::get(r));
        for (uint32_t n = r.u32(); n > 0; --n) source.c.push_back(Elem<T>::get(r));
        Fault< ArrayObject<T, C> > f(init, source);
        f.run(r, w, st);
        return;
    }
#endif
    if (what == 0)
    {
        std::string prefix = r.blob();
        C c;
        for (uint32_t n = r.u32(); n > 0; --n) c.push_back(Elem<T>::get(r));
        const C &cc = c;
        std::string out = prefix;
        if (how == 0)
            ok = PGNS::serialize_array(cc, out, pp);
        else if (how == 1)
        {
            std::vector<char> v(prefix.begin(), prefix.end());
            ok = PGNS::serialize_array(cc, v, pp);
            out.assign(v.begin(), v.end());
        }
        else
        {
            typedef std::back_insert_iterator<std::string> it;
            it begin(out);
            PGNS::iterator_ostream<it> os(begin);
            ok = PGNS::serialize_array(cc, (PGNS::ostream&) os, pp);
        }
        w.u8(ok ? 1 : 0);
        w.blob(out);
        if (mode) put_error(w, st);
        for (typename C::const_iterator it = cc.begin(); it != cc.end(); ++it)
            Elem<T>::own(w, *it, pp);
    }
    else
    {
        std::string text = r.blob();
        C c;
        if (how == 0)
            ok = PGNS::deserialize_array(c, text, pp);
        else if (how == 1)
        {
            std::vector<char> v(text.begin(), text.end());
            ok = PGNS::deserialize_array(c, v, pp);
        }
        else if (how == 2)
        {
            char *buf = (char*) malloc(text.size());
            memcpy(buf, text.data(), text.size());
            ok = PGNS::deserialize_array(c, buf, text.size(), pp);
            free(buf);
        }
        else
        {
            PGNS::iterator_istream<std::string::const_iterator> is(text.begin(), text.end());
            ok = PGNS::deserialize_array(c, (PGNS::istream&) is, pp);
        }
        w.u8(ok ? 1 : 0);
        if (mode) put_error(w, st);
        uint32_t n = 0;
        for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) ++n;
        w.u32(n);
        for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) Elem<T>::put(w, *it);
    }
}

template<class T> void array_kind(Rd &r, Wr &w, State &st)
{
    switch (r.u8())
    {
        case 0: array_op<T, std::vector<T> >(r, w, st); break;
        case 1: array_op<T, std::list<T> >(r, w, st); break;
        default: array_op<T, std::deque<T> >(r, w, st); break;
    }
}

} // namespace drv
