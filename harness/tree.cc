// Uses the compiler as a library: a list of parse and generate steps in one process, one after the other or in threads. For each step
// prints what it gave, and what it gives alone in a fresh process.
#include <protogen/protogen.hh>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <iomanip>
#include <iostream>
#include <locale>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

struct Step
{
    std::string text, name;
    unsigned flags; // 1: noskipws, 2: odd formatting flags of both streams, 4: fields by name (as the program does), 8: generate twice, 16: the global locale groups digits
};

static std::string hex(const std::string &s)
{
    static const char *H = "0123456789abcdef";
    std::string out = "x";
    for (size_t i = 0; i < s.size(); ++i) { out += H[(uint8_t) s[i] >> 4]; out += H[(uint8_t) s[i] & 15]; }
    return out;
}

static void options(std::ostringstream &os, const protogen::OptionMap &o)
{
    std::map<std::string, protogen::OptionEntry> sorted(o.begin(), o.end());
    for (auto &e : sorted)
        os << "O " << hex(e.first) << ' ' << hex(e.second.name) << ' ' << (int) e.second.type << ' ' << hex(e.second.value) << '\n';
}

static std::string dump(const protogen::Proto3 &p)
{
    std::ostringstream os;
    os.imbue(std::locale::classic());
    options(os, p.options);
    os << "N " << hex(p.fileName) << '\n';
    for (auto &m : p.messages)
    {
        os << "M " << hex(m->name) << ' ' << hex(m->package) << ' ' << hex(m->qualifiedName()) << '\n';
        options(os, m->options);
        for (auto &f : m->fields)
        {
            int ref = -1;
            for (size_t i = 0; i < p.messages.size(); ++i)
                if (f.type.ref && p.messages[i] == f.type.ref) ref = (int) i;
            if (f.type.ref && ref < 0) ref = -2;
            os << "F " << (int) f.type.id << ' ' << ref << ' ' << f.type.repeated << ' ' << f.type.optional << ' ' << hex(f.name) << ' ' << f.index << '\n';
            options(os, f.options);
        }
    }
    return os.str();
}

static std::string perform(const Step &s)
{
    std::ostringstream res;
    res.imbue(std::locale::classic());
    std::istringstream in(s.text);
    if (s.flags & 1) in >> std::noskipws;
    if (s.flags & 2) in >> std::hex >> std::boolalpha;
    auto before = in.flags();
    protogen::Proto3 proto;
    try
    {
        proto.parse(in, s.name);
        if (in.flags() != before) res << "FLAGS\n";
        res << dump(proto);
        if (s.flags & 4)
            for (auto &m : proto.messages)
                std::sort(m->fields.begin(), m->fields.end(), [](const protogen::Field &a, const protogen::Field &b) { return a.name < b.name; });
        std::string first;
        for (int i = 0; i < ((s.flags & 8) ? 2 : 1); ++i)
        {
            std::ostringstream out;
            if (s.flags & 2) out << std::hex << std::showbase << std::uppercase << std::showpos << std::setfill('*');
            protogen::CppGenerator gen;
            gen.generate(proto, out);
            if (i == 0) { first = out.str(); res << "G " << hex(first) << '\n'; }
            else if (out.str() != first) res << "AGAIN\n";
        }
    }
    catch (protogen::exception &e)
    {
        if (in.flags() != before) res << "FLAGS\n";
        res << "E " << e.line << ' ' << e.column << ' ' << hex(e.what()) << '\n';
    }
    return res.str();
}

struct Grouping : std::numpunct<char>
{
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\1"; }
};

// the settings must not matter
static std::string performWithLocale(const Step &s)
{
    if (!(s.flags & 16)) return perform(s);
    std::locale old = std::locale::global(std::locale(std::locale::classic(), new Grouping));
    std::string r;
    {
        std::string t = perform(s);
        r.swap(t);
    }
    std::locale::global(old);
    return r;
}

static void put(const std::string &s)
{
    uint32_t n = (uint32_t) s.size();
    fwrite(&n, 4, 1, stdout);
    fwrite(s.data(), 1, n, stdout);
}

// the step alone: this process has done nothing yet
static std::string alone(const Step &s)
{
    int fd[2];
    if (pipe(fd) != 0) _exit(4);
    pid_t pid = fork();
    if (pid < 0) _exit(4);
    if (pid == 0)
    {
        close(fd[0]);
        Step t = s;
        t.flags &= 12;
        std::string r = perform(t);
        size_t i = 0;
        while (i < r.size())
        {
            ssize_t n = write(fd[1], r.data() + i, r.size() - i);
            if (n <= 0) _exit(5);
            i += (size_t) n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof(buf))) > 0) out.append(buf, (size_t) n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (st != 0) out += "DIED\n";
    return out;
}

int main(int argc, char **argv)
{
    bool threads = argc > 1 && strcmp(argv[1], "threads") == 0;
    std::string in((std::istreambuf_iterator<char>(std::cin)), std::istreambuf_iterator<char>());
    std::vector<Step> steps;
    size_t at = 0;
    auto u32 = [&]() { uint32_t v; memcpy(&v, in.data() + at, 4); at += 4; return v; };
    auto blob = [&]() { uint32_t n = u32(); std::string s = in.substr(at, n); at += n; return s; };
    uint32_t count = u32();
    for (uint32_t i = 0; i < count; ++i)
    {
        Step s;
        s.text = blob();
        s.name = blob();
        s.flags = u32();
        steps.push_back(s);
    }
    std::vector<std::string> base, got(count);
    for (auto &s : steps) base.push_back(alone(s));
    if (threads)
    {
        std::vector<std::thread> ts;
        for (uint32_t i = 0; i < count; ++i)
            ts.emplace_back([i, &got, &steps]() { got[i] = perform(steps[i]); });
        for (auto &t : ts) t.join();
    }
    else
        for (uint32_t i = 0; i < count; ++i) got[i] = performWithLocale(steps[i]);
    for (uint32_t i = 0; i < count; ++i) { put(base[i]); put(got[i]); }
    return 0;
}
