// Streams as a user of the generated code would write them. Every call is a point where fault injection may throw.
struct UserOut : PGNS::ostream
{
    std::string &got;
    UserOut(std::string &got) : got(got) {}
    PGNS::ostream &operator<<(const std::string &v) { USER_POINT(); got.append(v); return *this; }
    PGNS::ostream &operator<<(const char *v) { USER_POINT(); got.append(v); return *this; }
    PGNS::ostream &operator<<(char *v) { USER_POINT(); got.append(v); return *this; }
    PGNS::ostream &operator<<(char v) { USER_POINT(); got.push_back(v); return *this; }
};

struct UserIn : PGNS::istream
{
    const std::string &text;
    size_t at;
    int l, c;
    UserIn(const std::string &text) : text(text), at(0), l(1), c(1) {}
    int peek() { USER_POINT(); return at < text.size() ? text[at] : 0; }
    void next()
    {
        USER_POINT();
        if (at >= text.size()) return;
        if (text[at] == '\n') { ++l; c = 1; } else ++c;
        ++at;
    }
    bool eof() const { return at >= text.size(); }
    int line() const { return l; }
    int column() const { return c; }
};
