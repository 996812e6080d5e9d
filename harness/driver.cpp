// Executes sessions of calls on the real library and records every reply.
//
//   driver [options] SCRIPT OUT
//     --start N     skip the first N sessions and append to OUT
//     --reuse       keep all texts and arguments at the same addresses
//     --brief N     report longer results by their size alone
//     --pure        SCRIPT holds pools of calls and schedules (see runPure)
//
// SCRIPT has one session per line, {"c":[[op, args...], ...]}; OUT gets the same
// lines with the replies, {"c":[...],"r":[...]}.  The driver knows nothing about
// what the replies should be: it only reports what happened.
#include <Ystring/Algorithms.hpp>
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/CharClass.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <Ystring/CodepointSet.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/DecodeUtf8.hpp>
#include <Ystring/Escape.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/TokenIterator.hpp>
#include <Ystring/Unescape.hpp>
#include <Ystring/Utf32.hpp>
#include <Ystring/YstringException.hpp>

#include <algorithm>
#include <atomic>
#include <csignal>
#include <deque>
#include <list>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <thread>
#include <typeinfo>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n)
#define UNPOISON(p, n)
#endif

using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;
namespace ys = ystring;
namespace ci = ystring::case_insensitive;

// ---------------------------------------------------------------- JSON input
struct J
{
    enum {INT, STR, ARR} kind = INT;
    long long i = 0;
    string s;
    std::vector<J> a;
    const J& operator[](size_t n) const {return a.at(n);}
    size_t size() const {return a.size();}
};

struct Parser
{
    const char* p;
    const char* end;
    [[noreturn]] void fail() const {fprintf(stderr, "bad script\n"); _exit(3);}
    void ws() {while (p != end && (*p == ' ' || *p == ',' || *p == ':')) ++p;}
    J value()
    {
        ws();
        if (p == end) fail();
        J j;
        if (*p == '[')
        {
            j.kind = J::ARR;
            ++p;
            for (ws(); p != end && *p != ']'; ws())
                j.a.push_back(value());
            if (p == end) fail();
            ++p;
        }
        else if (*p == '"')
        {
            j.kind = J::STR;
            for (++p; p != end && *p != '"'; ++p) j.s += *p;
            ++p;
        }
        else
        {
            bool neg = *p == '-';
            if (neg) ++p;
            if (p == end || *p < '0' || *p > '9') fail();
            while (p != end && *p >= '0' && *p <= '9') j.i = j.i * 10 + (*p++ - '0');
            if (neg) j.i = -j.i;
        }
        return j;
    }
    // {"name": value, ...}
    std::map<string, J> object()
    {
        std::map<string, J> m;
        ws();
        if (p == end || *p != '{') fail();
        ++p;
        for (ws(); p != end && *p != '}'; ws())
        {
            auto k = value().s;
            m[k] = value();
        }
        return m;
    }
};

// ------------------------------------------------------------------- output
static void put(string& o, long long v) {o += std::to_string(v);}
// Longer results are reported by their size alone.
static size_t g_brief = 3000000;
static void putBytes(string& o, string_view s)
{
    if (s.size() > g_brief) {o += "[-2,"; put(o, (long long)s.size()); o += ']'; return;}
    o += '[';
    for (size_t k = 0; k < s.size(); ++k)
    {
        if (k) o += ',';
        put(o, uint8_t(s[k]));
    }
    o += ']';
}
static void putJ(string& o, const J& j)
{
    if (j.kind == J::INT) put(o, j.i);
    else if (j.kind == J::STR) {o += '"'; o += j.s; o += '"';}
    else
    {
        o += '[';
        for (size_t k = 0; k < j.size(); ++k) {if (k) o += ','; putJ(o, j[k]);}
        o += ']';
    }
}

// -------------------------------------------------------- crashes and hangs
static std::atomic<int> g_out{-1};
static thread_local string* t_partial = nullptr;     // the line being written
static string* g_partial = nullptr;                  // the same, for the timer
static std::atomic<unsigned long> g_calls{0};
static volatile unsigned long g_lastCalls = 0;
static volatile int g_idleTicks = 0;
static int g_hangTicks = 8;

static void finish(const char* what)
{
    static std::atomic<bool> done{false};
    if (done.exchange(true)) return;
    string* p = t_partial ? t_partial : g_partial;
    int fd = g_out;
    if (p && fd >= 0)
    {
        auto w = [&](const char* d, size_t n)
                 {while (n) {ssize_t k = write(fd, d, n); if (k <= 0) break; d += k; n -= size_t(k);}};
        w(p->data(), p->size());
        if (!p->empty() && p->back() != '[') w(",", 1);
        w(what, strlen(what));
        w("]}\n", 3);
    }
}
static void onDeath() {finish("[\"crash\"]");}
static void onAbort(int) {finish("[\"crash\"]"); _exit(77);}
static void onTick(int)
{
    unsigned long n = g_calls.load();
    if (n != g_lastCalls) {g_lastCalls = n; g_idleTicks = 0; return;}
    g_idleTicks = g_idleTicks + 1;
    if (g_idleTicks >= g_hangTicks) {finish("[\"hang\"]"); _exit(78);}
}

// ------------------------------------------------------------------ buffers
// Texts and arguments live in buffers of exactly their size, so that reading
// or writing outside them is caught; or, with --reuse, at fixed addresses.
static bool g_reuse = false;
constexpr size_t SLOT = 1u << 19;
static thread_local char* t_slots = nullptr;

struct Buf
{
    char* p = nullptr;
    size_t n = 0;
    char* heap = nullptr;
    string copy;
    Buf() = default;
    Buf(const Buf&) = delete;
    Buf& operator=(const Buf&) = delete;
    Buf(Buf&& o) noexcept {*this = std::move(o);}
    Buf& operator=(Buf&& o) noexcept
    {
        std::swap(p, o.p); std::swap(n, o.n); std::swap(heap, o.heap); std::swap(copy, o.copy);
        return *this;
    }
    ~Buf()
    {
        if (heap) ::operator delete(heap);
        else if (p) UNPOISON(p, SLOT - 16);
    }
    // Texts stand at addresses of any alignment: half of them right behind guarded memory, the
    // others, by their content, after some bytes that would matter to whoever read them.
    static Buf make(string bytes, int slot, bool anywhere = true)
    {
        Buf b;
        b.n = bytes.size();
        if (g_reuse && slot < 16 && b.n < SLOT - 64)
        {
            if (!t_slots) t_slots = static_cast<char*>(aligned_alloc(64, 16 * SLOT));
            b.p = t_slots + slot * SLOT;
            UNPOISON(b.p, SLOT - 16);
        }
        else
        {
            size_t shift = 0;
            if (anywhere && b.n)
            {
                size_t h = b.n * 31 + unsigned(slot);
                for (size_t i = 0; i < b.n; i += 1 + i / 64) h = h * 131 + static_cast<unsigned char>(bytes[i]);
                h ^= h >> 17;
                if (h & 32) shift = h & 15;
            }
            b.heap = static_cast<char*>(::operator new(b.n ? b.n + shift : 1));
            for (size_t i = 0; i < shift; ++i) b.heap[i] = "\x80\xC3\r\\a\xF0\x80,"[(i + b.n) % 8];
            POISON(b.heap, shift / 8 * 8);
            b.p = b.heap + shift;
            if (!b.n) POISON(b.p, 1);
        }
        if (b.n) memcpy(b.p, bytes.data(), b.n);
        if (!b.heap) POISON(b.p + ((b.n + 7) / 8) * 8, SLOT - 64 - ((b.n + 7) / 8) * 8);
        b.copy = std::move(bytes);
        return b;
    }
    bool intact() const {return n == 0 || memcmp(p, copy.data(), n) == 0;}
    string_view view() const {return {p, n};}
};

struct Mutated {};

// Arguments of one call; checked for changes when the call has returned.
struct Args
{
    const J& c;
    std::vector<std::unique_ptr<Buf>> bufs;
    explicit Args(const J& call) : c(call) {}
    static string bytes(const J& j)
    {
        string s;
        s.reserve(j.size());
        for (auto& x : j.a) s += char(x.i);
        return s;
    }
    static u32string points(const J& j)
    {
        u32string s;
        for (auto& x : j.a) s += char32_t(uint32_t(x.i));
        return s;
    }
    string_view str(const J& j)
    {
        bufs.push_back(std::make_unique<Buf>(Buf::make(bytes(j), int(bufs.size()) + 1)));
        return bufs.back()->view();
    }
    u32string_view u32(const J& j)
    {
        auto q = points(j);
        bufs.push_back(std::make_unique<Buf>(
            Buf::make(string(reinterpret_cast<const char*>(q.data()), q.size() * 4),
                      int(bufs.size()) + 1, false)));
        return {reinterpret_cast<const char32_t*>(bufs.back()->p), q.size()};
    }
    string_view str(size_t n) {return str(c[n]);}
    u32string_view u32(size_t n) {return u32(c[n]);}
    char32_t cp(size_t n) const {return char32_t(uint32_t(c[n].i));}
    ptrdiff_t pos(size_t n) const
    {
        auto v = c[n].i;
        // Numbers that TLC cannot compute with have stand-ins that are just as far beyond any text.
        static const ptrdiff_t WIDE[] = {PTRDIFF_MAX, 1LL << 31, 1LL << 32, (1LL << 32) + 1, (1LL << 32) - 1,
                                         1LL << 48, PTRDIFF_MAX - 1, 1LL << 62};
        if (v == -1000000001) return PTRDIFF_MIN;
        if (v >= 1000000000) return WIDE[(v - 1000000000) % 8];
        if (v <= -1000000000) return -WIDE[v == -1000000000 ? 0 : (-1000000001 - v) % 8];
        return ptrdiff_t(v);
    }
    size_t off(size_t n) const {return c[n].i < 0 ? SIZE_MAX : size_t(pos(n));}
    void check() const
    {
        for (auto& b : bufs)
            if (!b->intact()) throw Mutated();
    }
};

// --------------------------------------------------------------- the session
using Finder = std::function<ys::Subrange(string_view)>;
using Tok = ys::TokenIterator<Finder>;

struct Ctx
{
    Buf text = Buf::make({}, 0);
    string_view view = text.view();
    std::optional<Tok> tok;
    ys::CodepointSet set;
    bool hasRes = false;
    string res;
    int slot = 0;
};

static ys::CodepointSet makeSet(const J& m)
{
    ys::CodepointSet s;
    for (size_t k = 0; k + 1 < m[2].size(); k += 2)
        s.add_range(char32_t(uint32_t(m[2][k].i)), char32_t(uint32_t(m[2][k + 1].i)));
    s.negated = m[1].i != 0;
    return s;
}

static std::function<bool(char32_t)> makePred(const J& m)
{
    if (m[0].s == "odd") return [](char32_t c) {return c % 2 == 1;};
    auto k = char32_t(uint32_t(m[1][0].i));
    return [k](char32_t c) {return int32_t(c) >= int32_t(k);};
}

static Finder makeFinder(const J& f)
{
    const string& k = f[0].s;
    if (k == "nl") return [](string_view s) {return ys::find_first_newline(s);};
    if (k == "of" || k == "ciof")
    {
        auto q = Args::points(f[1]);
        if (k == "of") return [q](string_view s) {return ys::find_first_of(s, q).first;};
        return [q](string_view s) {return ci::find_first_of(s, q).first;};
    }
    if (k == "at")
    {
        size_t p = size_t(f[1].i), q = size_t(f[2].i);
        return [p, q](string_view s)
               {return p + q <= s.size() ? ys::Subrange(p, q) : ys::Subrange(SIZE_MAX);};
    }
    auto b = Args::bytes(f[1]);
    if (k == "str") return [b](string_view s) {return ys::find_first(s, b);};
    if (k == "cistr") return [b](string_view s) {return ci::find_first(s, b);};
    return [b](string_view s)                                      // "run"
           {
               auto i = s.find_first_of(b);
               if (i == string_view::npos) return ys::Subrange(i);
               auto j = s.find_first_not_of(b, i);
               return ys::Subrange(i, (j == string_view::npos ? s.size() : j) - i);
           };
}

static void putView(string& o, const Buf& t, string_view v)
{
    o += '[';
    if (v.empty()) o += "0,0";
    else if (v.data() < t.p || v.data() > t.p + t.n || v.size() > t.n - size_t(v.data() - t.p))
    {o += "-2,"; put(o, (long long)v.size() % 1000000);}
    else {put(o, v.data() - t.p); o += ','; put(o, (long long)v.size());}
    o += ']';
}
static long long num(size_t v) {return v == SIZE_MAX ? -1 : v > 100000000 ? -2 : (long long)v;}
// A byte range; where an empty one lies is shown only if it is promised.
static void putRange(string& o, ys::Subrange r, bool exact)
{
    if (r.length == 0 && !exact) {o += "-1,0"; return;}
    put(o, num(r.offset)); o += ','; put(o, num(r.length));
}
static void putRangeCp(string& o, std::pair<ys::Subrange, char32_t> r, bool exact)
{
    putRange(o, r.first, exact); o += ','; put(o, int32_t(r.second));
}
static int sgn(long long v) {return v < 0 ? -1 : v > 0 ? 1 : 0;}

static int classIndex(char32_t c)
{
    using C = ys::CharClass;
    static const uint32_t order[] = {
        C::UPPERCASE_LETTER, C::LOWERCASE_LETTER, C::TITLECASE_LETTER, C::MODIFIER_LETTER,
        C::OTHER_LETTER, C::NONSPACING_MARK, C::SPACING_MARK, C::ENCLOSING_MARK,
        C::DECIMAL_NUMBER, C::LETTER_NUMBER, C::OTHER_NUMBER, C::CONNECTOR_PUNCTUATION,
        C::DASH_PUNCTUATION, C::OPEN_PUNCTUATION, C::CLOSE_PUNCTUATION, C::INITIAL_PUNCTUATION,
        C::FINAL_PUNCTUATION, C::OTHER_PUNCTUATION, C::MATH_SYMBOL, C::CURRENCY_SYMBOL,
        C::MODIFIER_SYMBOL, C::OTHER_SYMBOL, C::SPACE_SEPARATOR, C::LINE_SEPARATOR,
        C::PARAGRAPH_SEPARATOR, C::CONTROL, C::FORMAT, C::SURROGATE, C::PRIVATE_USE,
        C::UNASSIGNED};
    auto v = uint32_t(ys::get_char_class(c));
    for (int k = 0; k < 30; ++k)
        if (order[k] == v) return k;
    return -2;
}

static int predMask(char32_t c)
{
    bool b[] = {ys::is_alpha_numeric(c), ys::is_cased_letter(c), ys::is_control(c),
                ys::is_format(c), ys::is_graphical(c), ys::is_hex_digit(c), ys::is_letter(c),
                ys::is_lower(c), ys::is_mark(c), ys::is_newline(c), ys::is_number(c),
                ys::is_punctuation(c), ys::is_separator(c), ys::is_surrogate(c),
                ys::is_symbol(c), ys::is_upper(c), ys::is_visible(c), ys::is_whitespace(c)};
    int m = 0;
    for (int k = 0; k < 18; ++k) m |= int(b[k]) << k;
    return m;
}

// One number per code point of a block; a single one if all are equal.
template <typename F>
static void putBlock(string& o, int block, F f)
{
    std::vector<long long> v;
    for (int k = 0; k < 256; ++k) v.push_back(f(char32_t(uint32_t(block * 256 + k))));
    bool same = true;
    for (auto x : v) same = same && x == v[0];
    if (same) v.resize(1);
    o += '[';
    for (size_t k = 0; k < v.size(); ++k) {if (k) o += ','; put(o, v[k]);}
    o += ']';
}

static string ownEncode(char32_t c)
{
    string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) {s += char(0xC0 | (c >> 6)); s += char(0x80 | (c & 0x3F));}
    else if (c < 0x10000)
    {s += char(0xE0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 0x3F)); s += char(0x80 | (c & 0x3F));}
    else
    {s += char(0xF0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 0x3F));
     s += char(0x80 | ((c >> 6) & 0x3F)); s += char(0x80 | (c & 0x3F));}
    return s;
}

static void putTok(string& o, const Ctx& x, bool has)
{
    put(o, has); o += ','; put(o, bool(*x.tok)); o += ',';
    putView(o, x.text, x.tok->part()); o += ',';
    putView(o, x.text, x.tok->token()); o += ',';
    putView(o, x.text, x.tok->remainder());
}
static void putEnds(string& o, const Ctx& x)
{
    if (x.view.empty()) o += "0,0";
    else if (x.view.data() < x.text.p || x.view.data() + x.view.size() > x.text.p + x.text.n)
        o += "-2,-2";
    else
    {
        put(o, x.view.data() - x.text.p); o += ',';
        put(o, x.view.data() + x.view.size() - x.text.p);
    }
}

static void setText(Ctx& x, string t)
{
    x.tok.reset();
    x.text = Buf();
    x.text = Buf::make(std::move(t), x.slot);
    x.view = x.text.view();
    x.hasRes = false;
    x.res.clear();
}

// The same on other kinds of iterators and elements than a view's: a pair of results
// for each kind that does not give what the view's gave.
template <typename C, typename F>
static std::pair<long long, long long> onCopy(string_view s, size_t lo, size_t hi, F f)
{
    C l(s.begin(), s.end());
    auto i = std::next(l.begin(), lo), j = std::next(l.begin(), hi);
    auto r = f(i, j);
    return {r.first, std::distance(l.begin(), r.second)};
}

template <typename Val, typename F>
static void otherKinds(string_view s, const J& c, Val val, std::pair<long long, long long> r, F f)
{
    if (s.size() > 100) return;
    size_t lo(c[1].i), hi(c[2].i);
#ifdef NO_OTHER_KINDS
    std::pair<long long, long long> q[] = {{-99, -99}}; // does not compile
#else
    std::pair<long long, long long> q[] = {
        onCopy<std::list<char>>(s, lo, hi, f), onCopy<std::vector<unsigned char>>(s, lo, hi, f),
        onCopy<std::deque<signed char>>(s, lo, hi, f), onCopy<std::u8string>(s, lo, hi, f)};
#endif
    for (auto& p : q)
        if (p != r) {val(p.first); val(p.second);}
}

static std::pair<long long, long long> pairOf(long long a, long long b) {return {a, b};}

// The results of a call, appended to o after "ok".  Throws what the call throws.
static void call(Ctx& x, const J& c, Args& A, string& o)
{
    const string& op = c[0].s;
    const string_view s = x.text.view();
    auto text = [&](string r) {o += ','; putBytes(o, r); x.res = std::move(r); x.hasRes = true;};
    auto part = [&](string_view r)
                {
                    o += ','; putView(o, x.text, r);
                    x.res = string(r); x.hasRes = true;
                };
    auto view = [&](string_view r) {o += ','; putView(o, x.text, r);};
    auto val = [&](long long v) {o += ','; put(o, v);};
    auto range = [&](ys::Subrange r, bool exact = false) {o += ','; putRange(o, r, exact);};
    auto rangeCp = [&](std::pair<ys::Subrange, char32_t> r, bool exact = false)
                   {o += ','; putRangeCp(o, r, exact);};
    auto views = [&](const std::vector<string_view>& v)
                 {
                     o += ",[";
                     for (size_t k = 0; k < v.size() && v.size() <= g_brief; ++k)
                     {if (k) o += ','; putView(o, x.text, v[k]);}
                     o += ']';
                 };
    auto points = [&](u32string_view q)
                  {
                      o += ",[";
                      for (size_t k = 0; k < q.size() && q.size() <= g_brief; ++k)
                      {if (k) o += ','; put(o, int32_t(q[k]));}
                      o += ']';
                  };
    auto b = s.begin();
    auto at = [&](size_t n) {return b + c[n].i;};

    if (op == "nop") {}
    // --- the state itself
    else if (op == "text") setText(x, Args::bytes(c[1]));
    // n times the same bytes, then some others
    else if (op == "text_rep")
    {
        string u = Args::bytes(c[1]), t;
        for (auto k = c[2].i; k > 0; --k) t += u;
        setText(x, t + Args::bytes(c[3]));
    }
    else if (op == "keep")
    {
        val(x.hasRes);
        if (x.hasRes) setText(x, string(x.res));
    }
    // --- encoding and decoding
    else if (op == "append")
    {
        string t(s);
        t.shrink_to_fit();
        string before = t;
        try
        {
            auto& r = ys::append(t, A.cp(1));
            if (&r != &t) throw Mutated();
        }
        catch (ys::YstringException&)
        {
            if (t != before) throw Mutated();
            throw;
        }
        text(t);
    }
    else if (op == "append_copy") text(ys::append(s, A.cp(1)));
    else if (op == "from_utf32") text(ys::from_utf32(A.u32(1)));
    else if (op == "from_cp") text(ys::from_utf32(A.cp(1)));
    else if (op == "to_utf32") points(ys::to_utf32(s));
    else if (op == "decode_next")
    {
        auto it = at(1); auto r = ys::decode_next(it, at(2)); val(int32_t(r)); val(it - b);
        otherKinds(s, c, val, pairOf(int32_t(r), it - b), [](auto i, auto j)
                   {auto r = ys::decode_next(i, j); return std::pair((long long)int32_t(r), i);});
    }
    else if (op == "decode_prev")
    {
        auto it = at(2); auto r = ys::decode_prev(at(1), it); val(int32_t(r)); val(it - b);
        otherKinds(s, c, val, pairOf(int32_t(r), it - b), [](auto i, auto j)
                   {auto r = ys::decode_prev(i, j); return std::pair((long long)int32_t(r), j);});
    }
    else if (op == "skip_next")
    {
        auto it = at(1); auto r = ys::skip_next(it, at(2)); val(r); val(it - b);
        otherKinds(s, c, val, pairOf(r, it - b), [](auto i, auto j)
                   {auto r = ys::skip_next(i, j); return std::pair((long long)r, i);});
    }
    else if (op == "skip_prev")
    {
        auto it = at(2); auto r = ys::skip_prev(at(1), it); val(r); val(it - b);
        otherKinds(s, c, val, pairOf(r, it - b), [](auto i, auto j)
                   {auto r = ys::skip_prev(i, j); return std::pair((long long)r, j);});
    }
    else if (op == "is_valid") val(ys::is_valid_utf8(s));
    else if (op == "repair") text(ys::replace_invalid_utf8(s, A.cp(1)));
    else if (op == "repair_in")
    {
        string t(s);
        auto& r = ys::replace_invalid_utf8(t, A.cp(1));
        if (&r != &t) throw Mutated();
        text(t);
    }
    // --- searching
    else if (op == "find_first") range(ys::find_first(s, A.str(1), A.off(2)), true);
    else if (op == "find_last") range(ys::find_last(s, A.str(1), A.off(2)), true);
    else if (op == "starts_with") val(ys::starts_with(s, A.str(1)));
    else if (op == "ends_with") val(ys::ends_with(s, A.str(1)));
    else if (op == "contains") val(ys::contains(s, A.cp(1)));
    else if (op == "ff" || op == "fl")
    {
        bool f = op == "ff";
        auto& m = c[1];
        auto off = A.off(2);
        const string& k = m[0].s;
        if (k == "in")
        {auto q = A.u32(m[1]); rangeCp(f ? ys::find_first_of(s, q, off) : ys::find_last_of(s, q, off));}
        else if (k == "ci")
        {auto q = A.u32(m[1]); rangeCp(f ? ci::find_first_of(s, q, off) : ci::find_last_of(s, q, off));}
        else if (k == "set")
        {auto q = makeSet(m); rangeCp(f ? ys::find_first_of(s, q, off) : ys::find_last_of(s, q, off));}
        else if (k == "ciset")
        {auto q = makeSet(m); rangeCp(f ? ci::find_first_of(s, q, off) : ci::find_last_of(s, q, off));}
        else
        {
            auto q = makePred(m);
            rangeCp(f ? ys::find_first_where(s, q, off) : ys::find_last_where(s, q, off));
        }
    }
    else if (op == "ffnl") range(ys::find_first_newline(s, A.off(1)));
    else if (op == "flnl") range(ys::find_last_newline(s, A.off(1)));
    // --- characters and positions
    else if (op == "count_chars") val(num(ys::count_chars(s)));
    else if (op == "char_pos") val(num(ys::get_char_pos(s, A.pos(1))));
    else if (op == "char_range") range(ys::get_char_range(s, A.pos(1)), true);
    else if (op == "next_char") range(ys::get_next_char_range(s, A.off(1)), true);
    else if (op == "prev_char") range(ys::get_prev_char_range(s, A.off(1)), true);
    else if (op == "count_cps") val(num(ys::count_codepoints(s)));
    else if (op == "cp_pos") val(num(ys::get_codepoint_pos(s, A.pos(1))));
    else if (op == "cp_at") rangeCp(ys::get_codepoint(s, A.pos(1)), true);
    else if (op == "cp_sub")
        part(c[2].i == 1000000000 && c[1].i % 2 ? ys::get_codepoint_substring(s, A.pos(1))
             : ys::get_codepoint_substring(s, A.pos(1), A.pos(2)));
    else if (op == "char_sub")
        part(c[2].i == 1000000000 && c[1].i % 2 ? ys::get_char_substring(s, A.pos(1))
             : ys::get_char_substring(s, A.pos(1), A.pos(2)));
    else if (op == "ins_cp") text(ys::insert_codepoint(s, A.pos(1), A.cp(2)));
    else if (op == "ins_cps") text(ys::insert_codepoints(s, A.pos(1), A.str(2)));
    else if (op == "ins_char") text(ys::insert_char(s, A.pos(1), A.cp(2)));
    else if (op == "ins_chars") text(ys::insert_chars(s, A.pos(1), A.str(2)));
    else if (op == "rep_cps") text(ys::replace_codepoints(s, A.pos(1), A.pos(2), A.str(3)));
    else if (op == "rep_chars") text(ys::replace_chars(s, A.pos(1), A.pos(2), A.str(3)));
    else if (op == "reverse") text(ys::reverse(s));
    // --- editing
    else if (op == "replace")
    {
        auto f = A.str(1);
        auto t = A.str(2);
        text(c[3].i == 1000000000 ? ys::replace(s, f, t) : ys::replace(s, f, t, A.pos(3)));
    }
    else if (op == "replace_cp")
        text(c[3].i == 1000000000 ? ys::replace_codepoint(s, A.cp(1), A.cp(2))
             : ys::replace_codepoint(s, A.cp(1), A.cp(2), A.pos(3)));
    else if (op == "split")
    {
        auto& f = c[1];
        const string& k = f[0].s;
        ys::SplitParams p{A.off(2), c[3].i != 0};
        if (k == "str") views(ys::split(s, A.str(f[1]), p));
        else if (k == "of") views(ys::split(s, A.u32(f[1]), p));
        else if (k == "nl") views(ys::split_lines(s, p));
        else if (k == "cistr") views(ci::split(s, A.str(f[1]), p));
        else if (k == "ciof") views(ci::split(s, A.u32(f[1]), p));
        else views(ys::split_where(s, makeFinder(f), p));
    }
    else if (op == "join")
    {
        std::vector<string_view> v;
        for (auto& j : c[1].a) v.push_back(A.str(j));
        auto d = A.str(2);
        auto r = ys::join(v.begin(), v.end(), d);
        // the strings may be of other kinds and in other places
#ifdef NO_OTHER_JOIN
        auto& w = v;
        r = "?join?"; // does not compile
#else
        std::list<string> w(v.begin(), v.end());
#endif
        if (ys::join(w.begin(), w.end(), d) != r || (d.empty() && ys::join(v.begin(), v.end()) != r))
            r = "?join?";
        text(r);
    }
    else if (op == "trim_start" || op == "trim_end" || op == "trim")
    {
        auto& m = c[1];
        const string& k = m[0].s;
        int w = op == "trim_start" ? 0 : op == "trim_end" ? 1 : 2;
        if (k == "space")
            part(w == 0 ? ys::trim_start(s) : w == 1 ? ys::trim_end(s) : ys::trim(s));
        else if (k == "in")
        {
            auto q = A.u32(m[1]);
            part(w == 0 ? ys::trim_start(s, q) : w == 1 ? ys::trim_end(s, q) : ys::trim(s, q));
        }
        else
        {
            std::function<bool(char32_t)> q = makePred(m);
            part(w == 0 ? ys::trim_start_where(s, q) : w == 1 ? ys::trim_end_where(s, q)
                 : ys::trim_where(s, q));
        }
    }
    // --- case
    else if (op == "cp_case")
    {
        val(int32_t(ys::to_lower(A.cp(1)))); val(int32_t(ys::to_upper(A.cp(1))));
        val(int32_t(ys::to_title(A.cp(1))));
    }
    else if (op == "lower") text(ys::to_lower(s));
    else if (op == "upper") text(ys::to_upper(s));
    else if (op == "title") text(ys::to_title(s));
    else if (op == "ci_compare") val(sgn(ci::compare(s, A.str(1))));
    else if (op == "ci_equal") val(ci::equal(s, A.str(1)));
    else if (op == "ci_less") val(ci::less(s, A.str(1)));
    else if (op == "ci_cp")
    {
        auto p = A.cp(1), q = A.cp(2);
        val(sgn(ys::case_insensitive_compare(p, q))); val(ys::case_insensitive_equal(p, q));
        val(ys::case_insensitive_less(p, q)); val(sgn(ys::CaseInsensitiveCompare()(p, q)));
        val(ys::CaseInsensitiveEqual()(p, q)); val(ys::CaseInsensitiveLess()(p, q));
    }
    else if (op == "ci_first") range(ci::find_first(s, A.str(1), A.off(2)));
    else if (op == "ci_last") range(ci::find_last(s, A.str(1), A.off(2)));
    else if (op == "ci_starts") val(ci::starts_with(s, A.str(1)));
    else if (op == "ci_ends") val(ci::ends_with(s, A.str(1)));
    else if (op == "ci_replace")
    {
        auto f = A.str(1);
        auto t = A.str(2);
        text(c[3].i == 1000000000 ? ci::replace(s, f, t) : ci::replace(s, f, t, A.pos(3)));
    }
    // --- classes and normalization
    else if (op == "cls") val(classIndex(A.cp(1)));
    else if (op == "preds") val(predMask(A.cp(1)));
    else if (op == "decomp") points(ys::decompose(A.cp(1)));
    else if (op == "to_decomposed") text(ys::to_decomposed(s));
    else if (op == "to_composed") text(ys::to_composed(s));
    // --- escaping
    else if (op == "escape_json") text(ys::escape_json(s));
    else if (op == "find_escapable") range(ys::find_first_escapable_char(s, A.off(1)), true);
    else if (op == "has_escapable") val(ys::has_escapable_chars(s));
    else if (op == "unescape") text(ys::unescape(string(s)));
    else if (op == "unescape_in")
    {
        Buf t = Buf::make(string(s), 9);
        auto n = ys::unescape(t.p, t.n);
        text(n <= t.n ? string(t.p, n) : string("\xFF\xFF\xFF"));
    }
    else if (op == "find_escaped") range(ys::find_first_escaped_char(s, A.off(1)), true);
    else if (op == "has_escaped") val(ys::has_escaped_chars(s));
    // --- 256 code points at once
    else if (op == "blk_lower")
    {o += ','; putBlock(o, int(c[1].i), [](char32_t p) {return int32_t(ys::to_lower(p) - p);});}
    else if (op == "blk_upper")
    {o += ','; putBlock(o, int(c[1].i), [](char32_t p) {return int32_t(ys::to_upper(p) - p);});}
    else if (op == "blk_title")
    {o += ','; putBlock(o, int(c[1].i), [](char32_t p) {return int32_t(ys::to_title(p) - p);});}
    else if (op == "blk_class")
    {o += ','; putBlock(o, int(c[1].i), [](char32_t p) {return classIndex(p);});}
    else if (op == "blk_preds")
    {o += ','; putBlock(o, int(c[1].i), [](char32_t p) {return predMask(p);});}
    else if (op == "blk_encode")
    {
        // Appending, appending to a copy, and from_utf32 of one and of a list agree.
        o += ",[";
        for (int k = 0; k < 256; ++k)
        {
            auto p = char32_t(uint32_t(c[1].i * 256 + k));
            string r[4];
            for (int v = 0; v < 4; ++v)
            {
                if (v == 0 || v == 1)
                {
                    string t(s);
                    try {if (v == 0) ys::append(t, p); else t = ys::append(s, p);}
                    catch (ys::YstringException&) {}
                    r[v] = t.substr(0, s.size()) == s ? t.substr(s.size()) : "?";
                }
                else r[v] = v == 2 ? ys::from_utf32(p) : ys::from_utf32(u32string_view(&p, 1));
            }
            if (k) o += ',';
            putBytes(o, r[1] != r[0] ? r[1] + "?" : r[2] != r[0] ? r[2] + "?" : r[3] != r[0] ? r[3] + "?" : r[0]);
        }
        o += ']';
    }
    else if (op == "blk_decode")
    {
        // variant: 0 forward, 1 backward; how far the decoded values are off
        int v = int(c[2].i);
        o += ',';
        putBlock(o, int(c[1].i), [&](char32_t p)
                 {
                     auto e = ownEncode(p);
                     string_view t = e;
                     auto it = v ? t.end() : t.begin();
                     auto r = v ? ys::decode_prev(t.begin(), it) : ys::decode_next(it, t.end());
                     return it == (v ? t.begin() : t.end()) ? int32_t(r - p) : 99999999;
                 });
    }
    else if (op == "blk_decomp")
    {
        std::vector<u32string> v;
        bool same = true;
        for (int k = 0; k < 256; ++k)
        {
            auto p = char32_t(uint32_t(c[1].i * 256 + k));
            v.push_back(ys::decompose(p));
            same = same && v.back() == u32string(1, p);
        }
        if (same) v.clear();
        o += ",[";
        for (size_t k = 0; k < v.size(); ++k)
        {
            if (k) o += ',';
            o += '[';
            for (size_t i = 0; i < v[k].size(); ++i) {if (i) o += ','; put(o, int32_t(v[k][i]));}
            o += ']';
        }
        o += ']';
    }
    // --- the token iterator
    else if (op == "tok_new")
    {
        x.tok.emplace(s, makeFinder(c[1]));
        o += ','; putTok(o, x, false);
    }
    else if (op == "tok_obs") {o += ','; putTok(o, x, false);}
    else if (op == "tok_next")
    {
        bool has;
        try {has = x.tok->next();}
        catch (...) {x.tok.reset(); throw;}
        o += ','; putTok(o, x, has);
    }
    // --- the code point set
    else if (op == "set_new") {x.set = ys::CodepointSet(); x.set.negated = c[1].i != 0;}
    else if (op == "set_neg") x.set.negated = c[1].i != 0;
    else if (op == "set_range") x.set.add_range(A.cp(1), A.cp(2));
    else if (op == "set_cp") x.set.add_codepoint(A.cp(1));
    else if (op == "set_cps") x.set.add_codepoints(A.u32(1));
    else if (op == "set_has" || op == "set_ci")
    {
        o += ",[";
        for (size_t k = 0; k < c[1].size(); ++k)
        {
            auto p = char32_t(uint32_t(c[1][k].i));
            if (k) o += ',';
            put(o, op == "set_has" ? x.set.contains(p) : x.set.case_insensitive_contains(p));
        }
        o += ']';
    }
    else if (op == "set_print")
    {
        std::ostringstream ss;
        ss << x.set;
        o += ','; putBytes(o, ss.str());
    }
    // --- plain values
    else if (op == "subrange")
    {
        size_t q[4];
        for (int k = 0; k < 4; ++k) q[k] = c[k + 1].i == -1 ? SIZE_MAX : size_t(c[k + 1].i);
        ys::Subrange u(q[0], q[1]), v(q[2], q[3]);
        auto num = [&](size_t n) {val((long long)n);};
        num(u.offset); num(u.length); num(u.start()); num(u.end()); val(bool(u)); val(u == v); val(u != v);
        std::ostringstream ss;
        ss << u;
        o += ','; putBytes(o, ss.str());
        ys::Subrange none, one(q[0]), copy = u;
        num(none.offset); num(none.length); val(bool(none)); num(one.offset); num(one.length); val(copy == u);
    }
    else if (op == "subrange_of")
    {
        ys::Subrange u(s.begin(), at(1), at(2));
#ifdef NO_OTHER_RANGES
        ys::Subrange v(SIZE_MAX - 1, 99); // does not compile
#else
        std::list<char> l(s.begin(), s.end());
        auto i = std::next(l.begin(), c[1].i), j = std::next(l.begin(), c[2].i);
        ys::Subrange v(l.begin(), i, j);
#endif
        val((long long)u.offset); val((long long)u.length); val(u == v);
    }
    else if (op == "u8")
    {
        auto u = ys::to_u8string_view(s);
        auto v = ys::to_string_view(u);
        val((long long)u.size()); val((const void*)u.data() == s.data());
        val((long long)v.size()); val(v.data() == s.data());
        std::u8string t(u);
        o += ','; putBytes(o, string(ys::to_string_view(t)));
    }
    else if (op == "constants")
    {
        using K = ys::CharClass;
        for (auto k : {K::UPPERCASE_LETTER, K::LOWERCASE_LETTER, K::TITLECASE_LETTER, K::MODIFIER_LETTER,
                       K::OTHER_LETTER, K::NONSPACING_MARK, K::SPACING_MARK, K::ENCLOSING_MARK, K::DECIMAL_NUMBER,
                       K::LETTER_NUMBER, K::OTHER_NUMBER, K::CONNECTOR_PUNCTUATION, K::DASH_PUNCTUATION,
                       K::OPEN_PUNCTUATION, K::CLOSE_PUNCTUATION, K::INITIAL_PUNCTUATION, K::FINAL_PUNCTUATION,
                       K::OTHER_PUNCTUATION, K::MATH_SYMBOL, K::CURRENCY_SYMBOL, K::MODIFIER_SYMBOL, K::OTHER_SYMBOL,
                       K::SPACE_SEPARATOR, K::LINE_SEPARATOR, K::PARAGRAPH_SEPARATOR, K::CONTROL, K::FORMAT,
                       K::SURROGATE, K::PRIVATE_USE, K::UNASSIGNED, K::CASED_LETTER, K::LETTER, K::MARK, K::NUMBER,
                       K::PUNCTUATION, K::SYMBOL, K::SEPARATOR, K::OTHER})
            val(k);
        for (auto k : {ys::NEXT_LINE, ys::LINE_SEPARATOR, ys::PARAGRAPH_SEPARATOR, ys::REPLACEMENT_CHARACTER,
                       ys::UNICODE_MAX, ys::INVALID_CHAR})
            val(int32_t(k));
        for (u32string q : {ys::ASCII_WHITESPACE, ys::COMMON_WHITESPACE})
        {
            std::sort(q.begin(), q.end());
            points(q);
        }
    }
    else
    {
        fprintf(stderr, "unknown operation %s\n", op.c_str());
        _exit(3);
    }
    (void)view;
}

// The calls that move the view or an iterator tell where they are also when they fail.
static bool viewCall(Ctx& x, const J& c, Args& A, string& o)
{
    const string& op = c[0].s;
    (void)A;
    auto val = [&](long long v) {o += ','; put(o, v);};
    if (op == "view_set")
    {
        x.view = x.text.view().substr(size_t(c[1].i), size_t(c[2].i - c[1].i));
        return true;
    }
    if (op == "pop" || op == "pop_last")
    {
        auto r = op == "pop" ? ys::pop_utf8_codepoint(x.view) : ys::pop_last_utf8_codepoint(x.view);
        val(r.has_value()); val(r ? int32_t(*r) : 0);
    }
    else if (op == "remove" || op == "remove_last")
        val(op == "remove" ? ys::remove_utf8_codepoint(x.view)
            : ys::remove_last_utf8_codepoint(x.view));
    else if (op == "unescape_next")
    {
        // argument: what the flag was before the call, or 2 for no flag
        bool did = c[1].i == 1;
        bool none = c[1].i == 2;
        auto r = none ? ys::unescape_next(x.view) : ys::unescape_next(x.view, &did);
        val(r ? (none ? 3 : did ? 2 : 1) : 0); val(r ? int32_t(*r) : -1);
    }
    else
        return false;
    o += ','; putEnds(o, x);
    return true;
}

static void execute(Ctx& x, const J& c, string& o)
{
    const string& op = c[0].s;
    Args A(c);
    string r = "[\"ok\"";
    g_calls.fetch_add(1, std::memory_order_relaxed);
    bool tokOp = op == "tok_obs" || op == "tok_next";
    try
    {
        if (tokOp && !x.tok) r = "[\"off\"";
        else if (op == "safe_next" || op == "safe_prev")
        {
            auto s = x.text.view();
            bool f = op == "safe_next";
            auto lo = s.begin() + c[1].i, hi = s.begin() + c[2].i;
            auto it = f ? lo : hi;
            char32_t ch = 0;
            try
            {
                bool b = f ? ys::safe_decode_next(it, hi, ch) : ys::safe_decode_prev(lo, it, ch);
                r += ','; put(r, b); r += ','; put(r, b ? int32_t(ch) : 0);
            }
            catch (ys::YstringException&) {r = "[\"throw\"";}
            r += ','; put(r, it - s.begin());
        }
        else if (!viewCall(x, c, A, r)) call(x, c, A, r);
        A.check();
        if (!x.text.intact()) throw Mutated();
    }
    catch (ys::YstringException&)
    {
        bool moves = op == "pop" || op == "pop_last" || op == "unescape_next";
        r = "[\"throw\"";
        if (moves) {r += ','; putEnds(r, x);}
        try
        {
            A.check();
            if (!x.text.intact()) throw Mutated();
        }
        catch (Mutated&) {r = "[\"mutated\"";}
    }
    catch (Mutated&) {r = "[\"mutated\"";}
    catch (std::exception& e) {r = string("[\"foreign\",\"") + typeid(e).name() + "\"";}
    catch (...) {r = "[\"foreign\",\"?\"";}
    r += ']';
    if (o.back() != '[') o += ',';
    o += r;
}

static void runSession(const J& calls, string& line)
{
    line = "{\"c\":";
    putJ(line, calls);
    line += ",\"r\":[";
    Ctx x;
    for (auto& c : calls.a) execute(x, c, line);
    line += "]}\n";
}

static void writeAll(int fd, const string& s)
{
    const char* d = s.data();
    size_t n = s.size();
    while (n)
    {
        ssize_t k = write(fd, d, n);
        if (k <= 0) {fprintf(stderr, "cannot write\n"); _exit(3);}
        d += k;
        n -= size_t(k);
    }
}

#if defined(__SANITIZE_THREAD__)
// Two threads were at the same memory, one of them writing, in no particular order.
static thread_local bool t_race = false;
extern "C" void __tsan_on_report(void*) {t_race = true;}
#endif

// One execution of a key [text, call, call, ...]; the reply is the list of replies.
struct Run
{
    const J* key;
    Ctx x;
    size_t at = 1;
    string r = "[";
    Run(const J& k, int slot) : key(&k) {x.slot = slot; setText(x, Args::bytes(k[0]));}
    bool step()
    {
        if (at >= key->size()) return false;
        execute(x, (*key)[at++], r);
        return at < key->size();
    }
    string reply()
    {
        while (step()) {}
#if defined(__SANITIZE_THREAD__)
        if (t_race) r += r.back() == '[' ? "[\"race\"]" : ",[\"race\"]";
        t_race = false;
#endif
        return r + "]";
    }
};

// A line {"k":[key, ...], "s":[...], "n":[threads]}: the keys are executed as
// scheduled, in each thread from another starting point.  An item of the schedule
// is the number of a key, or a list of numbers of keys that are executed in
// turns, call by call.  With 0 threads every execution has a process of its own.
// The events are written as they happened, one thread after the other:
// {"k":[...], "e":[[key, reply id], ...], "d":[reply, ...]}.
static string alone(const J& key)
{
    int fds[2];
    if (pipe(fds)) _exit(3);
    auto pid = fork();
    if (pid < 0) _exit(3);
    if (pid == 0)
    {
        close(fds[0]);
        g_out = -1;
        alarm(30);
        auto r = Run(key, 0).reply();
        writeAll(fds[1], r);
        _exit(0);
    }
    close(fds[1]);
    string r;
    char buf[1 << 16];
    for (ssize_t n; (n = read(fds[0], buf, sizeof buf)) != 0;)
    {
        if (n < 0) {if (errno == EINTR) continue; break;}
        r.append(buf, size_t(n));
    }
    close(fds[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    ++g_calls;          // the process at work is another: time goes by without calls in this one
    return status == 0 ? r : string("[[\"crash\"]]");
}

static void runPure(std::map<string, J>& m, int fd)
{
    auto& pool = m["k"];
    auto& sched = m["s"];
    int T = int(m["n"][0].i);
    std::vector<std::vector<std::pair<long long, string>>> logs(T ? T : 1);
    static string partial;
    partial = "{\"k\":";
    putJ(partial, pool);
    partial += ",\"e\":[[1,1]],\"d\":[";
    g_partial = &partial;
    std::atomic<int> ready{0};
    auto pick = [&](long long k) -> const J& {return pool[size_t(k - 1)];};
    auto body = [&](int t)
    {
        t_partial = &partial;
        ++ready;
        while (ready < T) std::this_thread::yield();
        for (size_t k = 0; k < sched.size(); ++k)
        {
            auto& item = sched[T ? (k + size_t(t) * sched.size() / size_t(T)) % sched.size() : k];
            if (!T) logs[0].emplace_back(item.i, alone(pick(item.i)));
            else if (item.kind == J::INT)
                logs[t].emplace_back(item.i, Run(pick(item.i), 0).reply());
            else
            {
                std::vector<std::unique_ptr<Run>> runs;
                for (auto& i : item.a)
                    runs.push_back(std::make_unique<Run>(pick(i.i), runs.empty() ? 0 : 99));
                for (bool more = true; more;)
                {
                    more = false;
                    for (auto& r : runs) more = r->step() || more;
                }
                for (size_t i = 0; i < runs.size(); ++i)
                    logs[t].emplace_back(item[i].i, runs[i]->reply());
            }
        }
        t_partial = nullptr;
    };
    if (T <= 1) body(0);
    else
    {
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t) ts.emplace_back(body, t);
        for (auto& t : ts) t.join();
    }
    g_partial = nullptr;
    std::map<string, int> ids;
    std::vector<const string*> order;
    string ev;
    for (auto& log : logs)
        for (auto& [k, r] : log)
        {
            auto [it, isNew] = ids.emplace(r, int(ids.size()) + 1);
            if (isNew) order.push_back(&it->first);
            if (!ev.empty()) ev += ',';
            ev += '['; put(ev, k); ev += ','; put(ev, it->second); ev += ']';
        }
    string o = "{\"k\":";
    putJ(o, pool);
    o += ",\"e\":[" + ev + "],\"d\":[";
    for (size_t k = 0; k < order.size(); ++k) {if (k) o += ','; o += *order[k];}
    o += "]}\n";
    writeAll(fd, o);
}

int main(int argc, char** argv)
{
    size_t start = 0;
    bool pure = false;
    std::vector<string> files;
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        if (a == "--start") start = size_t(atoll(argv[++i]));
        else if (a == "--reuse") g_reuse = true;
        else if (a == "--pure") pure = true;
        else if (a == "--brief") g_brief = size_t(atoll(argv[++i]));
        else files.push_back(a);
    }
    if (files.size() != 2) return 3;
    int fd = open(files[1].c_str(), O_WRONLY | O_CREAT | (start ? O_APPEND : O_TRUNC), 0644);
    if (fd < 0) return 3;
    g_out = fd;
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(onDeath);
#endif
#if !defined(__SANITIZE_THREAD__)
    signal(SIGABRT, onAbort);
    signal(SIGILL, onAbort);        // undefined behaviour traps
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    signal(SIGSEGV, onAbort);
    signal(SIGBUS, onAbort);
    signal(SIGFPE, onAbort);
#endif
#if !defined(__SANITIZE_THREAD__)
    struct sigaction sa = {};
    sa.sa_handler = onTick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
#endif
    std::ifstream in(files[0]);
    string l;
    size_t n = 0;
    string line;
    line.reserve(1 << 20);
    string out;
    while (std::getline(in, l))
    {
        if (l.empty() || n++ < start) continue;
        Parser p{l.data(), l.data() + l.size()};
        auto m = p.object();
        if (pure) {runPure(m, fd); continue;}
        t_partial = &line;
        g_partial = &line;
        runSession(m["c"], line);
        t_partial = nullptr;
        g_partial = nullptr;
        writeAll(fd, line);
    }
    close(fd);
    return 0;
}
