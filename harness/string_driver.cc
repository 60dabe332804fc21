// Executes string scripts in the real memory::string, arena_string and basic_string<char16_t> and records what can be observed.
// Compiled once with -DMAIN, and once per kind of string with -DTY=<name>.
#include "common.hpp"

#include <list>
#include <memory>
#include <memory_resource>
#include <mutex>
#include <set>
#include <sstream>
#include <unordered_set>

#include "string/arena_string.hpp"
#include "string/string.hpp"

namespace pmr_ = std::pmr;

// ------------------------------------------------------------- memory
extern "C" void* __real_malloc(size_t n);
extern "C" void __real_free(void* p);
struct RunnerBase;
// everything the harness keeps besides the strings: one set for each world of strings
struct Lane
{
    int fail = 0;         // fail the fail-th allocation from now (0: none)
    bool failed = false;
    long lt = 0;          // misuse: foreign pointers freed, the default resource used
    long live = 0;        // blocks taken with malloc and not given back
    int default_ok = 0;
    std::unique_ptr<RunnerBase> r;
    Lane();
    ~Lane();
};
extern Lane main_lane;
extern thread_local Lane* L;
#define g_fail (L->fail)
#define g_failed (L->failed)
#define g_lt (L->lt)
#define g_live (L->live)
#define g_default_ok (L->default_ok)
bool fail_now();

// with NDEBUG short texts are read in whole words
#ifdef NDEBUG
inline size_t round8(size_t n) { return (n + 7) & ~size_t(7); }
#else
inline size_t round8(size_t n) { return n; }
#endif

// a memory resource that owns what it hands out and aligns it as asked, not better
struct Res : std::pmr::memory_resource
{
    struct Block
    {
        size_t n;
        char* base;
    };
    std::map<char*, Block> blocks;
    bool is_default = false;
    std::mutex m;         // the default resource serves every world
    void* do_allocate(size_t n, size_t al) override {
        if (is_default && g_default_ok == 0) { ++g_lt; }
        if (fail_now() || n > (size_t(1) << 40)) { throw std::bad_alloc(); }
        size_t off = al < 16 ? al : 0;
        auto* p = static_cast<char*>(__real_malloc(round8(off + (n == 0 ? 1 : n))));
        std::lock_guard<std::mutex> g(m);
        blocks[p + off] = {n, p};
        return p + off;
    }
    void do_deallocate(void* p, size_t, size_t) override {
        std::lock_guard<std::mutex> g(m);
        auto it = blocks.find(static_cast<char*>(p));
        if (it == blocks.end()) {
            ++g_lt;
            return;
        }
        char* base = it->second.base;
        blocks.erase(it);
        __real_free(base);
    }
    [[nodiscard]] bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    [[nodiscard]] bool has(const void* p) const {
        auto* c = const_cast<char*>(static_cast<const char*>(p));
        auto it = blocks.upper_bound(c);
        if (it == blocks.begin()) { return false; }
        --it;
        return c < it->first + it->second.n;
    }
    void drop() {
        for (auto& b : blocks) { __real_free(b.second.base); }
        blocks.clear();
    }
};
extern Res g_default;

struct RunnerBase
{
    virtual ~RunnerBase() = default;
    virtual void op(const Op&, Emitter&) = 0;
    [[nodiscard]] virtual std::string look() const = 0;   // what constant operations show
    virtual void twin(bool on) = 0;                       // makes copies to be looked at, too
    std::string begin;   // fields of the begin event
};

#ifdef TY
// ------------------------------------------------------------- alphabet
template <typename C>
C dec(char x) {
    switch (x) {
        case '0': return C(0);
        case '~': return sizeof(C) == 1 ? C(0xff) : sizeof(C) == 2 ? C(0xffff) : C(0xfffffffe);
        case '^': return sizeof(C) == 1 ? C(0x80) : sizeof(C) == 2 ? C(0x8000) : C(0x80000000);
        case '_': return C(' ');
        case '|': return C('\n');
        case '>': return C('\t');
        default: return C(x);
    }
}
template <typename C>
char show(C c) {
    using U = std::make_unsigned_t<C>;
    U u = static_cast<U>(c);
    if (u == 0) { return '0'; }
    if (u == static_cast<U>(dec<C>('~'))) { return '~'; }
    if (u == static_cast<U>(dec<C>('^'))) { return '^'; }
    if (u == ' ') { return '_'; }
    if (u == '\n') { return '|'; }
    if (u == '\t') { return '>'; }
    if ((u >= 'A' && u <= 'Z') || (u >= 'a' && u <= 'z') || u == '.') { return static_cast<char>(u); }
    return '#';
}
template <typename C>
std::string show(const C* p, size_t n) {
    std::string s;
    s.reserve(n);
    for (size_t i = 0; i < n; ++i) { s += show(p[i]); }
    return s;
}
// an argument in a heap block of its own, without a terminator unless asked for
template <typename C>
struct Buf
{
    C* p;
    size_t n;
    Buf(const std::string& t, bool term) : n(t.size()) {
        p = static_cast<C*>(__real_malloc(round8((n + (term ? 1 : 0)) * sizeof(C) + (n + (term ? 1 : 0) == 0 ? 1 : 0))));
        for (size_t i = 0; i < n; ++i) { p[i] = dec<C>(t[i]); }
        if (term) { p[n] = C(0); }
    }
    Buf(const Buf&) = delete;
    ~Buf() { __real_free(p); }
    [[nodiscard]] const C* b() const { return p; }
    [[nodiscard]] const C* e() const { return p + n; }
};
// a single pass over a text
template <typename C>
struct Inp
{
    using iterator_category = std::input_iterator_tag;
    using value_type = C;
    using difference_type = std::ptrdiff_t;
    using pointer = const C*;
    using reference = C;
    struct Src
    {
        const C* p;
    };
    Src* s = nullptr;
    const C* at = nullptr;
    C operator*() const { return *s->p; }
    Inp& operator++() {
        ++s->p;
        return *this;
    }
    Inp operator++(int) {
        Inp r = *this;
        ++s->p;
        return r;
    }
    bool operator==(const Inp& o) const { return (s != nullptr ? s->p : at) == (o.s != nullptr ? o.s->p : o.at); }
    bool operator!=(const Inp& o) const { return !(*this == o); }
};

template <typename S>
struct Runner : RunnerBase
{
    using C = typename S::value_type;
    using V = std::basic_string_view<C>;
    using Std = std::basic_string<C>;
    static constexpr bool ars = std::is_same_v<S, stdb::memory::arena_string>;
    static constexpr bool wide = sizeof(C) > 1;
    struct Slot
    {
        S* s = nullptr;
        std::string last;
        const C* data = nullptr;
        bool reported = false;
    };
    std::vector<Slot> sl;
    Res res[4];
    std::unique_ptr<std::istringstream> in;
    long base_live;

    explicit Runner(long ns) : sl(size_t(ns) + 1), base_live(g_live) {
        in = std::make_unique<std::istringstream>(std::string());
        S probe = fresh(1);
        size_t sm = probe.capacity();
#ifdef NDEBUG
        bool sso = true;
#else
        bool sso = ars;
#endif
        begin = "\"sm\":" + std::to_string(sm) + ",\"md\":" + std::to_string(254 / sizeof(C)) + ",\"sso\":" + (sso ? "1" : "0") + ",\"ar\":" + (ars ? "1" : "0");
    }
    ~Runner() override {
        for (auto& x : sl) { kill(x); }
        for (auto& r : res) { r.drop(); }
    }
    static void kill(Slot& x) {
        if (x.s != nullptr) {
            S* p = x.s;
            x.s = nullptr;
            p->~S();
            __real_free(p);
        }
    }
    S fresh(long r) {
        if constexpr (ars) {
            return S(alloc(r));
        } else {
            return S();
        }
    }
    auto alloc(long r) {
        if constexpr (ars) {
            return std::pmr::polymorphic_allocator<C>(r > 0 ? static_cast<std::pmr::memory_resource*>(&res[r]) : &g_default);
        } else {
            return std::allocator<C>();
        }
    }
    long rindex(const S& s) {
        if constexpr (ars) {
            for (int i = 1; i < 4; ++i) {
                if (s.get_allocator().resource() == &res[i]) { return i; }
            }
            return -1;
        }
        return 0;
    }

    // ------------------------------------------------------------- observing
    std::string slots() {
        std::string out = ",\"sl\":[";
        for (size_t i = 1; i < sl.size(); ++i) {
            Slot& x = sl[i];
            if (i > 1) { out += ","; }
            if (x.s == nullptr) {
                out += "{\"l\":0,\"cap\":0,\"io\":0,\"r\":0,\"mv\":0,\"loc\":0,\"term\":1,\"acc\":1";
                if (!x.last.empty()) { out += ",\"v\":\"\""; }
                out += "}";
                x.last.clear();
                x.data = nullptr;
                continue;
            }
            const S& s = *x.s;
            size_t n = s.size();
            const C* d = s.data();
            bool acc = n == s.length() && s.empty() == (n == 0) && d == s.c_str() && s.begin() == d && s.end() == d + n &&
                       s.cbegin() == d && s.cend() == d + n && V(s).data() == d && V(s).size() == n && n <= s.max_size();
            std::string t = show(d, n);
            if (n > 0) {
                acc = acc && &s.front() == d && &s.back() == d + n - 1 && &s[n - 1] == d + n - 1 && &s.at(n / 2) == d + n / 2 && &*s.rbegin() == d + n - 1 &&
                      &*(s.rend() - 1) == d && &*s.crbegin() == d + n - 1 && s.crend() - s.crbegin() == std::ptrdiff_t(n);
            }
            bool term = d[n] == C(0);
            const char* o = reinterpret_cast<const char*>(x.s);
            const char* dc = reinterpret_cast<const char*>(d);
            bool io = dc >= o && dc < o + sizeof(S);
            long loc = io ? 0 : -1;
            if constexpr (ars) {
                for (int k = 1; k < 4 && !io; ++k) {
                    if (res[k].has(d)) { loc = k; }
                }
            } else {
                loc = 0;
            }
            out += "{\"l\":1";
            if (t != x.last) { out += ",\"v\":\"" + t + "\""; }
            out += ",\"cap\":" + std::to_string(enc(s.capacity())) + ",\"io\":" + (io ? "1" : "0") + ",\"r\":" + std::to_string(rindex(s)) +
                   ",\"mv\":" + (d != x.data ? "1" : "0") + ",\"loc\":" + std::to_string(loc) + ",\"term\":" + (term ? "1" : "0") + ",\"acc\":" + (acc ? "1" : "0") + "}";
            x.last = t;
            x.data = d;
        }
        return out + "]";
    }

    std::vector<std::unique_ptr<S>> twins;
    void twin(bool on) override {
        twins.clear();
        if constexpr (!ars) {
            if (on) {
                for (const auto& x : sl) {
                    if (x.s != nullptr) { twins.push_back(std::make_unique<S>(*x.s)); }
                }
            }
        }
    }

    [[nodiscard]] std::string look() const override {
        std::string o;
        auto num = [&](size_t n) { o += std::to_string(enc(n)) + ","; };
        static constexpr C kA[] = {C('a'), C('b'), C(0)};
        std::vector<const S*> all;
        for (const auto& x : sl) { all.push_back(x.s); }
        for (const auto& x : twins) { all.push_back(x.get()); }
        for (const S* p : all) {
            if (p == nullptr) {
                o += "-;";
                continue;
            }
            const S& s = *p;
            num(s.size());
            num(s.capacity());
            o += show(s.data(), s.size()) + "," + show(s.c_str(), s.size()) + (s.c_str()[s.size()] == C(0) ? "z" : "?") + std::to_string(int(s.empty()));
            for (auto it = s.rbegin(); it != s.rend(); ++it) { o += show(*it); }
            for (C c : s) { o += show(c); }
            if (!s.empty()) {
                o += show(s.front());
                o += show(s.back());
                o += show(s.at(s.size() - 1));
                o += show(s[s.size() / 2]);
            }
            num(s.find(C('a')));
            num(s.rfind(C('a')));
            num(s.find(kA));
            num(s.rfind(kA));
            num(s.find_first_of(kA));
            num(s.find_last_of(kA));
            num(s.find_first_not_of(kA));
            num(s.find_last_not_of(kA));
            o += std::to_string(int(s.starts_with(kA))) + std::to_string(int(s.ends_with(kA))) + std::to_string(int(s.contains(kA)));
            num(std::hash<S>()(s));
            for (const S* y : all) {
                if (y != nullptr) {
                    const S& t = *y;
                    o += std::to_string(int(s == t)) + std::to_string(int(s < t)) + std::to_string(sign(s.compare(t))) + std::to_string(sgn(s <=> t)) + std::to_string(int(s.starts_with(t)));
                    num(s.find(t));
                }
            }
            V v(s);
            o += show(v.data(), v.size());
            if constexpr (!ars) {
                // copies in the large category share storage and belong to one thread, as documented
                const auto* at = reinterpret_cast<const char*>(s.data());
                if (at >= reinterpret_cast<const char*>(&s) && at < reinterpret_cast<const char*>(&s + 1)) {
                    S c(s);
                    S d = s.clone();
                    o += out(c) + out(d) + out(s.substr(s.size() / 2));
                }
            }
            if constexpr (!wide) {
                o += fmt::format("{}", s);
                std::ostringstream os;
                os << s;
                o += os.str();
                if constexpr (!ars) { o += toStdString(s); }
            }
            o += ";";
        }
        return o;
    }

    template <typename F>
    static void with_il(const std::string& t, F f) {
        auto c = [&](size_t i) { return dec<C>(t[i]); };
        switch (t.size()) {
            case 0: f(std::initializer_list<C>{}); break;
            case 1: f(std::initializer_list<C>{c(0)}); break;
            case 2: f(std::initializer_list<C>{c(0), c(1)}); break;
            case 3: f(std::initializer_list<C>{c(0), c(1), c(2)}); break;
            default: f(std::initializer_list<C>{c(0), c(1), c(2), c(3)}); break;
        }
    }
    template <typename F>
    static void with_range(const std::string& k, const std::string& t, F f) {
        Buf<C> b(t, false);
        if (k == "lst") {
            std::list<C> l(b.b(), b.e());
            f(l.begin(), l.end());
        } else if (k == "vec") {
            std::vector<C> l;
            l.reserve(t.size() + 8);
            l.assign(b.b(), b.e());
            f(l.begin(), l.end());
        } else if (k == "inp") {
            typename Inp<C>::Src s{b.b()};
            Inp<C> i, j;
            i.s = &s;
            j.at = b.e();
            f(i, j);
        } else if (k == "iptr") {
            f(b.p, b.p + b.n);
        } else {
            f(b.b(), b.e());
        }
    }
    static Std mkstd(const std::string& t) {
        Std r;
        r.reserve(((t.size() + 8) | 31) + 0);
        for (char c : t) { r.push_back(dec<C>(c)); }
        return r;
    }
    static std::string out(const S& s) { return show(s.data(), s.size()); }
    static int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
    template <typename O>
    static int sgn(O o) {
        return o < 0 ? -1 : o > 0 ? 1 : 0;
    }

    void op(const Op& o, Emitter& em) override {
        const std::string& nm = o.name;
        long ret = -9;
        int exc = 0;
        std::string extra, text;
        bool has_text = false;
        g_lt = 0;
        g_failed = false;
        g_fail = 0;
        if (nm == "skip") {
            em.line(o, "\"lt\":0,\"leak\":0,\"exc\":0");
            return;
        }
        if (nm == "end") {
            for (auto& x : sl) { kill(x); }
            em.line(o, "\"exc\":0,\"lt\":" + std::to_string(g_lt) + ",\"leak\":" + std::to_string(ars ? 0 : g_live - base_live));
            return;
        }
        if (!legal(o, nm)) {
            em.line(o, "\"ill\":1,\"lt\":0,\"leak\":0,\"exc\":0");
            return;
        }
        try {
            exec(o, nm, ret, extra, text, has_text);
        } catch (const std::bad_alloc&) {
            exc = 1;
        } catch (const std::out_of_range&) {
            exc = 2;
        } catch (const std::length_error&) {
            exc = 3;
        } catch (const std::ios_base::failure&) {
            exc = 5;
        } catch (const fmt::format_error&) {
            exc = 6;
        } catch (const std::logic_error&) {
            exc = 4;
        }
        g_fail = 0;
        if (exc != 0) { ret = -9; }
        if (nm == "word" || nm == "line") {
            std::string all = in->rdbuf()->str();
            auto pos = in->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
            size_t at = pos < 0 ? all.size() : size_t(pos);
            std::string rest;
            for (size_t i = at; i < all.size(); ++i) { rest += show(all[i]); }
            extra += ",\"fl\":" + std::to_string((in->rdstate() & std::ios_base::eofbit ? 1 : 0) + (in->rdstate() & std::ios_base::failbit ? 2 : 0) +
                                                 (in->rdstate() & std::ios_base::badbit ? 4 : 0)) +
                     ",\"left\":\"" + rest + "\",\"w2\":" + std::to_string(in->width());
        }
        if (has_text && exc == 0) { extra += ",\"rt\":\"" + text + "\""; }
        em.line(o, "\"exc\":" + std::to_string(exc) + ",\"af\":" + (g_failed ? "1" : "0") + ",\"lt\":" + std::to_string(g_lt) + ",\"leak\":0,\"ret\":" + std::to_string(ret) + extra +
                     slots());
    }

    // would the call keep the caller's side of the contract? (a failed allocation may have left a shorter text than the script expects)
    bool legal(const Op& o, const std::string& nm) {
        static const std::set<std::string> ctors = {"c0", "cfill", "ctx", "csub", "copyctor", "cmut", "movector", "clone", "sub", "subm", "plus", "cnul"};
        const long a = o.num("a"), b = o.num("b"), c = o.num("c");
        const std::string k = o.str("k");
        if (o.has("a") && (sl[size_t(a)].s != nullptr) == (ctors.count(nm) != 0)) { return false; }
        if (b > 0 && sl[size_t(b)].s == nullptr) { return false; }
        if (nm == "plus" && c > 0 && sl[size_t(c)].s == nullptr) { return false; }
        const long n = o.num("n"), p = o.num("p"), q = o.num("q");
        const long la = a > 0 && sl[size_t(a)].s != nullptr ? long(sl[size_t(a)].s->size()) : 0;
        const long lb = b > 0 ? long(sl[size_t(b)].s->size()) : 0;
        const bool checked = k == "cs" || k == "pn";
        auto piece = [&] {
            if (k == "pn" || k == "view" || k == "it" || k == "cit") { return p + n <= la; }
            if (k == "cs" || k == "ics") { return p <= la; }
            return k != "push" || p < la;
        };
        if (nm == "insx" || nm == "rpx") { return checked || p <= la; }
        if (nm == "insni" || nm == "insc") { return p <= la; }
        if (nm == "eri") { return p < la; }
        if (nm == "err") { return p <= q && q <= la; }
        if (nm == "pop") { return la > 0; }
        if (nm == "rpn" || nm == "rpstr") { return k != "it" || p <= la; }
        if (nm == "mut") { return p < la && (k != "back" || p == la - 1); }
        if (nm == "cmut") { return p < lb; }
        if (nm == "sap" || nm == "sas") { return piece(); }
        if (nm == "sins") { return piece() && ((k != "it" && k != "cit") || q <= la); }
        if (nm == "srp") { return piece() && ((k != "it" && k != "cit" && k != "ics") || q <= la); }
        if (nm == "kill") {
            for (auto& x : sl) {
                if (x.s != nullptr && rindex(*x.s) == o.num("r")) { return false; }
            }
        }
        return true;
    }

    void exec(const Op& o, const std::string& nm, long& ret, std::string& extra, std::string& text, bool& has_text) {
        const long a = o.num("a"), b = o.num("b"), c = o.num("c"), fa = o.num("fa");
        const std::string k = o.str("k"), t = o.str("t");
        size_t n = static_cast<size_t>(o.num("n")), m = static_cast<size_t>(o.num("m"));
        size_t p = static_cast<size_t>(o.num("p")), q = static_cast<size_t>(o.num("q")), p2 = static_cast<size_t>(o.num("p2")), n2 = static_cast<size_t>(o.num("n2"));
        if (o.has("hg")) { n = 0 - static_cast<size_t>(o.num("hg")); }
        const C x = o.has("x") ? dec<C>(o.str("x")[0]) : C(0);
        S* s = a > 0 && a < long(sl.size()) ? sl[a].s : nullptr;
        auto arm = [&] { g_fail = static_cast<int>(fa); };
        // build a string in slot a
        auto place = [&](auto f) {
            void* mem = __real_malloc(sizeof(S));
            try {
                arm();
                f(mem);
                g_fail = 0;
            } catch (...) {
                g_fail = 0;
                __real_free(mem);
                throw;
            }
            sl[a].s = static_cast<S*>(mem);
            sl[a].last.clear();
            sl[a].data = nullptr;
        };
        auto A = [&] { return alloc(o.num("r")); };
        auto idx = [&](auto it) { return long(it - static_cast<const S&>(*s).begin()); };
        auto cdata = [&]() -> const C* { return static_cast<const S&>(*s).data(); };
        size_t cl = s != nullptr ? s->size() : 0;   // current length
        auto clamp = [&](size_t pos, size_t cnt) { return std::min(cnt, cl - pos); };

        // ---- construction
        if (nm == "c0") {
            place([&](void* at) { ars ? new (at) S(A()) : new (at) S(); });
        } else if (nm == "cfill") {
            place([&](void* at) { new (at) S(n, x, A()); });
        } else if (nm == "cnul") {
            place([&](void* at) { new (at) S(static_cast<const C*>(nullptr), A()); });
        } else if (nm == "csub") {
            place([&](void* at) { new (at) S(*sl[b].s, p, n, A()); });
        } else if (nm == "ctx") {
            if (k == "cs") {
                Buf<C> u(t, true);
                place([&](void* at) { new (at) S(u.b(), A()); });
            } else if (k == "pn") {
                Buf<C> u(t, false);
                place([&](void* at) { new (at) S(u.b(), u.n, A()); });
            } else if (k == "ptr") {
                Buf<C> u(t, false);
                place([&](void* at) { new (at) S(u.b(), u.e(), A()); });
            } else if (k == "view" || (k == "std" && ars)) {
                Buf<C> u(t, false);
                place([&](void* at) { new (at) S(V(u.b(), u.n), A()); });
            } else if (k == "std") {
                if constexpr (!ars) {
                    Std u = mkstd(t);
                    place([&](void* at) { new (at) S(u); });
                }
            } else if (k == "il") {
                with_il(t, [&](auto il) { place([&](void* at) { new (at) S(il, A()); }); });
            } else {
                with_range(k, t, [&](auto f, auto l) { place([&](void* at) { new (at) S(f, l, A()); }); });
            }
        } else if (nm == "copyctor") {
            place([&](void* at) { new (at) S(static_cast<const S&>(*sl[b].s)); });
        } else if (nm == "movector") {
            place([&](void* at) { new (at) S(std::move(*sl[b].s)); });
        } else if (nm == "clone") {
            place([&](void* at) { new (at) S(sl[b].s->clone()); });
            extra += std::string(",\"uniq\":") + (static_cast<const S&>(*sl[a].s).data() != static_cast<const S&>(*sl[b].s).data() ? "1" : "0");
        } else if (nm == "sub") {
            place([&](void* at) { new (at) S(static_cast<const S&>(*sl[b].s).substr(p, n)); });
        } else if (nm == "subm") {
            place([&](void* at) { new (at) S(std::move(*sl[b].s).substr(p, n)); });
        } else if (nm == "plus") {
            plus(o, b, c, t, place);
        } else if (nm == "destroy") {
            kill(sl[a]);
            // ---- assignment
        } else if (nm == "copyas") {
            arm();
            *s = static_cast<const S&>(*sl[b].s);
        } else if (nm == "asstr") {
            arm();
            s->assign(static_cast<const S&>(*sl[b].s));
        } else if (nm == "moveas") {
            *s = std::move(*sl[b].s);
        } else if (nm == "asmv") {
            s->assign(std::move(*sl[b].s));
        } else if (nm == "swap") {
            if (o.num("s") != 0) {
                swap(*s, *sl[b].s);
            } else {
                s->swap(*sl[b].s);
            }
        } else if (nm == "asn") {
            arm();
            s->assign(n, x);
        } else if (nm == "assub") {
            arm();
            s->assign(*sl[b].s, p, n);
        } else if (nm == "asx") {
            Buf<C> z(t, true), u(t, false);
            if (k == "cs") {
                arm();
                s->assign(z.b());
            } else if (k == "=cs") {
                arm();
                *s = z.b();
            } else if (k == "pn" || (k == "view" && wide)) {
                arm();
                s->assign(u.b(), u.n);
            } else if (k == "view") {
                if constexpr (!wide) {
                    arm();
                    *s = V(u.b(), u.n);
                }
            } else if (k == "std") {
                Std w = mkstd(t);
                arm();
                *s = w;
            } else if (k == "ch") {
                C w = dec<C>(t[0]);
                arm();
                *s = w;
            } else if (k == "il") {
                with_il(t, [&](auto il) { arm(); s->assign(il); });
            } else if (k == "=il") {
                with_il(t, [&](auto il) { arm(); *s = il; });
            } else {
                with_range(k, t, [&](auto f, auto l) { arm(); s->assign(f, l); });
            }
            // ---- appending
        } else if (nm == "apn") {
            arm();
            s->append(n, x);
        } else if (nm == "push") {
            arm();
            if (k == "+") {
                *s += x;
            } else {
                s->push_back(x);
            }
        } else if (nm == "apstr") {
            arm();
            const S& w = *sl[b].s;
            if (k == "+") {
                *s += w;
            } else {
                s->append(w);
            }
        } else if (nm == "apsub") {
            arm();
            s->append(static_cast<const S&>(*sl[b].s), p, n);
        } else if (nm == "apx") {
            Buf<C> z(t, true), u(t, false);
            if (k == "cs") {
                arm();
                s->append(z.b());
            } else if (k == "+cs") {
                arm();
                *s += z.b();
            } else if (k == "pn") {
                arm();
                s->append(u.b(), u.n);
            } else if (k == "+view") {
                arm();
                *s += V(u.b(), u.n);
            } else if (k == "il") {
                with_il(t, [&](auto il) { arm(); s->append(il); });
            } else if (k == "+il") {
                with_il(t, [&](auto il) { arm(); *s += il; });
            } else {
                with_range(k, t, [&](auto f, auto l) { arm(); s->append(f, l); });
            }
            // ---- insertion
        } else if (nm == "insx") {
            Buf<C> z(t, true), u(t, false);
            if (k == "cs") {
                arm();
                s->insert(p, z.b());
            } else if (k == "pn") {
                arm();
                s->insert(p, u.b(), u.n);
            } else if (k == "il") {
                with_il(t, [&](auto il) { arm(); ret = idx(s->insert(s->cbegin() + p, il)); });
            } else {
                with_range(k, t, [&](auto f, auto l) {
                    arm();
                    typename S::iterator it;
                    if (p % 2 == 0) {
                        it = s->insert(s->cbegin() + p, f, l);
                    } else {
                        it = s->insert(s->begin() + p, f, l);
                    }
                    ret = idx(it);
                });
            }
        } else if (nm == "insn") {
            arm();
            s->insert(p, n, x);
        } else if (nm == "insni") {
            arm();
            auto it = s->insert(s->cbegin() + p, n, x);
            ret = idx(it);
        } else if (nm == "insc") {
            arm();
            auto it = s->insert(s->cbegin() + p, x);
            ret = idx(it);
        } else if (nm == "insstr") {
            arm();
            s->insert(p, static_cast<const S&>(*sl[b].s));
        } else if (nm == "inssub") {
            arm();
            s->insert(p, static_cast<const S&>(*sl[b].s), p2, n2);
            // ---- erasure
        } else if (nm == "er") {
            arm();
            s->erase(p, n);
        } else if (nm == "eri") {
            arm();
            auto it = s->erase(s->begin() + p);
            ret = idx(it);
        } else if (nm == "err") {
            arm();
            auto f = s->begin() + p, l = s->begin() + q;
            auto it = s->erase(f, l);
            ret = idx(it);
        } else if (nm == "pop") {
            arm();
            s->pop_back();
        } else if (nm == "clear") {
            arm();
            s->clear();
            // ---- replacement
        } else if (nm == "rpx") {
            Buf<C> z(t, true), u(t, false);
            if (k == "cs") {
                arm();
                s->replace(p, n, z.b());
            } else if (k == "pn") {
                arm();
                s->replace(p, n, u.b(), u.n);
            } else {
                auto go = [&](auto f) {
                    arm();
                    auto i = s->begin() + p, j = i + clamp(p, n);
                    f(i, j);
                };
                if (k == "ics") {
                    go([&](auto i, auto j) { s->replace(i, j, z.b()); });
                } else if (k == "ipn") {
                    go([&](auto i, auto j) { s->replace(i, j, u.b(), u.n); });
                } else {
                    with_range(k, t, [&](auto f, auto l) { go([&](auto i, auto j) { s->replace(i, j, f, l); }); });
                }
            }
        } else if (nm == "rpn") {
            arm();
            if (k == "it") {
                auto i = s->begin() + p, j = i + clamp(p, n);
                s->replace(i, j, m, x);
            } else {
                s->replace(p, n, m, x);
            }
        } else if (nm == "rpstr") {
            const S& w = *sl[b].s;
            arm();
            if (k == "it") {
                auto i = s->begin() + p, j = i + clamp(p, n);
                s->replace(i, j, w);
            } else {
                s->replace(p, n, w);
            }
        } else if (nm == "rpsub") {
            arm();
            s->replace(p, n, static_cast<const S&>(*sl[b].s), p2, n2);
            // ---- size and room
        } else if (nm == "rsz") {
            arm();
            if (x == C(0)) {
                s->resize(n);
            } else {
                s->resize(n, x);
            }
        } else if (nm == "resv") {
            arm();
            s->reserve(n);
        } else if (nm == "shrink") {
            arm();
            s->shrink_to_fit();
            // ---- writing one character
        } else if (nm == "cmut") {
            // a reference taken, then a copy, then a write
            C& w = p % 2 == 0 ? (*sl[b].s)[p] : *(sl[b].s->begin() + p);
            place([&](void* at) { new (at) S(static_cast<const S&>(*sl[b].s)); });
            extra += std::string(",\"sh\":") + (static_cast<const S&>(*sl[a].s).data() == static_cast<const S&>(*sl[b].s).data() ? "1" : "0");
            w = x;
        } else if (nm == "mut") {
            bool sh = false;
            for (auto& y : sl) { sh = sh || (y.s != nullptr && y.s != s && static_cast<const S&>(*y.s).data() == cdata()); }
            extra += std::string(",\"sh\":") + (sh ? "1" : "0");
            arm();
            if (k == "idx") {
                (*s)[p] = x;
            } else if (k == "at") {
                s->at(p) = x;
            } else if (k == "beg") {
                *(s->begin() + p) = x;
            } else if (k == "end") {
                *(s->end() - (cl - p)) = x;
            } else if (k == "rbeg") {
                *(s->rbegin() + (cl - 1 - p)) = x;
            } else if (k == "rend") {
                *(s->rend() - 1 - p) = x;
            } else if (k == "data") {
                s->data()[p] = x;
            } else if (k == "front") {
                s->front() = x;
            } else {
                s->back() = x;
            }
            // ---- arguments from the string itself
        } else if (nm == "sap") {
            if (k == "it") {
                auto i = s->begin() + p, j = i + n;
                arm();
                s->append(i, j);
            } else {
                const C* d = cdata();
                arm();
                if (k == "pn") {
                    s->append(d + p, n);
                } else if (k == "view") {
                    *s += V(d + p, n);
                } else if (k == "sub") {
                    s->append(*s, p, n);
                } else if (k == "cs") {
                    s->append(d + p);
                } else if (k == "str") {
                    s->append(*s);
                } else if (k == "push") {
                    s->push_back((*static_cast<const S*>(s))[p]);
                } else {
                    *s += *s;
                }
            }
        } else if (nm == "sas") {
            if (k == "it") {
                auto i = s->begin() + p, j = i + n;
                arm();
                s->assign(i, j);
            } else {
                const C* d = cdata();
                arm();
                if (k == "pn" || (k == "view" && wide)) {
                    s->assign(d + p, n);
                } else if (k == "view") {
                    if constexpr (!wide) { *s = V(d + p, n); }
                } else if (k == "sub") {
                    s->assign(*s, p, n);
                } else {
                    s->assign(d + p);
                }
            }
        } else if (nm == "sins") {
            if (k == "it") {
                auto i = s->begin() + p, j = i + n, at = s->begin() + q;
                arm();
                ret = idx(s->insert(at, i, j));
            } else if (k == "cit") {
                auto i = s->cbegin() + p, j = i + n, at = s->cbegin() + q;
                arm();
                s->insert(at, i, j);
            } else {
                const C* d = cdata();
                arm();
                if (k == "pn") {
                    s->insert(q, d + p, n);
                } else if (k == "sub") {
                    s->insert(q, *s, p, n);
                } else if (k == "cs") {
                    s->insert(q, d + p);
                } else {
                    s->insert(q, *s);
                }
            }
        } else if (nm == "srp") {
            size_t mm = m;
            if (k == "it" || k == "cit" || k == "ics") {
                auto at = s->begin() + q, to = at + clamp(q, mm);
                if (k == "it") {
                    auto i = s->begin() + p;
                    arm();
                    s->replace(at, to, i, i + n);
                } else if (k == "cit") {
                    auto i = s->cbegin() + p;
                    arm();
                    s->replace(at, to, i, i + n);
                } else {
                    const C* d = cdata();
                    arm();
                    s->replace(at, to, d + p);
                }
            } else {
                const C* d = cdata();
                arm();
                if (k == "pn") {
                    s->replace(q, mm, d + p, n);
                } else if (k == "sub") {
                    s->replace(q, mm, *s, p, n);
                } else if (k == "cs") {
                    s->replace(q, mm, d + p);
                } else {
                    s->replace(q, mm, *s);
                }
            }
            // ---- reading
        } else if (nm == "at") {
            has_text = true;
            text = std::string(1, show(k == "m" ? s->at(p) : static_cast<const S*>(s)->at(p)));
        } else if (nm == "cpy") {
            has_text = true;
            Buf<C> u(std::string(cl == 0 ? 1 : cl, 'z'), false);
            size_t got = p == 0 ? s->copy(u.p, n) : s->copy(u.p, n, p);
            text = show(u.b(), got);
        } else if (nm == "find") {
            search(o, *s, k, t, extra);
        } else if (nm == "cmp") {
            compare(*s, *sl[b].s, extra);
        } else if (nm == "cmpr") {
            const S& w = *sl[b].s;
            int r = 0;
            if (k == "str") {
                r = s->compare(p, n, w);
            } else if (k == "sub") {
                r = s->compare(p, n, w, p2, n2);
            } else if (k == "cs") {
                r = s->compare(p, n, w.c_str());
            } else {
                r = s->compare(p, n, w.data(), std::min(n2, w.size()));
            }
            ret = sign(r);
        } else if (nm == "hash") {
            const S again(s->data(), s->size(), s->get_allocator());
            const std::hash<S> h{};
            ret = h(*s) == h(*sl[b].s) && h(*s) == h(again) ? 1 : -9;
        } else if (nm == "sopen" || nm == "word" || nm == "line" || nm == "os" || nm == "fmt" || nm == "conv") {
            if constexpr (!wide) { io(o, nm, k, t, s, extra, text, has_text); }
        } else if (nm == "kill") {
            res[o.num("r")].drop();
        } else {
            fprintf(stderr, "unknown op %s\n", nm.c_str());
            abort();
        }
    }

    template <typename P>
    void plus(const Op& o, long b, long c, const std::string& t, P& place) {
        const std::string f = o.str("f");
        S* l = b > 0 ? sl[b].s : nullptr;
        S* r = c > 0 ? sl[c].s : nullptr;
        const S* cl = l;
        const S* cr = r;
        Buf<C> z(t, true);
        C x = t.empty() ? C(0) : dec<C>(t[0]);
        place([&](void* at) {
            if (f == "ss") {
                new (at) S(*cl + *cr);
            } else if (f == "ms") {
                new (at) S(std::move(*l) + *cr);
            } else if (f == "sm") {
                new (at) S(*cl + std::move(*r));
            } else if (f == "mm") {
                new (at) S(std::move(*l) + std::move(*r));
            } else if (f == "st") {
                new (at) S(*cl + z.b());
            } else if (f == "mt") {
                new (at) S(std::move(*l) + z.b());
            } else if (f == "ts") {
                new (at) S(z.b() + *cr);
            } else if (f == "tm") {
                new (at) S(z.b() + std::move(*r));
            } else if (f == "sc") {
                new (at) S(*cl + x);
            } else if (f == "mc") {
                new (at) S(std::move(*l) + x);
            } else if (f == "cs") {
                new (at) S(x + *cr);
            } else {
                new (at) S(x + std::move(*r));
            }
        });
    }

    void search(const Op& o, const S& s, const std::string& k, const std::string& t, std::string& extra) {
        const std::string f = o.str("f");
        Buf<C> z(t, true), u(t, false);
        ++g_default_ok;
        S str(V(u.b(), u.n), alloc(1));
        --g_default_ok;
        C ch = t.empty() ? C(0) : dec<C>(t[0]);
        std::string rs;
        auto add = [&](size_t r) { rs += (rs.empty() ? "" : ",") + std::to_string(r == S::npos ? -1L : enc(r)); };
        if (f == "has" || f == "sw" || f == "ew") {
            bool r = false;
            auto each = [&](auto g) {
                if (k == "str") {
                    r = g(str);
                } else if (k == "cs") {
                    r = g(z.b());
                } else if (k == "ch") {
                    r = g(ch);
                } else {
                    r = g(V(u.b(), u.n));
                }
            };
            if (f == "has") {
                each([&](const auto& w) { return s.contains(w); });
            } else if (f == "sw") {
                each([&](const auto& w) { return s.starts_with(w); });
            } else {
                each([&](const auto& w) { return s.ends_with(w); });
            }
            add(r ? 1 : 0);
        } else {
            for (long p = -1; p <= long(s.size()) + 2; ++p) {
                size_t pos = p < 0 ? S::npos : size_t(p);
#define ONE(name)                                      \
    if (k == "str") {                                  \
        add(s.name(str, pos));                         \
    } else if (k == "cs") {                            \
        add(s.name(z.b(), pos));                       \
    } else if (k == "ch") {                            \
        add(s.name(ch, pos));                          \
    } else {                                           \
        add(s.name(u.b(), pos, u.n));                  \
    }
                if (f == "find") {
                    ONE(find)
                } else if (f == "rfind") {
                    ONE(rfind)
                } else if (f == "ffo") {
                    ONE(find_first_of)
                } else if (f == "ffno") {
                    ONE(find_first_not_of)
                } else if (f == "flo") {
                    ONE(find_last_of)
                } else {
                    ONE(find_last_not_of)
                }
#undef ONE
            }
            // the default start position
            size_t d = 0, w = 0;
            if (f == "find") {
                d = s.find(str);
                w = s.find(str, 0);
            } else if (f == "rfind") {
                d = s.rfind(str);
                w = s.rfind(str, S::npos);
            } else if (f == "ffo") {
                d = s.find_first_of(str);
                w = s.find_first_of(str, 0);
            } else if (f == "ffno") {
                d = s.find_first_not_of(str);
                w = s.find_first_not_of(str, 0);
            } else if (f == "flo") {
                d = s.find_last_of(str);
                w = s.find_last_of(str, S::npos);
            } else {
                d = s.find_last_not_of(str);
                w = s.find_last_not_of(str, S::npos);
            }
            if (d != w) { rs += ",-99"; }
        }
        extra += ",\"rs\":[" + rs + "]";
    }

    template <typename L, typename R>
    static void rel(std::string& c, const L& l, const R& r) {
        c += (c.empty() ? "" : ",") + std::to_string(l < r) + "," + std::to_string(l <= r) + "," + std::to_string(l > r) + "," + std::to_string(l >= r) + "," + std::to_string(l == r) +
             "," + std::to_string(l != r);
    }
    void compare(const S& x, const S& y, std::string& extra) {
        Std sx, sy;
        sx.assign(x.data(), x.size());
        sy.assign(y.data(), y.size());
        std::string c;
        rel(c, x, y);
        int w = sgn(x <=> y);
        c += "," + std::to_string(w == sign(x.compare(y)) ? w : 99);
        rel(c, x, sy);
        c += "," + std::to_string(sgn(x <=> sy));
        rel(c, sx, y);
        c += "," + std::to_string(sgn(sx <=> y));
        rel(c, x, y.c_str());
        c += "," + std::to_string(sign(x.compare(y.c_str())));
        rel(c, x.c_str(), y);
        rel(c, x, V(sy));
        c += "," + std::to_string(sgn(V(x) <=> V(sy)));
        extra += ",\"c\":[" + c + "]";
    }

    void io(const Op& o, const std::string& nm, const std::string& k, const std::string& t, S* s, std::string& extra, std::string& text, bool& has_text) {
        if constexpr (!wide) {
            if (nm == "sopen") {
                std::string u;
                for (char ch : t) { u += dec<char>(ch); }
                in = std::make_unique<std::istringstream>(u);
                if (o.num("ws") == 0) { *in >> std::noskipws; }
                if (o.num("ex") != 0) { in->exceptions(std::ios_base::failbit); }
            } else if (nm == "word") {
                in->width(o.num("w"));
                *in >> *s;
            } else if (nm == "line") {
                in->width(0);
                char d = dec<char>(o.str("d")[0]);
                if (d == '\n') {
                    getline(*in, *s);
                } else {
                    getline(*in, *s, d);
                }
            } else if (nm == "os") {
                has_text = true;
                std::ostringstream os;
                os.width(o.num("w"));
                os.fill(dec<char>(o.str("x")[0]));
                const std::string ad = o.str("ad");
                if (ad == "l") {
                    os << std::left;
                } else if (ad == "r") {
                    os << std::right;
                } else if (ad == "i") {
                    os << std::internal;
                }
                os << static_cast<const S&>(*s);
                std::string r = os.str();
                text = show(r.data(), r.size());
                extra += ",\"w2\":" + std::to_string(os.width());
            } else if (nm == "fmt") {
                has_text = true;
                const std::string ad = o.str("ad");
                const S& cs = *s;
                std::string r;
                if (o.num("w") < 0 || ad == "r") {
                    // the width given at run time
                    r = ad == "r" ? fmt::format(fmt::runtime("{:.>{}}"), cs, int(o.num("w"))) : ad == "l" ? fmt::format(fmt::runtime("{:<{}}"), cs, int(o.num("w"))) : fmt::format(fmt::runtime("{:^{}}"), cs, int(o.num("w")));
                } else if (o.num("w") == 0) {
                    r = fmt::format("{}", cs);
                } else if (ad == "l") {
                    r = fmt::format(fmt::runtime("{:.<" + o.str("w") + "}"), cs);
                } else if (ad == "r") {
                    r = fmt::format(fmt::runtime("{:.>" + o.str("w") + "}"), cs);
                } else {
                    r = fmt::format(fmt::runtime("{:.^" + o.str("w") + "}"), cs);
                }
                text = show(r.data(), r.size());
                extra += ",\"w2\":0";
            } else {
                has_text = true;
                const S& cs = *s;
                extra += ",\"w2\":0";
                std::string r;
                ++g_default_ok;
                if (k == "mem") {
                    auto w = cs.toStdString();
                    r.assign(w.data(), w.size());
                } else if (k == "free") {
                    r = toStdString(cs);
                } else if (k == "freem") {
                    S w(cs);
                    r = toStdString(std::move(w));
                } else if (k == "view") {
                    r = std::string(std::string_view(cs));
                } else if (k == "cs") {
                    r = std::string(cs.c_str());
                } else if constexpr (!ars) {
                    r = k == "tos" ? std::to_string(cs) : std::string(cs);
                } else {
                    r = std::string(cs);
                }
                --g_default_ok;
                text = show(r.data(), r.size());
            }
        }
    }
};

using Ty_str = stdb::memory::string;
using Ty_ars = stdb::memory::arena_string;
using Ty_u16 = stdb::memory::basic_string<char16_t>;
using Ty_u32 = stdb::memory::basic_string<char32_t>;
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
RunnerBase* CAT(make_, TY)(long ns) { return new Runner<CAT(Ty_, TY)>(ns); }
#endif

#ifdef MAIN
Lane main_lane;
thread_local Lane* L = &main_lane;
Lane::Lane() = default;
Lane::~Lane() = default;
Res g_default;
bool fail_now() {
    if (g_fail > 0 && --g_fail == 0) {
        g_failed = true;
        return true;
    }
    return false;
}
extern "C" void* __real_realloc(void* p, size_t n);
static bool absurd(size_t n) { return n > (size_t(1) << 40); }
extern "C" void* __wrap_malloc(size_t n) {
    if (fail_now() || absurd(n)) { return nullptr; }
    ++g_live;
    return __real_malloc(round8(n));
}
extern "C" void* __wrap_realloc(void* p, size_t n) {
    if (fail_now() || absurd(n)) { return nullptr; }
    if (p == nullptr) { ++g_live; }
    return __real_realloc(p, round8(n));
}
extern "C" void __wrap_free(void* p) {
    if (p != nullptr) { --g_live; }
    __real_free(p);
}

using Maker = RunnerBase* (*)(long);
#define DECL(t) __attribute__((weak)) RunnerBase* make_##t(long);
DECL(str) DECL(ars) DECL(u16) DECL(u32)

int main(int argc, char** argv) {
    std::pmr::set_default_resource(&g_default);
    g_default.is_default = true;
    const std::map<std::string, Maker> makers = {{"str", make_str}, {"ars", make_ars}, {"u16", make_u16}, {"u32", make_u32}};
    auto handle = [&](const Op& o, Emitter& em) {
        std::unique_ptr<RunnerBase>& r = L->r;
        if (o.name == "begin") {
            r.reset();
            Maker mk = makers.at(o.str("ty"));
            if (mk == nullptr) { abort(); }
            r.reset(mk(o.num("ns")));
            em.line(o, r->begin);
            return;
        }
        r->op(o, em);
    };
    if (argc > 1 && std::string(argv[1]) == "--par") {
        static Lane lanes[8];
        return run_par(argc, argv, [](int w) { L = &lanes[w]; }, handle, [](int w) -> std::string {
            static thread_local Lane scratch;
            L = &scratch;
            return lanes[w].r ? lanes[w].r->look() : "";
        }, [](int w, bool on) {
            static thread_local Lane scratch;
            L = &scratch;
            if (lanes[w].r) { lanes[w].r->twin(on); }
        });
    }
    int rc = run_script(argc, argv, handle);
    main_lane.r.reset();
    return rc;
}
#endif
