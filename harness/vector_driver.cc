// Executes vector scripts in the real stdb_vector and records what can be observed.
// Compiled once with -DMAIN, and once per element type with -DTY=<name>.
#include "common.hpp"

#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <set>
#include <unordered_set>

#include "container/stdb_vector.hpp"

using stdb::container::Safety;
using stdb::container::stdb_vector;

// ------------------------------------------------------------- allocation failures
// everything the harness keeps besides the vectors: one set for each world of objects
struct RunnerBase;
struct Lane
{
    int fail = 0;                            // fail the fail-th allocation from now (0: none)
    bool failed = false;
    long lt = 0;                             // lifetime errors
    std::unordered_set<const void*> live;    // live elements with identity
    long fill_n = 0, asks = 0, fills = 0;
    std::vector<long> fill_v;
    void* fill_at = nullptr;
    long fill_m = 0;
    bool fill_u = false;                     // the no-check form never asks
    std::unique_ptr<RunnerBase> r;
    Lane();
    ~Lane();
};
extern Lane main_lane;
extern thread_local Lane* L;
#define g_fail (L->fail)
#define g_failed (L->failed)
#define g_lt (L->lt)
#define g_live (L->live)
#define g_fill_n (L->fill_n)
#define g_asks (L->asks)
#define g_fills (L->fills)
#define g_fill_v (L->fill_v)
#define g_fill_at (L->fill_at)
#define g_fill_m (L->fill_m)
#define g_fill_u (L->fill_u)

// ------------------------------------------------------------- element types
static void born(const void* p) {
    if (!g_live.insert(p).second) { ++g_lt; }
}
static void dies(const void* p) {
    if (g_live.erase(p) == 0) { ++g_lt; }
}
static void used(const void* p) {
    if (g_live.count(p) == 0) { ++g_lt; }
}

enum class K { Both, MoveOnly, CopyOnly, Old };
template <K kind>
struct Trk
{
    int v;
    int pad[3] = {11, 22, 33};
    Trk() : v(0) { born(this); }
    Trk(int x) : v(x) { born(this); }
    Trk(const Trk& o) noexcept
        requires(kind != K::MoveOnly)
        : v(o.v) {
        used(&o);
        born(this);
    }
    Trk(Trk&& o) noexcept
        requires(kind == K::Both || kind == K::MoveOnly)
        : v(o.v) {
        used(&o);
        o.v = -777;
        born(this);
    }
    Trk(Trk&&)
        requires(kind == K::CopyOnly)
    = delete;
    auto operator=(const Trk& o) noexcept -> Trk&
        requires(kind != K::MoveOnly)
    {
        used(&o);
        used(this);
        v = o.v;
        return *this;
    }
    auto operator=(Trk&& o) noexcept -> Trk&
        requires(kind == K::Both || kind == K::MoveOnly)
    {
        used(&o);
        used(this);
        v = o.v;
        if (&o != this) { o.v = -777; }
        return *this;
    }
    auto operator=(Trk&&) -> Trk&
        requires(kind == K::CopyOnly)
    = delete;
    ~Trk() {
        dies(this);
        v = -888;
    }
    [[nodiscard]] int get() const {
        used(this);
        return pad[0] == 11 && pad[2] == 33 ? v : -99;
    }
};
// C++98 style: copies, never moves
struct Old
{
    int v;
    int* own;
    Old() : v(0), own(new int(0)) { born(this); }
    Old(int x) : v(x), own(new int(x)) { born(this); }
    Old(const Old& o) noexcept : v(o.v), own(new int(*o.own)) {
        used(&o);
        born(this);
    }
    auto operator=(const Old& o) noexcept -> Old& {
        used(&o);
        used(this);
        v = o.v;
        *own = *o.own;
        return *this;
    }
    ~Old() {
        dies(this);
        v = -888;
        delete own;
    }
    [[nodiscard]] int get() const {
        used(this);
        return *own == v ? v : -99;
    }
};
// owns memory, may be moved by copying its bytes, must not be copied that way
struct Rel
{
    int* own;
    static int* mk(int x) {
        int* p = new int(x);
        born(p);
        return p;
    }
    Rel() : own(mk(0)) {}
    Rel(int x) : own(mk(x)) {}
    Rel(const Rel& o) : own(mk(*o.own)) { used(o.own); }
    Rel(Rel&& o) noexcept : own(std::exchange(o.own, nullptr)) {}
    auto operator=(const Rel& o) -> Rel& {
        used(own);
        *own = *o.own;
        return *this;
    }
    auto operator=(Rel&& o) noexcept -> Rel& {
        std::swap(own, o.own);
        return *this;
    }
    ~Rel() {
        if (own != nullptr) {
            dies(own);
            delete own;
        }
    }
    [[nodiscard]] int get() const {
        if (own == nullptr) { return -777; }
        used(own);
        return *own;
    }
};
namespace stdb {
template <>
struct Relocatable<::Rel> : std::true_type
{};
}  // namespace stdb

// trivially copyable, but a new element is not all zero bits
struct Dfl
{
    int v = 7;
    Dfl() = default;
    Dfl(int x) : v(x) {}
    [[nodiscard]] int get() const { return v; }
};
template <int N>
struct Pod
{
    int v;
    unsigned char pad[N - 4];
    Pod() = default;
    Pod(int x) : v(x) { memset(pad, static_cast<int>(static_cast<unsigned>(x) * 3u & 255u), sizeof(pad)); }
    [[nodiscard]] int get() const {
        for (size_t i = 0; i < sizeof(pad); i += (N > 1000 ? 4099 : 1)) {
            if (pad[i] != static_cast<unsigned char>(static_cast<unsigned>(v) * 3u)) { return -99; }
        }
        return pad[N - 5] == static_cast<unsigned char>(static_cast<unsigned>(v) * 3u) ? v : -99;
    }
};

template <typename T>
int val(const T& t) {
    if constexpr (std::is_arithmetic_v<T>) {
        return static_cast<int>(t);
    } else {
        return t.get();
    }
}
#define ORDER(...)                                                                          \
    static bool operator==(const __VA_ARGS__& a, const __VA_ARGS__& b) { return val(a) == val(b); } \
    static bool operator!=(const __VA_ARGS__& a, const __VA_ARGS__& b) { return val(a) != val(b); } \
    static bool operator<(const __VA_ARGS__& a, const __VA_ARGS__& b) { return val(a) < val(b); }   \
    static bool operator>(const __VA_ARGS__& a, const __VA_ARGS__& b) { return val(a) > val(b); }
ORDER(Trk<K::Both>)
ORDER(Trk<K::MoveOnly>)
ORDER(Trk<K::CopyOnly>)
ORDER(Old)
ORDER(Rel)
ORDER(Dfl)
using Big = Pod<40>;
using Mid = Pod<3000>;
using Huge = Pod<200000>;
ORDER(Big)
ORDER(Mid)
ORDER(Huge)

// ------------------------------------------------------------- the runner
struct RunnerBase
{
    virtual ~RunnerBase() = default;
    virtual void op(const Op&, Emitter&) = 0;
    [[nodiscard]] virtual std::string look() const = 0;   // what constant operations show
    virtual void twin(bool on) = 0;                       // makes copies to be looked at, too
};

struct RawMem
{
    void* p;
    ~RawMem() { ::operator delete(p); }
};
template <typename T>
struct RawRange
{
    T* p;
    size_t n;
    ~RawRange() {
        for (size_t i = 0; i < n; ++i) { p[i].~T(); }
        ::operator delete(p);
    }
};

template <typename T>
struct Runner : RunnerBase
{
    using Vec = stdb_vector<T>;
    static constexpr bool kCopy = std::is_copy_constructible_v<T>;
    static constexpr bool kMove = std::is_move_constructible_v<T>;
    std::vector<std::unique_ptr<Vec>> sl;
    explicit Runner(long n) : sl(n + 1) {}

    static size_t filler(T* p) {
        if (p == nullptr && g_asks == 0 && !g_fill_u) {
            ++g_asks;
            return g_fill_n;
        }
        ++g_fills;
        g_fill_at = p;
        if constexpr (std::is_trivially_copyable_v<T>) {
            for (long i = 0; i < g_fill_n; ++i) { p[i] = T(static_cast<int>(g_fill_v[i])); }
        }
        return g_fill_m;
    }

    long live() {
        if constexpr (std::is_trivially_copyable_v<T>) {
            return 0;
        } else {
            long n = static_cast<long>(g_live.size());
            for (auto& p : sl) {
                if (p) { n -= static_cast<long>(p->size()); }
            }
            return n;
        }
    }

    // every way of looking at the elements must agree
    static bool agree(Vec& v) {
        const Vec& c = v;
        size_t n = v.size();
        bool ok = c.size() == n && v.empty() == (n == 0) && v.capacity() >= n && c.data() == v.data() && v.max_size() >= n;
        auto same = [&](size_t i, const T& t) { return &t == v.data() + i; };
        for (size_t i = 0; i < n && ok; ++i) {
            ok = same(i, v[i]) && same(i, c[i]) && same(i, v.at(i)) && same(i, c.at(i)) && same(i, *(v.begin() + i)) &&
                 same(i, c.begin()[i]) && same(i, *(v.end() - (n - i))) && same(i, v.rbegin()[n - 1 - i]) && same(i, *(c.cbegin() + i));
        }
        if (n > 0 && ok) {
            ok = same(0, v.front()) && same(0, c.front()) && same(n - 1, v.back()) && same(n - 1, c.back());
        }
        size_t i = 0;
        for (auto it = v.begin(); it != v.end() && ok; ++it, ++i) { ok = same(i, *it); }
        ok = ok && i == n;
        for (auto it = c.begin(); it != c.end() && ok; it++) { ok = same(n - i--, *it); }
        ok = ok && i == 0;
        for (auto it = c.crbegin(); it != c.crend() && ok; ++it) { ok = same(n - 1 - i++, *it); }
        ok = ok && i == n;
        for (auto it = v.rbegin(); it != v.rend() && ok; ++it) { ok = same(--i, *it); }
        ok = ok && i == 0;
        for (auto it = c.cend(); it != c.cbegin() && ok;) { --it, ok = same(n - 1 - i++, *it); }
        i = 0;
        for (auto it = v.end(); it != v.begin() && ok;) {
            auto was = it--;
            ok = was - it == 1 && it < was && was > it && it <= was && !(it >= was) && same(n - 1 - i++, *it);
        }
        ok = ok && i == n;
        i = 0;
        for (auto it = c.rbegin(); it != c.rend() && ok; it++) { ok = same(n - 1 - i++, *it); }
        ok = ok && i == n;
        for (size_t k = 0; k <= n && ok; ++k) {
            auto d = static_cast<std::ptrdiff_t>(k), r = static_cast<std::ptrdiff_t>(n - k);
            auto it = v.begin();
            it += d;
            auto ct = c.cend();
            ct -= r;
            typename Vec::const_iterator conv = it;
            ok = it == d + v.begin() && it == v.end() - r && ct == d + c.begin() && conv == ct && v.end() - it == r && it.operator->() == v.data() + k &&
                 (it <=> v.end()) == (k == n ? std::strong_ordering::equal : std::strong_ordering::less) && c.rend() - (c.rbegin() + d) == r &&
                 (k == n || (same(k, *conv) && same(k, c.cbegin()[k]) && same(n - 1 - k, c.crbegin()[d]) && same(n - 1 - k, *(c.crend() - r))));
        }
        return ok && v.end() - v.begin() == static_cast<std::ptrdiff_t>(n) && c.cend() - c.cbegin() == static_cast<std::ptrdiff_t>(n);
    }

    std::vector<std::unique_ptr<Vec>> twins;
    void twin(bool on) override {
        twins.clear();
        if constexpr (kCopy) {
            if (on) {
                for (const auto& p : sl) {
                    if (p && p->size() < 100) { twins.push_back(std::make_unique<Vec>(static_cast<const Vec&>(*p))); }
                }
            }
        }
    }

    [[nodiscard]] std::string look() const override {
        std::string out;
        std::vector<const Vec*> all;
        for (const auto& p : sl) { all.push_back(p.get()); }
        for (const auto& p : twins) { all.push_back(p.get()); }
        for (const Vec* p : all) {
            if (p == nullptr) {
                out += "-;";
                continue;
            }
            const Vec& c = *p;
            out += std::to_string(c.size()) + "," + std::to_string(c.capacity()) + "," + std::to_string(int(c.empty())) + ":";
            for (const T& t : c) { out += std::to_string(val(t)) + ","; }
            for (auto it = c.rbegin(); it != c.rend(); ++it) { out += std::to_string(val(*it)) + ","; }
            for (size_t i = 0; i < c.size(); ++i) { out += std::to_string(val(c[i])) + "," + std::to_string(val(c.at(i))) + "," + std::to_string(val(c.data()[i])) + ","; }
            if (!c.empty()) { out += std::to_string(val(c.front())) + "," + std::to_string(val(c.back())); }
            if constexpr (kCopy) {
                if (c.size() < 100) {
                    Vec w(c);
                    Vec r(c.begin(), c.end());
                    for (const T& t : w) { out += std::to_string(val(t)) + ","; }
                    for (const T& t : r) { out += std::to_string(val(t)) + ","; }
                }
            }
            for (const Vec* q : all) {
                if (q != nullptr) {
                    const Vec& d = *q;
                    out += std::to_string(int(c == d)) + std::to_string(int(c != d)) + std::to_string(int(c < d)) + std::to_string(int(c > d)) + std::to_string(int(c <= d)) + std::to_string(int(c >= d));
                }
            }
            out += ";";
        }
        return out;
    }

    static std::vector<int> ints(const std::vector<long>& v) { return {v.begin(), v.end()}; }

    // call f(first, last) with a range of the given kind holding vs
    template <typename F>
    void with_range(const std::string& kind, const std::vector<long>& vs, F&& f) {
        std::vector<int> src = ints(vs);
        if constexpr (kCopy) {
            if (kind == "vec" || kind == "cvec" || kind == "rvec") {
                Vec tmp;
                if (kind == "rvec") {
                    for (size_t i = src.size(); i-- > 0;) { tmp.emplace_back(static_cast<int>(src[i])); }
                    f(tmp.rbegin(), tmp.rend());
                } else {
                    for (int x : src) { tmp.emplace_back(static_cast<int>(x)); }
                    if (kind == "vec") {
                        f(tmp.begin(), tmp.end());
                    } else {
                        f(tmp.cbegin(), tmp.cend());
                    }
                }
                return;
            }
            if (kind == "lst") {
                std::list<T> tmp;
                for (int x : src) { tmp.emplace_back(x); }
                f(tmp.begin(), tmp.end());
                return;
            }
            if (kind == "dq") {
                std::deque<T> tmp;
                for (int i = 0; i < 5; ++i) { tmp.emplace_back(99); }
                for (int i = 0; i < 5; ++i) { tmp.pop_front(); }
                for (int x : src) { tmp.emplace_back(x); }
                f(tmp.begin(), tmp.end());
                return;
            }
            if (kind == "rev" || kind == "ptr" || kind == "arr") {
                // exactly as many elements as the range: reading beyond is an error
                T* tmp = static_cast<T*>(::operator new(sizeof(T) * src.size() + 1));
                for (size_t i = 0; i < src.size(); ++i) { new (tmp + i) T(static_cast<int>(src[kind == "rev" ? src.size() - 1 - i : i])); }
                RawRange<T> guard{tmp, src.size()};
                if (kind == "rev") {
                    f(std::make_reverse_iterator(tmp + src.size()), std::make_reverse_iterator(tmp));
                } else {
                    f(static_cast<const T*>(tmp), static_cast<const T*>(tmp + src.size()));
                }
                return;
            }
            if (kind == "fwd") {
                std::forward_list<T> tmp;
                for (size_t i = src.size(); i-- > 0;) { tmp.emplace_front(src[i]); }
                f(tmp.begin(), tmp.end());
                return;
            }
        }
        if (kind == "set") {  // ordered source: only used with ascending values
            std::multiset<int> tmp(src.begin(), src.end());
            std::vector<int> order(tmp.begin(), tmp.end());
            if (order == src) {
                f(tmp.begin(), tmp.end());
                return;
            }
        }
        if (kind == "flt") {  // another representation, where possible of the same size
            using Flt = std::conditional_t<sizeof(T) == 8, double, float>;
            if constexpr (std::is_constructible_v<T, Flt>) {
                std::vector<Flt> other(src.begin(), src.end());
                f(other.data(), other.data() + other.size());
                return;
            }
        }
        if constexpr (sizeof(T) == 4) {
            std::vector<long> other(src.begin(), src.end());
            f(other.data(), other.data() + other.size());
        } else {
            f(src.data(), src.data() + src.size());
        }
    }
    template <typename F>
    void with_il(const std::vector<long>& vs, F&& f) {
        if constexpr (kCopy) {
            auto x = [&](size_t i) { return T(static_cast<int>(vs[i])); };
            switch (vs.size()) {
                case 0: f(std::initializer_list<T>{}); break;
                case 1: f(std::initializer_list<T>{x(0)}); break;
                case 2: f(std::initializer_list<T>{x(0), x(1)}); break;
                case 3: f(std::initializer_list<T>{x(0), x(1), x(2)}); break;
                case 5: f(std::initializer_list<T>{x(0), x(1), x(2), x(3), x(4)}); break;
                default: {
                    std::list<T> keep;
                    for (size_t i = 0; i < vs.size(); ++i) { keep.emplace_back(static_cast<int>(vs[i])); }
                    f(keep);
                }
            }
        }
    }

    static size_t huge(long n, long sh) {
        size_t k = static_cast<size_t>(n < 0 ? -n : n);
        if (sh == 1) { return size_t(0) - k; }
        if (sizeof(T) == 1) { return size_t(-1) - 100 - k; }
        if (sh == 2) { return SIZE_MAX / sizeof(T) + k; }
        return static_cast<size_t>(PTRDIFF_MAX) / sizeof(T) + k;
    }

    // the model's capacities differ from the real ones, so a failure may hit another operation
    // than in the model: what then no longer fits the vectors is left out
    bool fits(const Op& o) {
        static const std::set<std::string> makes = {"ctor0", "ctorn", "ctornv", "ctorr", "copyctor", "movector"};
        if (!o.has("a")) { return true; }
        bool made = sl[o.num("a")] != nullptr;
        if (makes.count(o.name) != 0) { return !made && (!o.has("b") || sl[o.num("b")]); }
        if (!made || (o.has("b") && !sl[o.num("b")])) { return false; }
        auto size = static_cast<long>(sl[o.num("a")]->size());
        if (o.num("p") > size || o.num("q") > size) { return false; }
        if (o.has("i") && o.num("i") >= size) { return false; }
        if ((o.name == "er" || o.name == "set") && o.num("p") >= size) { return false; }
        return o.name != "pop" || size > 0;
    }

    void op(const Op& given, Emitter& em) override {
        Op o = given;
        if (!fits(o)) {
            o.json = "{\"op\":\"skip\"," + given.json.substr(given.json.rfind("\"id\":"));
            o.name = "skip";
        }
        if (o.name == "end" || o.name == "skip") {
            long lt0 = g_lt;
            if (o.name == "end") {
                for (auto& p : sl) { p.reset(); }
            }
            em.line(o, "\"lt\":" + std::to_string(g_lt - lt0) + ",\"leak\":" + std::to_string(live()));
            return;
        }
        const long a = o.num("a"), b = o.num("b"), p = o.num("p"), q = o.num("q"), i = o.num("i"), m = o.num("m");
        const int x = static_cast<int>(o.num("x"));
        size_t n = static_cast<size_t>(o.num("n"));
        if (o.num("hg") != 0) { n = huge(o.num("n"), o.num("sh")); }
        bool u = o.num("u") != 0;
        std::vector<const void*> data0(sl.size());
        for (size_t k = 1; k < sl.size(); ++k) { data0[k] = sl[k] ? sl[k]->data() : nullptr; }
        long lt0 = g_lt, ret = -1;
        bool exc = false;
        std::string extra;
        g_failed = false;
        auto idx = [&](auto it) { return static_cast<long>(it.operator->() - sl[a]->data()); };
        // anything the driver itself allocates must not be made to fail: arm just before the call
        const long fa = o.num("fa");
        auto arm = [&] { g_fail = static_cast<int>(fa); };
        auto vs = o.list("vs");
        try {
            std::string nm = o.name;
            Vec* v = a > 0 && sl[a] ? sl[a].get() : nullptr;
            if (u && v != nullptr) {
                size_t need = nm == "insr" || nm == "wbuf" ? vs.size() : (nm == "insn" || nm == "insna" || nm == "fill" ? n : 1);
                if (v->size() + need > v->capacity()) { u = false; }
            }
            auto place = [&](auto mk) {
                void* mem = ::operator new(sizeof(Vec));
                RawMem guard{mem};
                arm();
                Vec* made = mk(mem);
                guard.p = nullptr;
                sl[a].reset(made);
            };
            if (nm == "ctor0") {
                place([&](void* at) { return new (at) Vec(); });
            } else if (nm == "ctorn") {
                place([&](void* at) { return new (at) Vec(n); });
            } else if (nm == "movector") {
                place([&](void* at) { return new (at) Vec(std::move(*sl[b])); });
                extra += std::string(",\"took\":") + (sl[a]->data() == data0[b] ? "1" : "0");
            } else if (nm == "destroy") {
                sl[a].reset();
            } else if (nm == "moveas") {
                arm();
                *v = std::move(*sl[b]);
                extra += std::string(",\"took\":") + (sl[a]->data() == data0[b] ? "1" : "0");
            } else if (nm == "swap") {
                arm();
                if (o.num("s") != 0) {
                    std::swap(*v, *sl[b]);
                } else {
                    v->swap(*sl[b]);
                }
                extra += std::string(",\"took\":") + (sl[a]->data() == data0[b] && sl[b]->data() == data0[a] ? "1" : "0");
            } else if (nm == "eback") {
                arm();
                ret = u ? idx(v->template emplace_back<Safety::Unsafe>(x)) : idx(v->emplace_back(x));
            } else if (nm == "empl") {
                arm();
                ret = u ? idx(v->template emplace<Safety::Unsafe>(v->begin() + p, x)) : idx(v->emplace(v->begin() + p, x));
            } else if (nm == "empi") {
                arm();
                ret = u ? idx(v->template emplace<Safety::Unsafe>(size_t(p), x)) : idx(v->emplace(size_t(p), x));
            } else if (nm == "er") {
                ret = o.num("c") != 0 ? idx(v->erase(v->cbegin() + p)) : idx(v->erase(v->begin() + p));
            } else if (nm == "err") {
                ret = o.num("c") != 0 ? idx(v->erase(v->cbegin() + p, v->cbegin() + q)) : idx(v->erase(v->begin() + p, v->begin() + q));
            } else if (nm == "erv") {
                T t(x);
                ret = static_cast<long>(o.num("s") != 0 ? std::erase(*v, t) : v->erase(t));
            } else if (nm == "erif") {
                auto pred = [x](const T& t) { return val(t) < x; };
                ret = static_cast<long>(o.num("s") != 0 ? std::erase_if(*v, pred) : v->erase_if(pred));
            } else if (nm == "set") {
                set(*v, static_cast<size_t>(p), x, o.num("h"));
            } else if (nm == "sort" || nm == "rev" || nm == "rot") {
                if constexpr (std::is_move_assignable_v<T> && kMove) {
                    if (nm == "rot") {
                        std::rotate(v->begin(), v->begin() + p, v->end());
                    } else if (nm == "rev") {
                        o.num("h") == 0 ? std::reverse(v->begin(), v->end()) : std::reverse(v->rbegin(), v->rend());
                    } else if (o.num("h") == 0) {
                        std::sort(v->begin(), v->end());
                    } else {
                        std::sort(v->rbegin(), v->rend(), [](const T& l, const T& r) { return val(l) > val(r); });
                    }
                } else {
                    abort();
                }
            } else if (nm == "rszu") {
                if constexpr (std::is_trivially_copyable_v<T>) {
                    size_t s0 = v->size();
                    arm();
                    v->template resize<Safety::Unsafe>(n);
                    for (size_t k = s0; k < v->size() && k - s0 < vs.size(); ++k) { v->data()[k] = T(static_cast<int>(vs[k - s0])); }
                }
            } else if (nm == "pop") {
                v->pop_back();
            } else if (nm == "rsz") {
                arm();
                v->resize(n);
            } else if (nm == "resv") {
                arm();
                v->reserve(n);
            } else if (nm == "shrink") {
                arm();
                v->shrink_to_fit();
            } else if (nm == "clear") {
                v->clear();
            } else if (nm == "cmp") {
                const Vec &l = *v, &r = *sl[b];
                bool c[6] = {l == r, l != r, l < r, l <= r, l > r, l >= r};
                extra += ",\"c\":[";
                for (int k = 0; k < 6; ++k) { extra += std::string(k ? "," : "") + (c[k] ? "1" : "0"); }
                extra += "]";
            } else if (nm == "grow") {
                grow(o, extra);
            } else if (nm == "pushm" || nm == "insm") {
                if constexpr (kMove) {
                    T t(x);
                    arm();
                    if (nm == "pushm") {
                        u ? v->template push_back<Safety::Unsafe>(std::move(t)) : v->push_back(std::move(t));
                    } else {
                        ret = u ? idx(v->template insert<Safety::Unsafe>(v->cbegin() + p, std::move(t))) : idx(v->insert(v->cbegin() + p, std::move(t)));
                    }
                } else {
                    abort();
                }
            } else if (nm == "ctorr" || nm == "assignr" || nm == "insr") {
                ranges(o, nm, v, a, p, u, vs, arm, place, ret, idx);
            } else if (nm == "wbuf") {
                if constexpr (std::is_trivially_copyable_v<T>) {
                    size_t s0 = v->size();
                    arm();
                    auto span = u ? v->template get_writebuffer<Safety::Unsafe>(n) : v->get_writebuffer(n);
                    extra += ",\"bsz\":" + std::to_string(enc(span.size())) + ",\"boff\":" + std::to_string(span.data() - v->data());
                    (void)s0;
                    for (size_t k = 0; k < span.size() && k < vs.size(); ++k) { span[k] = T(static_cast<int>(vs[k])); }
                }
            } else if (nm == "fill") {
                if constexpr (std::is_trivially_copyable_v<T>) {
                    g_fill_n = static_cast<long>(n);
                    g_fill_m = m;
                    g_fill_u = u;
                    g_fill_v = vs;
                    g_asks = g_fills = 0;
                    g_fill_at = nullptr;
                    arm();
                    u ? v->template fill<Safety::Unsafe>(&filler) : v->fill(&filler);
                    extra += ",\"asks\":" + std::to_string(g_asks) + ",\"fills\":" + std::to_string(g_fills) +
                             ",\"boff\":" + std::to_string(static_cast<T*>(g_fill_at) - v->data());
                }
            } else {
                if constexpr (kCopy) {
                    copies(o, nm, v, a, b, p, i, n, x, u, arm, place, ret, idx);
                } else {
                    abort();
                }
            }
        } catch (const std::bad_alloc&) { exc = true; }
        g_fail = 0;
        if (exc && extra.empty()) {
            if (o.name == "wbuf") { extra = ",\"bsz\":0,\"boff\":0"; }
            if (o.name == "fill") { extra = ",\"asks\":0,\"fills\":0,\"boff\":0"; }
            if (o.name == "movector" || o.name == "moveas" || o.name == "swap") { extra = ",\"took\":0"; }
        }
        bool acc = true;
        std::string s = "\"sl\":[";
        for (size_t k = 1; k < sl.size(); ++k) {
            if (k > 1) { s += ","; }
            if (!sl[k]) {
                s += "{\"l\":0,\"v\":[],\"cap\":0,\"mv\":0}";
                continue;
            }
            Vec& w = *sl[k];
            acc = acc && agree(w);
            s += "{\"l\":1,\"v\":[";
            for (size_t j = 0; j < w.size() && j < 400; ++j) { s += (j ? "," : "") + std::to_string(val(w.data()[j])); }
            s += "],\"cap\":" + std::to_string(enc(w.capacity())) + ",\"mv\":" + (w.data() != data0[k] ? "1" : "0") + "}";
        }
        s += "],\"exc\":" + std::to_string(exc) + ",\"af\":" + std::to_string(g_failed) + ",\"acc\":" + std::to_string(acc) +
             ",\"lt\":" + std::to_string(g_lt - lt0) + ",\"leak\":" + std::to_string(live()) + ",\"ret\":" + std::to_string(ret) + extra;
        em.line(o, s);
    }

    template <typename Arm, typename Place, typename Idx>
    void ranges(const Op& o, const std::string& nm, Vec* v, long a, long p, bool u, const std::vector<long>& vs, Arm& arm, Place& place, long& ret, Idx& idx) {
        auto use = [&](auto first, auto last) {
            if (nm == "ctorr") {
                place([&](void* at) { return new (at) Vec(first, last); });
            } else if (nm == "assignr") {
                arm();
                v->assign(first, last);
            } else {
                arm();
                ret = u ? idx(v->template insert<Safety::Unsafe>(v->cbegin() + p, first, last)) : idx(v->insert(v->cbegin() + p, first, last));
            }
            g_fail = 0;
        };
        if (o.str("k") == "il") {
            with_il(vs, [&](const auto& il) {
                if constexpr (std::is_same_v<std::remove_cvref_t<decltype(il)>, std::initializer_list<T>>) {
                    if (nm == "ctorr") {
                        place([&](void* at) { return new (at) Vec(il); });
                    } else if (nm == "assignr") {
                        arm();
                        v->assign(il);
                    } else {
                        arm();
                        ret = u ? idx(v->template insert<Safety::Unsafe>(v->cbegin() + p, il)) : idx(v->insert(v->cbegin() + p, il));
                    }
                    g_fail = 0;
                } else {
                    use(il.begin(), il.end());
                }
            });
        } else {
            with_range(o.str("k"), vs, use);
        }
    }

    template <typename Arm, typename Place, typename Idx>
    void copies(const Op& o, const std::string& nm, Vec* v, long a, long b, long p, long i, size_t n, int x, bool u, Arm& arm, Place& place, long& ret, Idx& idx) {
        if (nm == "ctornv") {
            T t(x);
            place([&](void* at) { return new (at) Vec(n, t); });
        } else if (nm == "copyctor") {
            place([&](void* at) { return new (at) Vec(*sl[b]); });
        } else if (nm == "copyas") {
            arm();
            *v = *sl[b];
        } else if (nm == "assignn") {
            T t(x);
            arm();
            v->assign(n, t);
        } else if (nm == "push") {
            const T t(x);
            arm();
            u ? v->template push_back<Safety::Unsafe>(t) : v->push_back(t);
        } else if (nm == "ins") {
            const T t(x);
            arm();
            ret = u ? idx(v->template insert<Safety::Unsafe>(v->cbegin() + p, t)) : idx(v->insert(v->cbegin() + p, t));
        } else if (nm == "insn") {
            const T t(x);
            arm();
            ret = u ? idx(v->template insert<Safety::Unsafe>(v->cbegin() + p, n, t)) : idx(v->insert(v->cbegin() + p, n, t));
        } else if (nm == "rszv") {
            const T t(x);
            arm();
            v->resize(n, t);
        } else {
            const T& own = (*v)[i];
            arm();
            if (nm == "pusha") {
                u ? v->template push_back<Safety::Unsafe>(own) : v->push_back(own);
            } else if (nm == "ebacka") {
                ret = u ? idx(v->template emplace_back<Safety::Unsafe>(own)) : idx(v->emplace_back(own));
            } else if (nm == "insa") {
                ret = u ? idx(v->template insert<Safety::Unsafe>(v->cbegin() + p, own)) : idx(v->insert(v->cbegin() + p, own));
            } else if (nm == "insna") {
                ret = u ? idx(v->template insert<Safety::Unsafe>(v->cbegin() + p, n, own)) : idx(v->insert(v->cbegin() + p, n, own));
            } else if (nm == "empla") {
                ret = u ? idx(v->template emplace<Safety::Unsafe>(v->begin() + p, own)) : idx(v->emplace(v->begin() + p, own));
            } else if (nm == "empia") {
                ret = u ? idx(v->template emplace<Safety::Unsafe>(size_t(p), own)) : idx(v->emplace(size_t(p), own));
            } else if (nm == "rsza") {
                v->resize(n, own);
            } else if (nm == "assna") {
                v->assign(n, own);
            } else {
                fprintf(stderr, "unknown op %s\n", nm.c_str());
                abort();
            }
        }
    }

    static void set(Vec& v, size_t p, int x, long h) {
        size_t n = v.size();
        auto put = [x](T& at) {
            if constexpr (std::is_move_assignable_v<T>) {
                at = T(x);
            } else {
                T t(x);
                at = t;
            }
        };
        switch (h) {
            case 0: put(v[p]); break;
            case 1: put(v.at(p)); break;
            case 2: put(v.data()[p]); break;
            case 3: put(*(v.begin() + static_cast<std::ptrdiff_t>(p))); break;
            case 4: put(v.begin()[p]); break;
            case 5: put(*(v.rbegin() + static_cast<std::ptrdiff_t>(n - 1 - p))); break;
            case 6: put(p == 0 ? v.front() : p == n - 1 ? v.back() : v[p]); break;
            case 7: {
                auto it = v.end();
                it -= static_cast<std::ptrdiff_t>(n - p);
                put(*it);
                break;
            }
            default: {
                size_t k = 0;
                for (T& t : v) {
                    if (k++ == p) { put(t); }
                }
            }
        }
    }

    // a fresh vector filled one element at a time: the capacities it goes through
    void grow(const Op& o, std::string& extra) {
        Vec w;
        long n = o.num("n");
        if (sizeof(T) > 1000) { n = n > 40 ? 40 : n; }
        if (o.num("r") > 0) { w.reserve(static_cast<size_t>(o.num("r"))); }
        extra += ",\"caps\":[" + std::to_string(w.capacity());
        long early = 0;
        size_t cap = w.capacity();
        const void* d = w.data();
        for (long k = 0; k < n; ++k) {
            bool full = w.size() == w.capacity();
            w.emplace_back(static_cast<int>(k % 100));
            if (!full && (w.data() != d || w.capacity() != cap)) { ++early; }
            if (w.capacity() != cap) { extra += "," + std::to_string(w.capacity()); }
            cap = w.capacity();
            d = w.data();
        }
        bool ok = w.size() == static_cast<size_t>(n);
        for (long k = 0; k < n && ok; ++k) { ok = val(w[k]) == k % 100; }
        extra += "],\"early\":" + std::to_string(early) + ",\"ok\":" + (ok ? "1" : "0");
    }
};


template <typename T>
RunnerBase* make(long ns, size_t& sz) {
    sz = sizeof(T);
    return new Runner<T>(ns);
}
using Ty_int = int;
using Ty_chr = signed char;
using Ty_i64 = int64_t;
using Ty_big = Big;
using Ty_mid = Mid;
using Ty_huge = Huge;
using Ty_trk = Trk<K::Both>;
using Ty_mvo = Trk<K::MoveOnly>;
using Ty_cpo = Trk<K::CopyOnly>;
using Ty_old = Old;
using Ty_rel = Rel;
using Ty_dfl = Dfl;
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

#ifdef TY
RunnerBase* CAT(make_, TY)(long ns, size_t& sz) { return make<CAT(Ty_, TY)>(ns, sz); }
#endif

#ifdef MAIN
Lane main_lane;
thread_local Lane* L = &main_lane;
Lane::Lane() = default;
Lane::~Lane() = default;

extern "C" void* __real_malloc(size_t n);
extern "C" void* __wrap_malloc(size_t n) {
    if (g_fail > 0 && --g_fail == 0) {
        g_failed = true;
        return nullptr;
    }
    return __real_malloc(n);
}

using Maker = RunnerBase* (*)(long, size_t&);
#define DECL(t) __attribute__((weak)) RunnerBase* make_##t(long, size_t&);
DECL(int) DECL(chr) DECL(i64) DECL(big) DECL(mid) DECL(huge) DECL(trk) DECL(mvo) DECL(cpo) DECL(old) DECL(rel) DECL(dfl)

int main(int argc, char** argv) {
    const std::map<std::string, Maker> makers = {{"int", make_int}, {"chr", make_chr}, {"i64", make_i64}, {"big", make_big}, {"mid", make_mid}, {"huge", make_huge},
                                                 {"trk", make_trk}, {"mvo", make_mvo}, {"cpo", make_cpo}, {"old", make_old}, {"rel", make_rel}, {"dfl", make_dfl}};
    auto handle = [&](const Op& o, Emitter& em) {
        if (o.name == "begin") {
            L->r.reset();
            g_live.clear();
            g_lt = 0;
            size_t sz = 0;
            Maker mk = makers.at(o.str("ty"));
            if (mk == nullptr) { abort(); }
            L->r.reset(mk(o.num("ns"), sz));
            em.line(o, "\"isz\":" + std::to_string(sz >= 64 ? 1 : 64 / sz) + ",\"big\":" + std::to_string(sz > 65536 ? 1 : 0) + ",\"dv\":" + (o.str("ty") == "dfl" ? "7" : "0"));
            return;
        }
        L->r->op(o, em);
    };
    if (argc > 1 && std::string(argv[1]) == "--par") {
        static Lane lanes[8];
        return run_par(argc, argv, [](int w) { L = &lanes[w]; }, handle, [](int w) -> std::string {
            static thread_local Lane scratch;
            L = &scratch;
            scratch.live = {};
            return lanes[w].r ? lanes[w].r->look() : "";
        }, [](int w, bool on) {
            static thread_local Lane scratch;
            L = &scratch;
            if (lanes[w].r) { lanes[w].r->twin(on); }
        });
    }
    int rc = run_script(argc, argv, handle);
    main_lane.r.reset();
    return rc;
}
#endif
