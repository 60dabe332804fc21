// Executes arena operations with the metrics probes installed, in several threads, and records the tables.
// With -DVSCHED the shared counters are instrumented (vatomic.hpp) and concurrent events follow a given schedule.
#include <pthread.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "arena/metrics.hpp"
#include "common.hpp"

using namespace stdb::memory;

// ------------------------------------------------------------------ the clock
static std::atomic<long> clock_ms{0};
namespace std::chrono {
steady_clock::time_point steady_clock::now() noexcept { return time_point(std::chrono::milliseconds(1000000 + clock_ms.load())); }
}  // namespace std::chrono

// ---------------------------------------------------------- watching a cookie
static thread_local void* watched = nullptr;
static thread_local int freed = 0;
#if __has_feature(thread_sanitizer)
constexpr bool kWatch = false;
#else
constexpr bool kWatch = true;
void* operator new(size_t n) {
    void* p = std::malloc(n == 0 ? 1 : n);
    if (p == nullptr) { throw std::bad_alloc(); }
    return p;
}
void operator delete(void* p) noexcept {
    if (p != nullptr && p == watched) { ++freed; }
    std::free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
#endif

// -------------------------------------------------------------- the scheduler
#ifdef VSCHED
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
}
namespace sched {
pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
bool on = false;
enum { Ready, Blocked, Done };
std::vector<int> state;                    // by thread, 1-based
std::deque<std::pair<int, long>> plan;
int cur = 0;
long left = 0;
bool beyond = false;
thread_local int self = 0;                 // 0: not scheduled
void pick() {                              // m is held
    while (!plan.empty()) {
        auto [t, n] = plan.front();
        plan.pop_front();
        if (t < static_cast<int>(state.size()) && state[t] == Ready && n > 0) {
            cur = t;
            left = n;
            return;
        }
    }
    left = 3000;                           // beyond the plan: run on, but let nobody spin forever
    if (!beyond && cur > 0 && state[cur] == Ready) {
        beyond = true;
        return;
    }
    beyond = true;
    for (size_t i = 1; i < state.size(); ++i) {
        size_t t = (static_cast<size_t>(cur) - 1 + i) % (state.size() - 1) + 1;
        if (state[t] == Ready) {
            cur = static_cast<int>(t);
            return;
        }
    }
    bool waiting = false;
    for (size_t t = 1; t < state.size(); ++t) { waiting = waiting || state[t] == Blocked; }
    if (waiting) { fprintf(stderr, "ERROR: metrics: deadlock\n"); _exit(97); }
    cur = 0;
}
void wait_turn() {
    while (on && cur != self) { pthread_cond_wait(&cv, &m); }
}
void point() {
    if (self == 0) { return; }
    __real_pthread_mutex_lock(&m);
    if (--left <= 0) {
        pick();
        pthread_cond_broadcast(&cv);
    }
    wait_turn();
    __real_pthread_mutex_unlock(&m);
}
template <typename F>
int locking(F&& attempt) {
    for (;;) {
        point();
        if (attempt() == 0) {
            point();
            return 0;
        }
        __real_pthread_mutex_lock(&m);
        state[self] = Blocked;
        pick();
        pthread_cond_broadcast(&cv);
        wait_turn();
        __real_pthread_mutex_unlock(&m);
    }
}
void unlocked() {
    if (self == 0) { return; }
    __real_pthread_mutex_lock(&m);
    for (auto& s : state) {
        if (s == Blocked) { s = Ready; }
    }
    __real_pthread_mutex_unlock(&m);
    point();
}
void enter(int t) {
    self = t;
    __real_pthread_mutex_lock(&m);
    wait_turn();
    __real_pthread_mutex_unlock(&m);
}
void leave() {
    __real_pthread_mutex_lock(&m);
    state[self] = Done;
    pick();
    pthread_cond_broadcast(&cv);
    __real_pthread_mutex_unlock(&m);
    self = 0;
}
}  // namespace sched
void verif_point() { sched::point(); }
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* x) {
    return sched::self == 0 ? __real_pthread_mutex_lock(x) : sched::locking([x] { return pthread_mutex_trylock(x); });
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* x) {
    int r = __real_pthread_mutex_unlock(x);
    sched::unlocked();
    return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* x) {
    return sched::self == 0 ? __real_pthread_rwlock_wrlock(x) : sched::locking([x] { return pthread_rwlock_trywrlock(x); });
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* x) {
    return sched::self == 0 ? __real_pthread_rwlock_rdlock(x) : sched::locking([x] { return pthread_rwlock_tryrdlock(x); });
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* x) {
    int r = __real_pthread_rwlock_unlock(x);
    sched::unlocked();
    return r;
}
}
#else
namespace sched {
static void enter(int) {}
static void leave() {}
}  // namespace sched
void verif_point() {}
#endif

// ----------------------------------------------------------------- the threads
namespace {
struct Worker
{
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false, stop = false;
    std::thread th;
    Worker() {
        th = std::thread([this] {
            for (;;) {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [this] { return busy || stop; });
                if (stop) { return; }
                auto j = std::move(job);
                l.unlock();
                j();
                l.lock();
                busy = false;
                cv.notify_all();
            }
        });
    }
    ~Worker() {
        {
            std::lock_guard<std::mutex> l(m);
            stop = true;
            cv.notify_all();
        }
        th.join();
    }
    void start(std::function<void()> f) {
        std::lock_guard<std::mutex> l(m);
        job = std::move(f);
        busy = true;
        cv.notify_all();
    }
    void join() {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [this] { return !busy; });
    }
    void run(std::function<void()> f) {
        start(std::move(f));
        join();
    }
};
std::vector<std::unique_ptr<Worker>> ws;
std::vector<std::unique_ptr<Arena>> arenas;
std::vector<std::string> fx;
std::string site;

std::string unesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else {
            r += s[i];
        }
    }
    return r;
}
std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; }
        if (c == '\n') {
            r += "\\n";
        } else {
            r += c;
        }
    }
    return r + "\"";
}
// a place "file:line" as the arena would know it
boost::source_location place(const std::string& s) {
    static std::mutex m;
    static std::set<std::string> files;
    std::lock_guard<std::mutex> l(m);
    auto c = s.rfind(':');
    auto it = files.insert(s.substr(0, c)).first;
    return {it->c_str(), static_cast<boost::uint_least32_t>(std::stoul(s.substr(c + 1))), "f"};
}
std::string num(const char* k, uint64_t v) { return ",\"" + std::string(k) + "\":" + std::to_string(enc(v)); }
void push(const char* k, const std::string& rest) { fx.push_back("{\"k\":\"" + std::string(k) + "\"" + rest + "}"); }

void* h_init(Arena* a, const boost::source_location&) {
    push("oi", "");
    return metrics_probe_on_arena_init(a, place(site));
}
void h_alloc(const std::type_info* ty, uint64_t n, void* c) {
    push("oa", num("n", n));
    metrics_probe_on_arena_allocation(ty, n, c);
}
void h_block(uint64_t bn, uint64_t n, void* c) {
    push("nb", "");
    metrics_probe_on_arena_newblock(bn, n, c);
}
void h_reset(Arena* a, void* c, uint64_t u, uint64_t w) {
    push("or", num("u", u) + num("w", w));
    metrics_probe_on_arena_reset(a, c, u, w);
}
void* h_destroy(Arena* a, void* c, uint64_t u, uint64_t w) {
    watched = c;
    freed = 0;
    void* r = metrics_probe_on_arena_destruction(a, c, u, w);
    watched = nullptr;
    push("od", num("u", u) + num("w", w) + num("fr", (freed == 1 || !kWatch) && r == nullptr ? 1 : 0));
    return r;
}
struct Obj { long a[3]; };

// a direct call, written k|n|s|u|w|life
struct Call { std::string k, s; uint64_t n, u, w; long life; boost::source_location at; };
Call call_of(const std::string& t) {
    std::stringstream ss(unesc(t));
    std::string f[6];
    for (auto& x : f) { std::getline(ss, x, '|'); }
    auto n = [](const std::string& x) { return x.empty() ? 0UL : std::stoul(x); };
    return {f[0], f[2], n(f[1]), n(f[3]), n(f[4]), static_cast<long>(n(f[5])), place(f[2].empty() ? "x.cc:1" : f[2])};
}
std::vector<std::string> split(const std::string& s, char d) {
    std::vector<std::string> r;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, d)) { r.push_back(x); }
    return r;
}
uint64_t scale = 1;                        // histories with big numbers: every amount is multiplied by this
int perform(Call c) {
    c.n *= c.k == "lf" ? 1 : scale;
    c.u *= scale;
    c.w *= scale;
    using std::chrono::milliseconds;
    if (c.k == "oi") {
        auto* k = static_cast<ArenaMetricsCookie*>(metrics_probe_on_arena_init(nullptr, c.at));
        delete k;
    } else if (c.k == "oa") {
        ArenaMetricsCookie k(std::chrono::steady_clock::now(), c.at);
        metrics_probe_on_arena_allocation(nullptr, c.n, &k);
    } else if (c.k == "nb") {
        metrics_probe_on_arena_newblock(1, 4096, nullptr);
    } else if (c.k == "or") {
        metrics_probe_on_arena_reset(nullptr, nullptr, c.u, c.w);
    } else if (c.k == "od") {
        auto* k = new ArenaMetricsCookie(std::chrono::steady_clock::now() - milliseconds(c.life), c.at);
        watched = k;
        freed = 0;
        void* r = metrics_probe_on_arena_destruction(nullptr, k, c.u, c.w);
        watched = nullptr;
        return (freed == 1 || !kWatch) && r == nullptr ? 1 : 0;
    } else if (c.k == "sz") {
        local_arena_metrics.increase_alloc_size_counter(c.n);
    } else if (c.k == "lf") {
        local_arena_metrics.increase_destruct_lifetime_counter(milliseconds(c.n));
    } else if (c.k == "lc") {
        local_arena_metrics.increase_arena_alloc_counter(c.at, c.n);
    }
    return 1;
}

template <typename M>
std::string table(const M& m) {
    auto v = [](const char* k, uint64_t x) { return "\"" + std::string(k) + "\":" + std::to_string(enc(x)) + ","; };
    auto down = [](uint64_t x) { return x % scale == 0 ? x / scale : ~0UL; };
    std::string r = "{" + v("ic", m.init_count) + v("dc", m.destruct_count) + v("ac", m.alloc_count) + v("nb", m.newblock_count) + v("rc", m.reset_count) +
                    v("sa", down(m.space_allocated)) + v("sr", down(m.space_resettled)) + v("su", down(m.space_used)) + v("sw", down(m.space_wasted));
    auto arr = [](const char* k, const auto& a) {
        std::string s;
        for (const auto& x : a) { s += (s.empty() ? "" : ",") + std::to_string(enc(static_cast<uint64_t>(x))); }
        return "\"" + std::string(k) + "\":[" + s + "],";
    };
    r += arr("ab", m.alloc_size_bucket_counter) + arr("lb", m.destruct_lifetime_bucket_counter);
    std::string loc;
    for (const auto& [k, x] : m.arena_alloc_counter) { loc += (loc.empty() ? "" : ",") + js(k) + ":" + std::to_string(enc(down(static_cast<uint64_t>(x)))); }
    return r + "\"loc\":{" + loc + "}}";
}
std::string tables() {
    std::string lm;
    for (auto& w : ws) {
        std::string t;
        w->run([&] { t = table(local_arena_metrics); });
        lm += (lm.empty() ? "" : ",") + t;
    }
    return "\"lm\":[" + lm + "],\"gm\":" + table(global_arena_metrics);
}
// a rendered text: everything up to the places, and the places
std::string rendered(const std::string& t, const char* head, const char* places) {
    static const std::string mark = "\nArena Location/AllocSize:";
    auto i = t.find(mark);
    std::string a = t.substr(0, i == std::string::npos ? t.size() : i + mark.size()), b;
    if (i != std::string::npos) {
        for (auto& l : split(t.substr(i + mark.size()), '\n')) {
            if (l.empty()) { continue; }
            auto c = l.rfind(": ");
            bool ok = l.substr(0, 2) == "  " && c != std::string::npos;
            b += (b.empty() ? "" : ",") + js(ok ? l.substr(2, c - 2) : "?" + l) + ":" + std::to_string(ok ? std::stol(l.substr(c + 2)) : -1);
        }
    }
    return "\"" + std::string(head) + "\":" + js(a) + ",\"" + places + "\":{" + b + "}";
}
// the nine numbers at the head of a text
std::string head_numbers(const std::string& t) {
    std::string r;
    int n = 0;
    for (auto& l : split(t, '\n')) {
        auto c = l.rfind(": ");
        if (n > 0 && n < 10) { r += (r.empty() ? "" : ",") + (c == std::string::npos ? std::string("-1") : std::to_string(std::stol(l.substr(c + 2)))); }
        ++n;
    }
    return "[" + r + "]";
}

void fresh(const Op& o) {
    for (auto& a : arenas) {
        if (a) { ws[0]->run([&] { a.reset(); }); }
    }
    arenas.clear();
    ws.clear();
    clock_ms = 0;
    scale = o.num("sc") == 1 ? 1UL << 33 : 1;
    global_arena_metrics.~GlobalArenaMetrics();
    new (&global_arena_metrics) GlobalArenaMetrics();
    if (o.name == "begin") {
        for (long i = 0; i < o.num("nt"); ++i) { ws.push_back(std::make_unique<Worker>()); }
        arenas.resize(static_cast<size_t>(o.num("na")));
    }
}

std::string conc(const Op& o) {
    auto ths = split(o.str("ths"), '/');
    size_t n = ths.size();
    bool reader = o.num("rd") == 1;
    std::vector<std::vector<Call>> calls(n);
    for (size_t t = 0; t < n; ++t) {
        for (auto& c : split(ths[t], ';')) { calls[t].push_back(call_of(c)); }
    }
    int ok = 1;
    std::atomic<int> bad{0};
    std::string text;
#ifdef VSCHED
    sched::plan.clear();
    auto pl = o.list("sched");
    for (size_t i = 0; i + 1 < pl.size(); i += 2) { sched::plan.emplace_back(static_cast<int>(pl[i]), pl[i + 1]); }
    sched::state.assign(n + 1 + (reader ? 1 : 0), sched::Ready);
    sched::state[0] = sched::Done;
    sched::cur = 1;
    sched::beyond = false;
    sched::pick();
    sched::on = true;
#endif
    auto each = [&](size_t t) {
        sched::enter(static_cast<int>(t) + 1);
        for (auto& c : calls[t]) {
            if (perform(c) != 1) { bad = 1; }
        }
        local_arena_metrics.report_to_global_metrics();
        sched::leave();
    };
    for (size_t t = 0; t < n; ++t) {
        ws[t]->start([&each, t] { each(t); });
    }
    Worker rw;
    if (reader) {
        rw.start([&] {
            sched::enter(static_cast<int>(n) + 1);
            text = global_arena_metrics.string();
            sched::leave();
        });
    }
    for (size_t t = 0; t < n; ++t) { ws[t]->join(); }
    if (reader) { rw.join(); }
#ifdef VSCHED
    sched::on = false;
#endif
    if (bad != 0) { ok = 0; }
    std::string r = "\"fx\":[],\"ok\":" + std::to_string(ok) + "," + tables();
    if (reader) { r += ",\"rh\":" + head_numbers(text) + "," + rendered(text, "rt", "rp"); }
    return r;
}

std::string step(const Op& o) {
    const auto& n = o.name;
    fx.clear();
    if (n == "conc") { return conc(o); }
    auto t = static_cast<size_t>(o.num("t")) - 1;
    auto a = static_cast<size_t>(o.num("a")) - 1;
    std::string extra;
    if (n == "clock") {
        clock_ms += o.num("ms");
    } else if (n == "greset") {
        global_arena_metrics.reset();
    } else if (n == "render") {
        extra = "," + rendered(global_arena_metrics.string(), "txt", "places");
    } else if (n == "tnew") {
        ws[t] = nullptr;
        ws[t] = std::make_unique<Worker>();
    } else {
        ws[t]->run([&] {
            if (n == "report") {
                local_arena_metrics.report_to_global_metrics();
            } else if (n == "lreset") {
                local_arena_metrics.reset();
            } else if (n == "count") {
                auto c = call_of(o.str("c"));
                int r = perform(c);
                std::string s = num("n", c.n) + num("u", c.u) + num("w", c.w) + num("life", static_cast<uint64_t>(c.life)) + num("fr", static_cast<uint64_t>(r)) + ",\"s\":" + js(c.s);
                push(c.k.c_str(), s);
            } else if (n == "new") {
                Arena::Options op = Arena::Options::GetDefaultOptions();
                op.normal_block_size = 256;
                op.huge_block_size = 1024;
                op.suggested_init_block_size = 128;
                op.on_arena_init = &h_init;
                op.on_arena_allocation = &h_alloc;
                op.on_arena_newblock = &h_block;
                op.on_arena_reset = &h_reset;
                op.on_arena_destruction = &h_destroy;
                site = unesc(o.str("s"));
                arenas[a] = std::make_unique<Arena>(op);
            } else if (n == "alloc") {
                arenas[a]->AllocateAligned(static_cast<uint64_t>(o.num("n")));
            } else if (n == "create") {
                arenas[a]->Create<Obj>();
            } else if (n == "areset") {
                arenas[a]->Reset();
            } else if (n == "drop") {
                arenas[a].reset();
            }
        });
    }
    std::string f;
    for (auto& x : fx) { f += (f.empty() ? "" : ",") + x; }
    return "\"fx\":[" + f + "]," + tables() + extra;
}
}  // namespace

int main(int argc, char** argv) {
    return run_script(argc, argv, [](const Op& o, Emitter& em) {
        if (o.name == "begin" || o.name == "end") {
            fresh(o);
            em.line(o, "");
        } else if (o.name == "skip") {
            em.line(o, "");
        } else {
            em.line(o, step(o));
        }
    });
}
