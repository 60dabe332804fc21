// Executes arena operations on the real stdb::memory::Arena and records what happened.
#include <sanitizer/asan_interface.h>
#include <algorithm>
#include <memory_resource>
#include <new>
#include "arena/arena.hpp"
#include "common.hpp"

using stdb::memory::Arena;
using stdb::memory::ArenaContainStatus;

namespace {
constexpr uint64_t kMaxBlock = 64ULL << 20;
struct Blk { int id; char* base; char* raw; uint64_t size; uint64_t total; int mod; bool live; };
struct Reg { int slot; char* p; std::vector<unsigned char> snap; long t; };
struct Pending { char* p; long t; };

constexpr int kSlots = 8;
// everything the harness keeps: one set for each world of arenas
struct Lane
{
    std::vector<Blk> blks;
    std::vector<std::string> fx;
    std::vector<long> bm, fq;
    int next_id = 0;
    long cur_ck = 0;
    alignas(64) char slot_mem[kSlots][sizeof(Arena)];
    bool alive[kSlots] = {}, inert[kSlots] = {};
    Arena::memory_resource* res[kSlots] = {};
    std::pmr::vector<int>* vecs[kSlots] = {};
    int vecn[kSlots] = {};
    std::vector<Reg> regs;
    std::vector<Pending> pend;
    long tokens[100000];
    int expect_slot = 0;  // arena the current operation addresses
    const std::type_info* want_ty = nullptr;
    int nar = 3;
    unsigned pat = 1;
};
Lane main_lane;
thread_local Lane* L = &main_lane;
#define blks (L->blks)
#define fx (L->fx)
#define bm (L->bm)
#define fq (L->fq)
#define next_id (L->next_id)
#define cur_ck (L->cur_ck)
#define slot_mem (L->slot_mem)
#define alive (L->alive)
#define inert (L->inert)
#define res (L->res)
#define vecs (L->vecs)
#define vecn (L->vecn)
#define regs (L->regs)
#define pend (L->pend)
#define tokens (L->tokens)
#define expect_slot (L->expect_slot)
#define want_ty (L->want_ty)
#define nar (L->nar)
#define pat (L->pat)
Arena* ar(int i) { return reinterpret_cast<Arena*>(slot_mem[i]); }
int slot_of(Arena* a) {
    for (int i = 0; i < kSlots; ++i) { if (reinterpret_cast<Arena*>(slot_mem[i]) == a) return i; }
    return -1;
}

Blk* find(const void* p) {
    for (auto& b : blks) {
        if (b.live && p >= b.base && p < b.base + b.size) { return &b; }
    }
    return nullptr;
}
std::string loc(const void* p) {
    if (p == nullptr) { return R"({"b":0,"o":0})"; }
    auto* b = find(p);
    if (b == nullptr) {  // zero-sized regions may sit at the very end of a block
        for (auto& x : blks) {
            if (x.live && p == x.base + x.size) { b = &x; }
        }
    }
    if (b == nullptr) { return R"({"b":-1,"o":0})"; }
    return "{\"b\":" + std::to_string(b->id) + ",\"o\":" + std::to_string(static_cast<const char*>(p) - b->base) + "}";
}
void push(const std::string& s) { fx.push_back("{" + s + "}"); }

void* balloc(std::size_t n) {
    bool failing = false;
    if (!fq.empty()) { failing = fq.front() == 1; fq.erase(fq.begin()); }
    if (failing || n > kMaxBlock) {
        push("\"k\":\"ba\",\"b\":0,\"n\":" + std::to_string(enc(n)) + ",\"m\":0");
        return nullptr;
    }
    int id = ++next_id;
    int mod = static_cast<int>(bm[(id - 1) % bm.size()]);
    uint64_t total = ((n + mod + 63) / 64) * 64 + 64;
    auto* raw = static_cast<char*>(std::aligned_alloc(64, total));
    char* base = raw + mod;
    std::memset(raw, 0xCD, total);
    if (mod > 0) { ASAN_POISON_MEMORY_REGION(raw, mod); }
    ASAN_POISON_MEMORY_REGION(base + n, total - mod - n);
    blks.push_back({id, base, raw, n, total, mod, true});
    push("\"k\":\"ba\",\"b\":" + std::to_string(id) + ",\"n\":" + std::to_string(enc(n)) + ",\"m\":" + std::to_string(mod));
    return base;
}
void bfree(void* p) {
    int id = -1;
    for (auto& b : blks) {
        if (b.live && b.base == p) {
            id = b.id;
            b.live = false;
            ASAN_UNPOISON_MEMORY_REGION(b.raw, b.total);
            std::free(b.raw);
        }
    }
    push("\"k\":\"bf\",\"b\":" + std::to_string(id));
}
void logger(const std::string&) {}
long ck(void* c) { return static_cast<long>(reinterpret_cast<intptr_t>(c)); }
int me(Arena* a) { return slot_of(a) == expect_slot ? 1 : 0; }
void* h_init(Arena* a, const boost::source_location&) {
    push("\"k\":\"oi\",\"me\":" + std::to_string(me(a)) + ",\"c\":" + std::to_string(cur_ck));
    return reinterpret_cast<void*>(static_cast<intptr_t>(cur_ck));
}
void h_reset(Arena* a, void* c, uint64_t used, uint64_t wasted) {
    push("\"k\":\"or\",\"me\":" + std::to_string(me(a)) + ",\"c\":" + std::to_string(ck(c)) + ",\"n\":" +
         std::to_string(enc(used)) + ",\"x\":" + std::to_string(enc(wasted)));
}
void* h_destroy(Arena* a, void* c, uint64_t used, uint64_t wasted) {
    push("\"k\":\"od\",\"me\":" + std::to_string(me(a)) + ",\"c\":" + std::to_string(ck(c)) + ",\"n\":" +
         std::to_string(enc(used)) + ",\"x\":" + std::to_string(enc(wasted)));
    return nullptr;
}
void h_alloc(const std::type_info* ty, uint64_t n, void* c) {
    bool same = (ty == nullptr) ? want_ty == nullptr : (want_ty != nullptr && *ty == *want_ty);
    push("\"k\":\"oa\",\"n\":" + std::to_string(enc(n)) + ",\"c\":" + std::to_string(ck(c)) + ",\"ty\":" + (same ? "1" : "0"));
}
void h_block(uint64_t num, uint64_t size, void* c) {
    push("\"k\":\"nb\",\"x\":" + std::to_string(enc(num)) + ",\"n\":" + std::to_string(enc(size)) + ",\"c\":" + std::to_string(ck(c)));
}
void log_cl(long t, bool ok) { push("\"k\":\"cl\",\"t\":" + std::to_string(t) + ",\"ok\":" + (ok ? "1" : "0")); }

// memory at p is (still) in a live block and any region recorded there is intact
bool intact(const void* p, bool in_arena, long t) {
    if (in_arena && find(p) == nullptr) { return false; }
    for (auto& r : regs) {
        if (r.p == p && r.t == t && !r.snap.empty()) {
            if (find(p) == nullptr) { return false; }
            return std::memcmp(p, r.snap.data(), r.snap.size()) == 0;
        }
    }
    return true;
}
void raw_cleanup(void* p) {
    for (auto it = pend.rbegin(); it != pend.rend(); ++it) {
        if (it->p == p) {
            long t = it->t;
            bool ok = true;
            if (it->p < reinterpret_cast<char*>(tokens) || it->p >= reinterpret_cast<char*>(tokens + 100000)) { ok = intact(p, false, t); }
            pend.erase(std::next(it).base());
            log_cl(t, ok);
            return;
        }
    }
    log_cl(-1, false);
}

constexpr uint32_t kMagic = 0x5ca1ab1e;
#define DTOR(T) ~T() { bool ok = magic == kMagic && intact(this, true, t); log_cl(t, ok); magic = 0; }
void log_ct(long t) { push("\"k\":\"ct\",\"t\":" + std::to_string(t)); }
struct Pod { uint64_t a, b, c; };
struct Big { uint64_t a[25]; };
struct alignas(32) Ovr { uint64_t a[4]; };
struct Tag { ArenaFullManagedTag; explicit Tag(int tt) : t(tt), magic(kMagic), pad(7) { log_ct(t); } DTOR(Tag) int t; uint32_t magic; uint64_t pad; };
struct Skip { ArenaManagedCreateOnlyTag; explicit Skip(int tt) : t(tt), magic(kMagic), pad(9) { log_ct(t); } DTOR(Skip) int t; uint32_t magic; uint64_t pad; };
struct alignas(16) Ovt { ArenaFullManagedTag; explicit Ovt(int tt) : t(tt), magic(kMagic), pad(9) { log_ct(t); } DTOR(Ovt) int t; uint32_t magic; uint64_t pad; };
struct Aref { ArenaFullManagedTag; Aref(Arena& a, int tt) : arena(&a), t(tt), magic(kMagic), pad(3) { log_ct(t); } DTOR(Aref) Arena* arena; int t; uint32_t magic; uint64_t pad; };
struct Ael { ArenaFullManagedTag; explicit Ael(Arena& a) : arena(&a) {} Arena* arena; };
struct Pel {
    using allocator_type = std::pmr::polymorphic_allocator<Pel>;
    explicit Pel(const std::pmr::polymorphic_allocator<Pel>& al) : r(al.resource()) {}
    std::pmr::memory_resource* r;
};
static_assert(sizeof(Ael) == 8 && sizeof(Pel) == 8);
struct Pal {
    using allocator_type = std::pmr::polymorphic_allocator<Pal>;
    explicit Pal(const std::pmr::polymorphic_allocator<Pal>& al) : r(al.resource()), t(0), magic(kMagic), pad(3) {}
    Pal(int tt, const std::pmr::polymorphic_allocator<Pal>& al) : r(al.resource()), t(tt), magic(kMagic), pad(3) { log_ct(t); }
    DTOR(Pal)
    std::pmr::memory_resource* r; int t; uint32_t magic; uint64_t pad;
};
// An object that uses the arena while it is constructed: its constructor performs the operations that follow.
void inside(Arena& a, void* p, int t);
struct Nst { ArenaFullManagedTag; Nst(Arena& a, int tt) : arena(&a), t(tt), magic(kMagic), pad(5) { log_ct(t); inside(a, this, tt); } DTOR(Nst) Arena* arena; int t; uint32_t magic; uint64_t pad; uint64_t pad2 = 77; };
static_assert(sizeof(Nst) == 32);
struct Owned { explicit Owned(int tt) : t(tt), magic(kMagic) {} ~Owned() { if (!silent) { log_cl(t, magic == kMagic); } magic = 0; } int t; uint32_t magic; bool silent = false; };
static_assert(sizeof(Pod) == 24 && sizeof(Big) == 200 && sizeof(Ovr) == 32 && sizeof(Tag) == 16 && sizeof(Skip) == 16 && sizeof(Ovt) == 16 && sizeof(Aref) == 24 && sizeof(Pal) == 24);

void note(int slot, void* p, uint64_t n, long t, bool fill) {
    auto* c = static_cast<char*>(p);
    auto* b = find(p);
    if (n == 0 || b == nullptr) { return; }
    if (c + n > b->base + b->size) { n = b->base + b->size - c; }
    if (fill) {
        ++pat;
        for (uint64_t i = 0; i < n; ++i) { c[i] = static_cast<char>((pat * 37 + i * 11 + 5) & 0xff); }
    }
    Reg r{slot, c, {}, t};
    r.snap.assign(reinterpret_cast<unsigned char*>(c), reinterpret_cast<unsigned char*>(c) + n);
    regs.push_back(std::move(r));
}
std::string bad_list() {
    std::string s;
    for (size_t i = 0; i < regs.size(); ++i) {
        auto& r = regs[i];
        if (find(r.p) == nullptr || std::memcmp(r.p, r.snap.data(), r.snap.size()) != 0) { s += (s.empty() ? "" : ",") + std::to_string(i + 1); }
    }
    for (int i = 0; i < kSlots; ++i) {
        if (vecs[i] != nullptr) {
            for (int j = 0; j < vecn[i]; ++j) {
                if ((*vecs[i])[j] != i * 1000 + j) { s += (s.empty() ? "" : ",") + std::to_string(-i); break; }
            }
        }
    }
    return "[" + s + "]";
}
void drop_slot(int a) {
    regs.erase(std::remove_if(regs.begin(), regs.end(), [a](const Reg& r) { return r.slot == a; }), regs.end());
    if (vecs[a] != nullptr) { delete vecs[a]; vecs[a] = nullptr; vecn[a] = 0; }
}
std::string obs() {
    std::string s = "[";
    for (int i = 1; i <= nar; ++i) {
        if (i > 1) { s += ","; }
        if (alive[i] && !inert[i]) {
            s += "{\"l\":1,\"sa\":" + std::to_string(enc(ar(i)->SpaceAllocated())) + ",\"sr\":" + std::to_string(enc(ar(i)->SpaceRemains())) +
                 ",\"cl\":" + std::to_string(enc(ar(i)->cleanups())) + "}";
        } else {
            s += std::string("{\"l\":") + (alive[i] ? "1" : "0") + ",\"sa\":0,\"sr\":0,\"cl\":0}";
        }
    }
    return s + "]";
}
struct Result { void* ret = nullptr; long rv = 0; std::string exc; int rs = 1; std::string more; };

template <typename T>
void create(int a, long t, Result& r, bool tok) {
    want_ty = &typeid(T);
    T* p = nullptr;
    if constexpr (std::is_constructible_v<T, int> || std::is_constructible_v<T, Arena&, int> || std::is_constructible_v<T, int, std::pmr::polymorphic_allocator<T>>) {
        p = ar(a)->Create<T>(static_cast<int>(t));
    } else {
        p = ar(a)->Create<T>();
        if (std::is_trivially_default_constructible_v<T> && p != nullptr && find(p) != nullptr) { std::memset(static_cast<void*>(p), static_cast<int>(t * 7 + 1) & 0xff, sizeof(T)); }
    }
    (void)tok;
    r.ret = p;
    if (p != nullptr && find(p) != nullptr) {
        if constexpr (std::is_same_v<T, Aref> || std::is_same_v<T, Ael>) { r.rs = p->arena == ar(a); }
        if constexpr (std::is_same_v<T, Pal> || std::is_same_v<T, Pel>) { r.rs = p->r == static_cast<std::pmr::memory_resource*>(ar(a)->get_memory_resource()); }
        note(a, p, sizeof(T), t, false);
    }
}
template <typename T>
void array(int a, long n, bool hg, Result& r) {
    want_ty = &typeid(T);
    uint64_t num = static_cast<uint64_t>(n);
    if (hg && n >= 100) { num = (1ULL << (n - 100)) + 16; }   // a count whose bytes wrap around to a larger or smaller number
    else if (hg && n > 0) { num = UINT64_MAX / sizeof(T) + static_cast<uint64_t>(n); }
    T* p = ar(a)->CreateArray<T>(num);
    r.ret = p;
    if constexpr (std::is_trivially_default_constructible_v<T>) {
        if (p != nullptr && !hg) { note(a, p, sizeof(T) * num, 0, true); }
    } else if (p != nullptr && !hg) {
        for (uint64_t i = 0; i < num && find(p + i) != nullptr; ++i) {
            if constexpr (std::is_same_v<T, Ael>) { r.rs = r.rs == 1 && p[i].arena == ar(a); }
            if constexpr (std::is_same_v<T, Pel>) { r.rs = r.rs == 1 && p[i].r == static_cast<std::pmr::memory_resource*>(ar(a)->get_memory_resource()); }
        }
        note(a, p, sizeof(T) * num, 0, false);
    }
}
char outside[64];

void finish(const Op& op, Emitter& em, Result& r) {
    std::string s = "\"ret\":" + loc(r.ret) + ",\"am\":" + std::to_string(reinterpret_cast<uintptr_t>(r.ret) % 64) + ",\"rv\":" + std::to_string(r.rv) + ",\"exc\":\"" +
                    r.exc + "\",\"rs\":" + std::to_string(r.rs) + ",\"fx\":[";
    for (size_t i = 0; i < fx.size(); ++i) { s += (i ? "," : "") + fx[i]; }
    s += "],\"obs\":" + obs() + ",\"bad\":" + bad_list() + r.more;
    em.line(op, s);
    fx.clear();
}
void do_destroy(int a) {
    expect_slot = a;
    if (vecs[a] != nullptr) { delete vecs[a]; vecs[a] = nullptr; vecn[a] = 0; }
    ar(a)->~Arena();
    alive[a] = inert[a] = false;
    drop_slot(a);
}
void handle(const Op& op, Emitter& em);
// constructions in progress: the operation that started each, and the one that ended it
struct Building { const Op* open; Emitter* em; bool entered; Op end; };
thread_local std::vector<Building*> building;
void inside(Arena& a, void* p, int t) {
    Building& w = *building.back();
    if (w.entered || w.em->src == nullptr) { return; }
    w.entered = true;
    int slot = static_cast<int>(w.open->num("a"));
    Result r;
    r.ret = p;
    r.rs = &a == ar(slot) ? 1 : 0;
    note(slot, p, sizeof(Nst), t, false);
    finish(*w.open, *w.em, r);
    Op op;
    while (w.em->src->get(op)) {
        if (op.name == "nclose" && op.num("t") == t) {
            w.end = op;
            break;
        }
        bool ends = op.name == "begin" || op.name == "end";
        if (op.name == "reset" || op.name == "destroy" || op.name == "move") {
            for (auto* b : building) { ends = ends || b->open->num("a") == op.num("a"); }
        }
        if (ends) {     // the behaviour did not expect the construction to start
            w.em->src->back.push_back(op);
            break;
        }
        handle(op, *w.em);
    }
    expect_slot = slot;
    want_ty = &typeid(Nst);
    fx.clear();
}
void handle(const Op& op, Emitter& em) {
    int a = static_cast<int>(op.num("a"));
    expect_slot = a;
    Result r;
    fx.clear();
    want_ty = nullptr;
    const std::string& n = op.name;
    bool hg = op.num("hg") == 1;
    if (n == "begin") {
        // leftovers of an unfinished behaviour cannot exist: every behaviour ends with "end"
        bm = op.list("bm");
        nar = static_cast<int>(op.num("nar"));
        fq.clear(); blks.clear(); regs.clear(); pend.clear();
        next_id = 0;
        em.line(op, "\"hdr\":" + std::to_string(stdb::memory::kBlockHeaderSize) + ",\"node\":" + std::to_string(stdb::memory::kCleanupNodeSize));
        return;
    }
    if (n == "end") {
        int out = 0;
        for (auto& b : blks) { if (b.live) { ++out; ASAN_UNPOISON_MEMORY_REGION(b.raw, b.total); std::free(b.raw); } }
        blks.clear();
        em.line(op, "\"fx\":[],\"bad\":[],\"out\":" + std::to_string(out));
        return;
    }
    if (n == "new") {
        Arena::Options o{};
        o.normal_block_size = op.num("normal"); o.huge_block_size = op.num("huge"); o.suggested_init_block_size = op.num("init");
        o.block_alloc = &balloc; o.block_dealloc = &bfree; o.logger_func = &logger;
        std::string hk = op.str("hk");
        if (hk[0] == '1') o.on_arena_init = &h_init;
        if (hk[1] == '1') o.on_arena_allocation = &h_alloc;
        if (hk[2] == '1') o.on_arena_newblock = &h_block;
        if (hk[3] == '1') o.on_arena_reset = &h_reset;
        if (hk[4] == '1') o.on_arena_destruction = &h_destroy;
        cur_ck = op.num("ck");
        if (op.num("rv") == 1) { new (slot_mem[a]) Arena(std::move(o)); } else { new (slot_mem[a]) Arena(o); }
        alive[a] = true; inert[a] = false;
        res[a] = ar(a)->get_memory_resource();
        r.rs = res[a]->get_arena() == ar(a);
    } else if (n == "fail") {
        fq = op.list("f");
    } else if (n == "alloc") {
        r.ret = ar(a)->AllocateAligned(static_cast<uint64_t>(op.num("n")), static_cast<uint64_t>(op.num("al")));
        if (r.ret != nullptr && !hg) { note(a, r.ret, op.num("n"), 0, true); }
    } else if (n == "allocc") {
        long t = op.num("t");
        // x: clean up the region itself, something outside the arena, or something that several cleanups of this arena share
        void* el = op.num("x") == 0 ? nullptr : static_cast<void*>(&tokens[op.num("x") == 1 ? t : 99990 + a]);
        r.ret = ar(a)->AllocateAlignedAndAddCleanup(static_cast<uint64_t>(op.num("n")), &raw_cleanup, el);
        if (r.ret != nullptr) {
            pend.push_back({el != nullptr ? static_cast<char*>(el) : static_cast<char*>(r.ret), t});
            if (!hg) { note(a, r.ret, op.num("n"), t, true); }
        }
    } else if (n == "create") {
        std::string k = op.str("k");
        long t = op.num("t");
        if (k == "pod") create<Pod>(a, t, r, false);
        else if (k == "chr") create<char>(a, t, r, false);
        else if (k == "big") create<Big>(a, t, r, false);
        else if (k == "ovr") create<Ovr>(a, t, r, false);
        else if (k == "tag") create<Tag>(a, t, r, true);
        else if (k == "skip") create<Skip>(a, t, r, true);
        else if (k == "ovt") create<Ovt>(a, t, r, true);
        else if (k == "aref") create<Aref>(a, t, r, true);
        else if (k == "pal") create<Pal>(a, t, r, true);
        else if (k == "ael") create<Ael>(a, t, r, false);
        else if (k == "pel") create<Pel>(a, t, r, false);
        else std::abort();
    } else if (n == "nopen") {
        Building w{&op, &em, false, {}};
        building.push_back(&w);
        want_ty = &typeid(Nst);
        int t = static_cast<int>(op.num("t"));
        Nst* p = ar(a)->Create<Nst>(t);
        building.pop_back();
        if (w.entered) {
            if (p == nullptr) { regs.erase(std::remove_if(regs.begin(), regs.end(), [t](const Reg& g) { return g.t == t; }), regs.end()); }
            if (w.end.name.empty()) { return; }
            r.rv = p != nullptr ? 1 : 0;
            finish(w.end, em, r);
            return;
        }
        r.ret = p;
    } else if (n == "nclose") {
        r.rv = -1;
    } else if (n == "array") {
        std::string k = op.str("k");
        if (k == "pod") array<Pod>(a, op.num("n"), hg, r);
        else if (k == "chr") array<char>(a, op.num("n"), hg, r);
        else if (k == "ael") array<Ael>(a, op.num("n"), hg, r);
        else if (k == "pel") array<Pel>(a, op.num("n"), hg, r);
        else if (k == "u64") array<uint64_t>(a, op.num("n"), hg, r);
        else if (k == "ovr") array<Ovr>(a, op.num("n"), hg, r);
        else std::abort();
    } else if (n == "own") {
        auto* o = new Owned(static_cast<int>(op.num("t")));
        r.rv = ar(a)->Own(o) ? 1 : 0;
        if (r.rv == 0) { o->silent = true; delete o; }
    } else if (n == "reset") {
        if (vecs[a] != nullptr) { delete vecs[a]; vecs[a] = nullptr; vecn[a] = 0; }
        r.rv = enc(ar(a)->Reset());
        drop_slot(a);
    } else if (n == "destroy") {
        do_destroy(a);
    } else if (n == "move") {
        int b = static_cast<int>(op.num("a2"));
        new (slot_mem[b]) Arena(std::move(*ar(a)));
        alive[b] = true; inert[b] = false; inert[a] = true;
        res[b] = res[a]; res[a] = nullptr;
        vecs[b] = vecs[a]; vecs[a] = nullptr; vecn[b] = vecn[a]; vecn[a] = 0;
        for (auto& g : regs) { if (g.slot == a) g.slot = b; }
        r.rs = res[b]->get_arena() == ar(b) && ar(b)->get_memory_resource() == res[b];
    } else if (n == "palloc") {
        std::pmr::memory_resource* m = res[a];
        try {
            r.ret = m->allocate(static_cast<uint64_t>(op.num("n")), static_cast<size_t>(op.num("al")));
            if (r.ret != nullptr && !hg) { note(a, r.ret, op.num("n"), 0, true); }
        } catch (const std::bad_alloc&) { r.exc = "bad_alloc"; }
        r.rs = res[a]->get_arena() == ar(a);
    } else if (n == "pdealloc") {
        long b = op.num("b");
        for (auto& x : blks) {
            if (x.live && x.id == b) { static_cast<std::pmr::memory_resource*>(res[a])->deallocate(x.base + op.num("o"), op.num("n"), 8); }
        }
    } else if (n == "peq") {
        int b = static_cast<int>(op.num("a2"));
        std::pmr::memory_resource* x = res[a];
        std::pmr::memory_resource* y = b == 0 ? std::pmr::new_delete_resource() : static_cast<std::pmr::memory_resource*>(res[b]);
        r.rv = x->is_equal(*y) ? 1 : 0;
        if ((*x == *y ? 1 : 0) != r.rv) { r.rv = -1; }
    } else if (n == "vpush") {
        if (vecs[a] == nullptr) { vecs[a] = new std::pmr::vector<int>(res[a]); vecn[a] = 0; }
        try {
            for (int i = 0; i < op.num("x"); ++i) { vecs[a]->push_back(a * 1000 + vecn[a]); ++vecn[a]; }
        } catch (const std::bad_alloc&) { r.exc = "bad_alloc"; }
        if (static_cast<int>(vecs[a]->size()) != vecn[a]) { r.exc = "size"; }
        r.ret = vecs[a]->capacity() == 0 ? nullptr : vecs[a]->data();
        r.more = ",\"n\":" + std::to_string(vecs[a]->capacity() * sizeof(int));
    } else if (n == "check") {
        long b = op.num("b");
        const char* p = nullptr;
        static char stack_probe;
        if (b > 0) {
            for (auto& x : blks) { if (x.id == b && x.live) { p = x.base + op.num("o"); } }
        } else {
            long o = op.num("o");
            if (o == 0) p = outside;
            else if (o == 1) p = nullptr;
            else if (o == 2) p = reinterpret_cast<const char*>(UINTPTR_MAX);
            else if (o == 3) { for (auto& x : blks) { if (x.live) { p = x.base - 1; } } }
            else if (o == 4) { for (auto& x : blks) { if (x.live) { p = x.base + x.size; } } }
            else { for (auto& x : blks) { if (!x.live) { p = x.base + 40; } } }
            if (o >= 6) {                       // far from every block, but at the same place modulo a power of two
                static const int64_t kFar[] = {1LL << 32, -(1LL << 32), 1LL << 33, 1LL << 31, -(1LL << 31), 1LL << 40, -(1LL << 16) * 7, 1LL << 62};
                uint64_t q = 0;
                for (auto& x : blks) { if (x.live) { q = reinterpret_cast<uint64_t>(x.base) + static_cast<uint64_t>(kFar[(o - 6) / 2]) + (o % 2) * 40; } }
                p = reinterpret_cast<const char*>(q);
                for (auto& x : blks) { if (x.live && p >= x.base && p < x.base + x.size) { p = nullptr; } }
            }
            if (p == nullptr && o > 2) { p = &stack_probe; }
        }
        auto* f = find(p);
        r.more = ",\"ad\":{\"b\":" + std::to_string(f ? f->id : 0) + ",\"o\":" + std::to_string(f ? p - f->base : 0) + "}";
        switch (ar(a)->check(p)) {
            case ArenaContainStatus::NotContain: r.rv = 0; break;
            case ArenaContainStatus::BlockHeader: r.rv = 1; break;
            case ArenaContainStatus::BlockCleanup: r.rv = 2; break;
            case ArenaContainStatus::BlockUsed: r.rv = 3; break;
            case ArenaContainStatus::BlockUnUsed: r.rv = 4; break;
            default: r.rv = -1;
        }
    } else {
        std::abort();
    }
    finish(op, em, r);
}
std::string look() {
    std::string out;
    for (int i = 1; i <= nar; ++i) {
        if (!alive[i] || inert[i]) { continue; }
        const Arena& c = *ar(i);
        out += std::to_string(c.SpaceAllocated()) + "," + std::to_string(c.SpaceRemains()) + "," + std::to_string(ar(i)->cleanups()) + ":";
        for (auto& b : blks) {
            if (b.live) {
                for (uint64_t o : {uint64_t(0), uint64_t(47), uint64_t(48), b.size / 2, b.size - 1}) { out += std::to_string(static_cast<int>(ar(i)->check(b.base + o))); }
            }
        }
        out += std::to_string(static_cast<int>(ar(i)->check(outside)));
        for (auto& g : regs) { out += std::to_string(static_cast<int>(ar(i)->check(g.p))); }
        for (int j = 1; j <= nar; ++j) {
            if (alive[j] && !inert[j] && res[i] != nullptr && res[j] != nullptr) { out += std::to_string(static_cast<int>(res[i]->is_equal(*res[j]))); }
        }
        out += ";";
    }
    return out;
}
}  // namespace

int main(int argc, char** argv) {
    if (argc > 1 && std::string(argv[1]) == "--par") {
        static Lane lanes[8];
        return run_par(argc, argv, [](int w) { L = &lanes[w]; }, handle, [](int w) {
            L = &lanes[w];
            return look();
        }, [](int, bool) {});
    }
    return run_script(argc, argv, handle);
}
