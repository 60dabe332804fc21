// Shared by all drivers: script reading, event writing.
// A script line is  <op as JSON object>\t<op name> <key=value>...
// The driver executes the operation and writes one JSON event per line: the op object plus what was observed.
#pragma once
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

struct Op
{
    std::string json, name;
    std::map<std::string, std::string> kv;
    [[nodiscard]] long num(const char* k, long dflt = 0) const {
        auto it = kv.find(k);
        return it == kv.end() ? dflt : std::strtol(it->second.c_str(), nullptr, 10);
    }
    [[nodiscard]] std::string str(const char* k) const {
        auto it = kv.find(k);
        return it == kv.end() ? std::string{} : it->second;
    }
    [[nodiscard]] bool has(const char* k) const { return kv.count(k) != 0; }
    [[nodiscard]] std::vector<long> list(const char* k) const {
        std::vector<long> out;
        std::stringstream ss(str(k));
        std::string item;
        while (std::getline(ss, item, ',')) {
            if (!item.empty()) { out.push_back(std::strtol(item.c_str(), nullptr, 10)); }
        }
        return out;
    }
};

inline Op parse_line(const std::string& line) {
    Op op;
    auto tab = line.find('\t');
    op.json = line.substr(0, tab);
    std::stringstream ss(line.substr(tab + 1));
    ss >> op.name;
    std::string tok;
    while (ss >> tok) {
        auto eq = tok.find('=');
        op.kv[tok.substr(0, eq)] = tok.substr(eq + 1);
    }
    return op;
}

inline long enc(uint64_t n) {
    if (n < 2147483647ULL) { return static_cast<long>(n); }
    if (n >= 0xFFFFFFFF80000000ULL) { return static_cast<long>(static_cast<int64_t>(n)); }
    return 2147483647L;
}

// where the next operation comes from, for operations that contain other ones
struct Source
{
    std::ifstream in;
    std::vector<Op> back;
    bool get(Op& op) {
        if (!back.empty()) {
            op = back.back();
            back.pop_back();
            return true;
        }
        std::string line;
        while (std::getline(in, line)) {
            if (line.empty()) { continue; }
            op = parse_line(line);
            return true;
        }
        return false;
    }
};

struct Emitter
{
    FILE* out = nullptr;
    Source* src = nullptr;
    void line(const Op& op, const std::string& extra) const {
        std::string s = op.json.substr(0, op.json.size() - 1) + (extra.empty() ? "" : ",") + extra + "}\n";
        fwrite(s.data(), 1, s.size(), out);
        fflush(out);
    }
};

// usage of every driver: driver SCRIPT OUT FIRST   (FIRST: number of "begin" lines to skip)
template <typename F>
int run_script(int argc, char** argv, F&& handle) {
    if (argc < 4) { return 2; }
    Source src;
    src.in.open(argv[1]);
    Emitter em;
    em.out = fopen(argv[2], "a");
    em.src = &src;
    long skip = std::strtol(argv[3], nullptr, 10);
    long seen = 0;
    Op op;
    while (src.get(op)) {
        if (op.name == "begin") {
            ++seen;
            alarm(30);
        }
        if (seen <= skip) { continue; }
        handle(op, em);
    }
    fclose(em.out);
    return 0;
}

// Several threads at once. Each lane is a world of its own (one behaviour per round) with its own trace; a schedule says
// which thread performs which step of which lane. Steps of one lane happen one after the other (a step waits for those
// listed before it on its lane); nothing else is ordered.
//   driver --par SCHED STEPS SKIP  SCRIPT0 TRACE0  SCRIPT1 TRACE1 ...
// SCHED:  "round NT n0 n1 ..."         number of threads, operations of each lane
//         "d LANE THREAD BASE"         the next operation of the lane, after BASE earlier steps of the lane
//         "l LANE THREAD BASE"         a look at everything in the lane, changing nothing
// STEPS:  one event per step, in schedule order; b, h: what the stepping thread saw of the lane before and after
inline uint32_t digest(const std::string& s) {
    uint32_t h = 2166136261U;
    for (char c : s) { h = (h ^ static_cast<unsigned char>(c)) * 16777619U; }
    return h & 0x3fffffffU;
}

template <typename Bind, typename Handle, typename Look, typename Twin>
int run_par(int argc, char** argv, Bind bind, Handle handle, Look look, Twin twin) {
    struct LaneIO
    {
        std::ifstream in;
        Emitter em;
        std::vector<Op> ops;
        size_t next = 0;
        std::atomic<long> done{0};
    };
    struct Step
    {
        char k;
        int w, t;
        long base;
        size_t at = 0;
        uint32_t b = 0, h = 0;
        bool show = false;   // the next step of the lane is a look: leave the objects as the operation left them
    };
    if (argc < 7) { return 2; }
    std::ifstream sched(argv[2]);
    FILE* steps_out = fopen(argv[3], "a");
    long skip = std::strtol(argv[4], nullptr, 10);
    std::vector<std::unique_ptr<LaneIO>> lanes;
    for (int i = 5; i + 1 < argc; i += 2) {
        lanes.push_back(std::make_unique<LaneIO>());
        lanes.back()->in.open(argv[i]);
        lanes.back()->em.out = fopen(argv[i + 1], "a");
    }
    std::string line;
    long round = 0;
    bool more = static_cast<bool>(std::getline(sched, line));
    while (more) {
        ++round;
        std::stringstream head(line.substr(6));
        int nt = 0;
        head >> nt;
        for (auto& l : lanes) {
            size_t n = 0;
            head >> n;
            l->ops.clear();
            l->next = 0;
            l->done = 0;
            std::string x;
            for (size_t i = 0; i < n && std::getline(l->in, x); ++i) { l->ops.push_back(parse_line(x)); }
        }
        std::vector<Step> steps;
        while ((more = static_cast<bool>(std::getline(sched, line))) && line[0] != 'r') {
            std::stringstream ss(line);
            Step st{};
            ss >> st.k >> st.w >> st.t >> st.base;
            if (st.k == 'd') { st.at = lanes[st.w]->next++; }
            steps.push_back(st);
        }
        if (round <= skip) { continue; }
        for (size_t i = 0; i < steps.size(); ++i) {
            for (size_t j = i + 1; j < steps.size(); ++j) {
                if (steps[j].w == steps[i].w) {
                    steps[i].show = steps[i].k == 'd' && steps[j].k == 'l';
                    break;
                }
            }
        }
        alarm(60);
        std::atomic<int> ready{0};
        std::vector<std::thread> threads;
        for (int t = 0; t < nt; ++t) {
            threads.emplace_back([&, t] {
                ready.fetch_add(1);
                while (ready.load() < nt) { std::this_thread::yield(); }
                for (auto& st : steps) {
                    if (st.t != t) { continue; }
                    LaneIO& l = *lanes[st.w];
                    while (l.done.load(std::memory_order_acquire) < st.base) { std::this_thread::yield(); }
                    if (st.k == 'd') {
                        if (st.at > 0) {
                            st.b = digest(look(st.w));
                            twin(st.w, false);
                        }
                        bind(st.w);
                        handle(l.ops[st.at], l.em);
                        // copies nobody has looked at yet
                        if (st.show) { twin(st.w, true); }
                    }
                    if (!st.show) { st.h = digest(look(st.w)); }
                    l.done.fetch_add(1, std::memory_order_acq_rel);
                }
            });
        }
        for (auto& t : threads) { t.join(); }
        fprintf(steps_out, "{\"op\":\"begin\",\"id\":%ld,\"nw\":%zu}\n", round, lanes.size());
        for (auto& st : steps) {
            fprintf(steps_out, "{\"op\":\"%s\",\"id\":%ld,\"w\":%d,\"t\":%d,\"b\":%u,\"h\":%ld}\n", st.k == 'd' ? "do" : "look", round, st.w + 1, st.t + 1, st.b, st.show ? -1L : static_cast<long>(st.h));
        }
        fprintf(steps_out, "{\"op\":\"end\",\"id\":%ld}\n", round);
        fflush(steps_out);
    }
    fclose(steps_out);
    fflush(nullptr);
    _exit(0);   // the worlds are not taken down in any particular order
}
