// Executes parser scripts in the real optparse::OptionParser and ValueStore and records what can be observed.
#include "common.hpp"

#include <memory>
#include <optional>
#include <stdexcept>

#include "optparse/optparse.hpp"

namespace op = stdb::optparse;

static std::string unpct(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') {
            r += static_cast<char>(std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
            i += 2;
        } else {
            r += s[i];
        }
    }
    return r;
}
static std::string text(const Op& o, const char* k) { return unpct(o.str(k)); }
// lists are written as a count and the items, each followed by ';'
static std::vector<std::string> items(const std::string& raw) {
    std::vector<std::string> out;
    size_t p = 0;
    while (p < raw.size()) {
        size_t e = raw.find(';', p);
        out.push_back(unpct(raw.substr(p, e - p)));
        p = e + 1;
    }
    return out;
}
static std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n') {
            r += "\\n";
        } else if (c == '\t') {
            r += "\\t";
        } else if (c < 32 || c > 126) {
            r += "?";
        } else {
            r += c;
        }
    }
    return r + "\"";
}

static op::Action act_of(const std::string& s) {
    static const std::map<std::string, op::Action> m = {{"Null", op::Null}, {"Store", op::Store}, {"StoreTrue", op::StoreTrue}, {"StoreFalse", op::StoreFalse},
                                                        {"Append", op::Append}, {"Count", op::Count}, {"Help", op::Help}, {"Version", op::Version}};
    return m.at(s);
}
static op::Type type_of(const std::string& s) {
    static const std::map<std::string, op::Type> m = {{"Bool", op::Bool}, {"Int", op::Int}, {"Long", op::Long}, {"Float", op::Float},
                                                      {"Double", op::Double}, {"Choice", op::Choice}, {"String", op::String}};
    return m.at(s);
}
static std::string show(const op::Value& v) {
    static const char* tags[] = {"b", "i", "l", "f", "d", "s"};
    std::string t;
    switch (v.index()) {
        case 0: t = std::get<bool>(v) ? "1" : "0"; break;
        case 1: t = std::to_string(std::get<int32_t>(v)); break;
        case 2: t = std::to_string(std::get<int64_t>(v)); break;
        case 3: t = fmt::format("{}", std::get<float>(v)); break;
        case 4: t = fmt::format("{}", std::get<double>(v)); break;
        default: t = std::get<std::string>(v);
    }
    return std::string("{\"t\":\"") + tags[v.index()] + "\",\"v\":" + js(t) + "}";
}
static op::Value value_of(const std::string& item) {   // tag and text
    std::string t = item.substr(1);
    switch (item[0]) {
        case 'b': return op::Value(t == "1");
        case 'i': return op::Value(static_cast<int32_t>(std::stol(t)));
        case 'l': return op::Value(static_cast<int64_t>(std::stol(t)));
        case 'f': return op::Value(std::stof(t));
        case 'd': return op::Value(std::stod(t));
        default: return op::Value(t);
    }
}

struct Shown
{
    bool typed = true;   // the typed readers agree with the value
    template <typename T>
    void one(const op::ValueStore& s, const std::string& d, std::optional<op::Value>& out, int& n) {
        try {
            auto v = s.get<T>(d);
            if (v.has_value()) {
                out = op::Value(*v);
                ++n;
            }
        } catch (const std::bad_variant_access&) {
        }
    }
    template <typename T>
    void list(const op::ValueStore& s, const std::string& d, const op::vector<op::Value>& all) {
        bool mine = true;
        for (const auto& v : all) { mine = mine && std::holds_alternative<T>(v); }
        try {
            auto l = s.get_list<T>(d);
            if (!mine || !l.has_value() || l->size() != all.size()) {
                typed = false;
                return;
            }
            for (size_t i = 0; i < all.size(); ++i) { typed = typed && (*l)[i] == std::get<T>(all[i]); }
        } catch (const std::bad_variant_access&) {
            typed = typed && !mine;
        }
    }
    std::string all(const op::ValueStore& s, const std::vector<std::string>& ds) {
        std::string r = "\"res\":[";
        for (size_t i = 0; i < ds.size(); ++i) {
            const auto& d = ds[i];
            std::optional<op::Value> v;
            int n = 0;
            one<bool>(s, d, v, n);
            one<int32_t>(s, d, v, n);
            one<int64_t>(s, d, v, n);
            one<float>(s, d, v, n);
            one<double>(s, d, v, n);
            one<std::string>(s, d, v, n);
            typed = typed && n <= 1;
            r += std::string(i ? "," : "") + "{\"d\":" + js(d) + ",\"u\":" + (s.user_set(d) ? "1" : "0") + ",\"v\":[" + (v ? show(*v) : "") + "],\"l\":[";
            if (auto l = s.get_list(d)) {
                r += "[";
                for (size_t k = 0; k < l->size(); ++k) { r += (k ? "," : "") + show((*l)[k]); }
                r += "]";
                list<bool>(s, d, *l);
                list<int32_t>(s, d, *l);
                list<int64_t>(s, d, *l);
                list<float>(s, d, *l);
                list<double>(s, d, *l);
                list<std::string>(s, d, *l);
            }
            r += "]}";
        }
        return r + "],\"tl\":" + (typed ? "1" : "0");
    }
};

static void decorate(op::Option& opt, const Op& o) {
    op::Option* p = &opt;
    if (o.has("ch")) {
        auto ch = items(o.str("ch"));
        if (ch.size() == 2) {
            p = &p->choices({ch[0], ch[1]});
        } else {
            p = &p->choices(ch.begin(), ch.end());
        }
    }
    if (o.has("act")) { p = &p->action(act_of(o.str("act"))); }
    if (o.has("ty")) { p = &p->type(type_of(o.str("ty"))); }
    if (o.has("dest")) { p = &p->dest(text(o, "dest")); }
    if (o.has("def")) {
        auto d = text(o, "def");
        auto k = o.str("dk");
        if (k == "i") {
            p = &p->default_value(static_cast<int>(std::stol(d)));
        } else if (k == "d") {
            p = &p->default_value(std::stod(d));
        } else if (k == "b") {
            p = &p->default_value(d == "1");
        } else if (k == "s") {
            p = &p->default_value(d.c_str());
        } else {
            p = &p->default_value(d);
        }
    }
    if (o.has("help")) { p = &p->help(text(o, "help")); }
    if (o.has("env")) { p = &p->env(text(o, "env")); }
    if (p != &opt) { abort(); }
}

struct Args   // an argument vector that stays where it is
{
    std::vector<std::unique_ptr<char[]>> owned;
    std::unique_ptr<const char*[]> argv;
    int n = 0;
    explicit Args(const std::vector<std::string>& a) : argv(new const char*[a.size()]), n(static_cast<int>(a.size())) {
        for (size_t i = 0; i < a.size(); ++i) {
            owned.emplace_back(new char[a[i].size() + 1]);
            memcpy(owned.back().get(), a[i].c_str(), a[i].size() + 1);
            argv[i] = owned.back().get();
        }
    }
    [[nodiscard]] int pos(const char* p) const {
        for (int i = 0; i < n; ++i) {
            if (argv[i] == p) { return i; }
        }
        return -1;
    }
};

struct Runner
{
    std::vector<std::unique_ptr<op::OptionParser>> ps;
    std::vector<char> pd;
    std::vector<std::unique_ptr<Args>> held;
    std::unique_ptr<op::ValueStore> vs = std::make_unique<op::ValueStore>();

    explicit Runner(size_t n) : ps(n), pd(n, 0) {
        for (const char* v : {"VF_A", "VF_B", "VF_MODE"}) {
            if (getenv(v) != nullptr) { unsetenv(v); }
        }
    }

    std::string self() {
        std::string r = "\"self\":[";
        for (size_t i = 0; i < ps.size(); ++i) {
            if (i) { r += ","; }
            if (!ps[i]) {
                r += "{\"gone\":1}";
                continue;
            }
            r += "{\"prog\":" + js(ps[i]->program()) + ",\"usage\":" + js(ps[i]->usage()) + ",\"ver\":" + js(ps[i]->version());
            if (pd[i]) {
                r += ",\"inv\":[";
                auto inv = ps[i]->invalid_args();
                for (size_t k = 0; k < inv.size(); ++k) { r += (k ? "," : "") + js(inv[k]); }
                r += "]";
            }
            r += "}";
        }
        return r + "]";
    }

    // copies to be looked at, too
    std::vector<std::unique_ptr<op::OptionParser>> twins;
    std::vector<int> twin_pd;
    void twin(bool on) {
        twins.clear();
        twin_pd.clear();
        for (size_t i = 0; on && i < ps.size(); ++i) {
            if (ps[i]) {
                twins.push_back(std::make_unique<op::OptionParser>(static_cast<const op::OptionParser&>(*ps[i])));
                twin_pd.push_back(pd[i]);
            }
        }
    }

    // what constant operations show
    [[nodiscard]] std::string look() const {
        std::string r;
        std::vector<const op::OptionParser*> all;
        for (const auto& q : ps) { all.push_back(q.get()); }
        for (const auto& q : twins) { all.push_back(q.get()); }
        for (size_t i = 0; i < all.size(); ++i) {
            if (all[i] == nullptr) {
                r += "-;";
                continue;
            }
            const op::OptionParser& p = *all[i];
            r += p.program() + "," + p.usage() + "," + p.version() + "," + p.long_prefix() + ",";
            for (const char* a : {"-a", "--aa", "x", "-", "--", ""}) { r += std::to_string(static_cast<int>(p.extract_option_type(a))); }
            if (i < ps.size() ? pd[i] != 0 : twin_pd[i - ps.size()] != 0) {
                auto raw = p.get_raw_argv();
                for (int k = 0; k < p.get_raw_argc(); ++k) { r += std::string(raw[k]) + "|"; }
            }
            r += ";";
        }
        const op::ValueStore& s = *vs;
        return r + Shown{}.all(s, {"a", "b", "d", "x"});
    }

    std::string parse(op::OptionParser& p, size_t i, const Op& o) {
        auto a = items(o.str("av"));
        a.insert(a.begin(), text(o, "a0"));
        held.push_back(std::make_unique<Args>(a));
        Args& args = *held.back();
        if (o.has("zero")) {
            pd[i] = pd[i];
            auto s = p.parse_args(0, args.argv.get());
            return Shown{}.all(s, {});
        }
        pd[i] = 0;
        auto s = p.parse_args(args.n, args.argv.get());
        pd[i] = 1;
        auto list = [&](const char* name, auto get, size_t n) {
            std::string r = std::string(",\"") + name + "\":[";
            for (size_t k = 0; k < n; ++k) { r += (k ? "," : "") + std::to_string(args.pos(get(k))); }
            return r + "]";
        };
        std::string r = Shown{}.all(s, items(o.str("ds")));
        auto inv = p.invalid_args();
        r += list("inv", [&](size_t k) { return inv[k]; }, inv.size());
        auto inv2 = p.invalid_args();
        r += list("inv2", [&](size_t k) { return inv2[k]; }, inv2.size());
        r += ",\"rc\":" + std::to_string(p.get_raw_argc());
        auto raw = p.get_raw_argv();
        r += list("raw", [&](size_t k) { return raw[k]; }, static_cast<size_t>(p.get_raw_argc()));
        return r;
    }

    static std::string printed(op::OptionParser& p, const std::string& k) {
        char* buf = nullptr;
        size_t n = 0;
        FILE* mem = open_memstream(&buf, &n);
        FILE* old = stdout;
        stdout = mem;
        try {
            if (k == "usage") {
                p.print_usage();
            } else if (k == "help") {
                p.print_help();
            } else {
                p.print_version();
            }
        } catch (...) {
            stdout = old;
            fclose(mem);
            free(buf);
            throw;
        }
        stdout = old;
        fclose(mem);
        std::string r(buf, n);
        free(buf);
        return r;
    }

    std::string run(const Op& o) {
        const std::string& n = o.name;
        size_t i = static_cast<size_t>(o.num("p", 1)) - 1;
        if (n == "new") {
            auto k = o.str("k");
            auto px = text(o, "px");
            auto h = static_cast<op::ConflictHandler>(o.num("h"));
            if (k == "d") {
                ps[i] = std::make_unique<op::OptionParser>();
            } else if (k == "h") {
                ps[i] = std::make_unique<op::OptionParser>(h);
            } else if (k == "px") {
                ps[i] = std::make_unique<op::OptionParser>(px[0]);
            } else {
                ps[i] = std::make_unique<op::OptionParser>(px[0], h);
            }
            pd[i] = 0;
        } else if (n == "copy" || n == "move") {
            size_t q = static_cast<size_t>(o.num("q")) - 1;
            pd[i] = pd[q];
            if (n == "copy") {
                ps[i] = std::make_unique<op::OptionParser>(*ps[q]);
            } else {
                ps[i] = std::make_unique<op::OptionParser>(std::move(*ps[q]));
                ps[q].reset();
                pd[q] = 0;
            }
        } else if (n == "drop") {
            ps[i].reset();
            pd[i] = 0;
        } else if (n == "add") {
            auto names = items(o.str("names"));
            auto form = o.str("form");
            op::OptionParser& p = *ps[i];
            op::Option* opt = nullptr;
            if (form == "one" && names.size() == 1) {
                opt = &p.add_option(names[0]);
            } else if (form == "two" && names.size() == 2) {
                opt = &p.add_option(names[0], names[1]);
            } else if (names.empty()) {
                opt = &p.add_option(std::initializer_list<std::string>{});
            } else if (names.size() == 1) {
                opt = &p.add_option(std::initializer_list<std::string>{names[0]});
            } else if (names.size() == 2) {
                opt = &p.add_option(std::initializer_list<std::string>{names[0], names[1]});
            } else {
                opt = &p.add_option(std::initializer_list<std::string>{names[0], names[1], names[2]});
            }
            decorate(*opt, o);
        } else if (n == "auto") {
            auto k = o.str("k");
            if (k == "usage") {
                ps[i]->add_usage_option(text(o, "t"));
            } else if (k == "help") {
                ps[i]->add_help_option(text(o, "t"));
            } else {
                ps[i]->add_version_option(text(o, "t"));
            }
        } else if (n == "conf") {
            auto k = o.str("k");
            op::OptionParser* r = nullptr;
            if (k == "program") {
                r = &ps[i]->program(text(o, "t"));
            } else if (k == "usage") {
                r = &ps[i]->usage(text(o, "t"));
            } else {
                r = &ps[i]->version(text(o, "t"));
            }
            if (r != ps[i].get()) { abort(); }
        } else if (n == "parse") {
            std::string r = parse(*ps[i], i, o);
            return r + "," + self();
        } else if (n == "text") {
            auto k = o.str("k");
            std::string t;
            if (o.num("pr") == 1) {
                t = printed(*ps[i], k);
            } else if (k == "usage") {
                t = ps[i]->format_usage();
            } else if (k == "help") {
                t = ps[i]->format_help();
            } else {
                t = ps[i]->format_verison();
            }
            return "\"txt\":" + js(t) + "," + self();
        } else if (n == "etype") {
            static const char* names[] = {"short", "long", "bad"};
            return std::string("\"et\":\"") + names[ps[i]->extract_option_type(text(o, "t"))] + "\"," + self();
        } else if (n == "hasv") {
            auto a = items(o.str("av"));
            op::vector<std::string> v;
            for (auto& x : a) { v.push_back(x); }
            op::ArgList al(v);
            return std::string("\"hv\":") + (ps[i]->has_value_to_process(text(o, "t"), al) ? "1" : "0") + "," + self();
        } else if (n == "env") {
            if (o.has("t")) {
                setenv(o.str("n").c_str(), text(o, "t").c_str(), 1);
            } else {
                unsetenv(o.str("n").c_str());
            }
            return "";
        } else if (n == "fmtt") {
            auto w = static_cast<int>(o.num("w"));
            auto t = type_of(o.str("ty"));
            return "\"txt\":" + js(fmt::format(fmt::runtime("{:{}}"), t, w));
        } else if (n == "proc") {
            op::OptionParser p;
            op::Option opt(p, op::vector<std::string>{"--pp"});
            decorate(opt, o);
            op::ValueStore s;
            bool ok = op::OptionParser::process_opt(opt, s, text(o, "t"));
            return Shown{}.all(s, items(o.str("ds"))) + ",\"ok\":" + (ok ? "1" : "0");
        } else if (n[0] == 'v') {
            if (n == "vset") {
                vs->set(text(o, "d"), value_of(text(o, "v")));
            } else if (n == "vapp") {
                vs->append(text(o, "d"), value_of(text(o, "v")));
            } else if (n == "vappl") {
                auto l = items(o.str("l"));
                if (l.empty()) {
                    vs->append(text(o, "d"), std::initializer_list<op::Value>{});
                } else {
                    vs->append(text(o, "d"), {value_of(l[0]), value_of(l[1])});
                }
            } else if (n == "vinc") {
                vs->increment(text(o, "d"));
            } else if (n == "vmove") {
                vs = std::make_unique<op::ValueStore>(std::move(*vs));
            } else if (n == "vnew") {
                vs = std::make_unique<op::ValueStore>();
            }
            return Shown{}.all(*vs, items(o.str("ds")));
        }
        return self();
    }
};

int main(int argc, char** argv) {
    static std::unique_ptr<Runner> worlds[9];
    static thread_local std::unique_ptr<Runner>* L = &worlds[8];
    auto handle = [&](const Op& o, Emitter& em) {
        std::unique_ptr<Runner>& r = *L;
        if (o.name == "begin") {
            r = std::make_unique<Runner>(static_cast<size_t>(o.num("np")));
            em.line(o, "");
            return;
        }
        if (o.name == "skip" || o.name == "end") {
            if (o.name == "end") { r.reset(); }
            em.line(o, "");
            return;
        }
        int exc = 0;
        std::string out;
        try {
            out = r->run(o);
        } catch (const std::bad_variant_access&) {
            exc = 5;
        } catch (const std::logic_error&) {
            exc = 2;
        } catch (const fmt::format_error&) {
            exc = 6;
        } catch (const std::exception&) {
            exc = 9;
        }
        if (exc > 0) {
            // what an exception leaves behind
            bool parser = o.name != "env" && o.name != "fmtt" && o.name != "proc" && o.name[0] != 'v';
            out = parser ? r->self() : o.name[0] == 'v' ? Shown{}.all(*r->vs, items(o.str("ds"))) : "";
        }
        em.line(o, "\"exc\":" + std::to_string(exc) + (out.empty() ? "" : "," + out));
    };
    if (argc > 1 && std::string(argv[1]) == "--par") {
        return run_par(argc, argv, [](int w) { L = &worlds[w]; }, handle, [](int w) { return worlds[w] ? worlds[w]->look() : std::string(); }, [](int w, bool on) {
            if (worlds[w]) { worlds[w]->twin(on); }
        });
    }
    return run_script(argc, argv, handle);
}
