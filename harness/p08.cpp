// P08: the order of the rules, and nothing else, decides the order of the types.
#include "common.hpp"
#include "log_dfa.hpp"
using namespace vf;
using namespace impl;

// ---- where the states of automata are placed in memory is a choice of the environment ---------------
namespace place {
static bool on = false;
static size_t count = 0;
static int mode = 0;
static std::vector<int>* perm = nullptr;  // of the first few
static constexpr size_t cSlots = 1 << 13, cSize = sizeof(finite_automata::RegexNFAByteState);
alignas(64) static char arena[cSlots * ((cSize + 63) / 64 * 64)];
static size_t slot(size_t k) {
    size_t n = cSlots;
    if (perm && k < perm->size()) return (size_t)(*perm)[k];
    switch (mode) {
        case 0: return k;
        case 1: return n - 1 - k;
        case 2: return k & 1 ? n - 1 - k : k;
        case 3: return (k * 2654435761u) & (n - 1);
        case 4: { size_t r = 0; for (int b = 0; b < 13; b++) if (k >> b & 1) r |= (size_t)1 << (12 - b); return r; }
        case 5: return k ^ 1;
        case 6: return k ^ 7;
        default: return (k * 4095 + 17) & (n - 1);
    }
}
static constexpr int cModes = 8;
inline bool inside(void* p) { return p >= arena && p < arena + sizeof arena; }
}  // namespace place
#if !defined(__SANITIZE_ADDRESS__)
void* operator new(size_t n) {
    if (place::on && n == place::cSize && place::count < place::cSlots)
        return place::arena + place::slot(place::count++) * (sizeof place::arena / place::cSlots);
    void* p = malloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { if (!place::inside(p)) free(p); }
void operator delete(void* p, size_t) noexcept { if (!place::inside(p)) free(p); }
#endif

static std::vector<std::string> const& inputs() {
    static std::vector<std::string> v = [] {
        std::vector<std::string> r{""};
        for (size_t i = 0; i < r.size(); i++) if (r[i].size() < 3) for (char c : std::string("ab \n")) r.push_back(r[i] + c);
        return r;
    }();
    return v;
}
// Checks the automaton and the tokens and logtypes of short inputs.
static std::string check(ref::Pool& pool, std::unique_ptr<SchemaAST> ast, rs::Result const& r, de::Stats& st, bool run_inputs) {
    auto e = ld::expect(pool, r);
    if (e.must_reject) return "the reference rejects the schema";
    std::unique_ptr<BufferParser> p;
    try { p = std::make_unique<BufferParser>(std::move(ast)); } catch (std::exception const& x) { return std::string("rejected: ") + x.what(); }
    std::string m = ld::check_built(pool, e, p->get_log_parser(), st);
    if (!m.empty() || !run_inputs) return m;
    ref::Schema s{e.delims, e.rules};
    for (auto const& rule : s.rules) if (rule.name != "timestamp" && rule.re->nullable) return "";  // tokens: see P04
    for (auto const& in : inputs()) {
        auto run = lx::run_buffer(*p, in);
        auto flat = [](auto const& evs, std::string& lt) {
            ref::Event o;
            for (auto const& x : evs) {
                bool first = true;
                for (auto const& t : x.toks) {
                    o.toks.push_back(t);
                    if (first && x.has_ts) { first = false; continue; }
                    first = false;
                    if (t.types[0] != "$UncaughtString") lt += "<" + t.types[0] + ">";
                }
            }
            return lx::canon(o);
        };
        std::string lw, lg, lg2;
        auto want = flat(ref::segment(ref::tokenize(pool, s, in)), lw);
        auto got = flat(run.events, lg);
        if (!(want.toks == got.toks)) return "'" + in + "': tokens " + show(got) + " expected " + show(want);
        // the names in the logtype
        for (auto const& ev : run.events) for (size_t i = 0; i < ev.logtype.size(); i++) if (ev.logtype[i] == '<') { size_t q = ev.logtype.find('>', i); lg2 += ev.logtype.substr(i, q - i + 1); i = q; }
        if (lg2 != lw) return "'" + in + "': the logtype names " + lg2 + " instead of " + lw;
        st.states++;
    }
    return "";
}
// ---- additions to a Schema ------------------------------------------------------------------------
static std::vector<std::string> const cAdds{"n0:a", "n1:[ab]", "int:a+", "n0:b", "zz:[abc]"};
static std::string check_adds(ref::Pool& pool, std::string const& file, std::vector<std::pair<int, int>> const& ops, std::string const& path, de::Stats& st) {
    std::vector<std::string> want;
    std::unique_ptr<Schema> s;
    if (file.empty()) s = std::make_unique<Schema>();
    else {
        FILE* f = fopen(path.c_str(), "wb");
        if (!f) return "cannot write the scratch file";
        fwrite(file.data(), 1, file.size(), f);
        fclose(f);
        s = std::make_unique<Schema>(path);
        unlink(path.c_str());
        auto r = rs::parse(file);
        for (auto const& v : r.vars) want.push_back(v.name + ":" + v.text);
    }
    for (auto [what, pos] : ops) {
        s->add_variable(cAdds[(size_t)what], pos);
        if (pos == -1) want.push_back(cAdds[(size_t)what]);
        else want.insert(want.begin() + pos, cAdds[(size_t)what]);
        st.transitions++;
    }
    auto ast = s->release_schema_ast_ptr();
    std::string text = "delimiters: \\n\n", names, got;
    for (auto const& w : want) { text += w + "\n"; names += w.substr(0, w.find(':')) + " "; }
    for (auto const& v : ast->m_schema_vars) got += dynamic_cast<SchemaVarAST*>(v.get())->m_name + " ";
    if (got != names) return "the schema has the variables " + got + "instead of " + names;
    auto r = rs::parse(text);
    if (ast->m_delimiters.empty()) {
        ast->m_delimiters.push_back(std::make_unique<DelimiterStringAST>(' '));
        dynamic_cast<DelimiterStringAST*>(ast->m_delimiters[0].get())->add_delimiter('\n');
    }
    std::string m = check(pool, std::move(ast), r, st, true);
    if (!m.empty()) return m;
    // what was released is gone
    s->add_variable(cAdds[0], -1);
    auto again = s->release_schema_ast_ptr();
    if (again->m_schema_vars.size() != 1 || !again->m_delimiters.empty()) return "after it was released, the schema still has its variables";
    return "";
}
static std::string scratch() { return std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/p08-" + std::to_string(getpid()) + ".txt"; }
// Renaming a variable changes nothing but the name.
static std::string check_name(std::string const& name) {
    std::string plain = "q9";
    auto make = [&](std::string const& n) { return std::make_unique<BufferParser>(parse_schema("delimiters: \\n\ntimestamp:T\n" + n + ":a\nv:[ab]\n")); };
    auto a = make(name), b = make(plain);
    std::vector<std::string> in{""};
    for (size_t i = 0; i < in.size(); i++) if (in[i].size() < 4) for (char c : std::string("aT \n")) in.push_back(in[i] + c);
    for (auto const& s : in) {
        auto x = lx::run_buffer(*a, s), y = lx::run_buffer(*b, s);
        for (auto& e : y.events) for (auto& t : e.toks) for (auto& ty : t.types) if (ty == plain) ty = name;
        if (!(x.events.size() == y.events.size() && std::equal(x.events.begin(), x.events.end(), y.events.begin())))
            return "'" + s + "' with a variable named " + name + ": " + show_all(x.events) + " instead of " + show_all(y.events);
    }
    return "";
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    de::Stats st;
    if (c.count("name")) return check_name(c.at("name"));
    if (c.count("ops")) {
        std::vector<std::pair<int, int>> ops;
        std::string t = c.at("ops");
        for (size_t i = 0; i < t.size();) { int a, b, n = 0; if (sscanf(t.c_str() + i, "%d@%d,%n", &a, &b, &n) != 2) break; ops.push_back({a, b}); i += (size_t)n; }
        return check_adds(pool, c.at("file"), ops, scratch(), st);
    }
    auto r = de::read_fresh(c.at("text"));
    if (!r.ok) return "not a schema: " + r.error;
    std::vector<int> perm;
    if (c.count("perm")) for (char ch : c.at("perm")) perm.push_back(ch - 'a');
    place::mode = atoi(c.at("place").c_str());
    place::perm = perm.empty() ? nullptr : &perm;
    place::count = 0;
    place::on = place::mode >= 0;
    std::string m = check(pool, std::move(r.ast), rs::parse(c.at("text")), st, true);
    place::on = false;
    return m;
}
static void explore(Ctx& x) {
    auto pool = std::make_unique<ref::Pool>();
    de::Reused<> reader;
    bool small = x.opt == "small";
    std::string text;
    int mode = -1;
    std::vector<int> perm;
    auto mk = [&] {
        Case c{{"text", text}, {"place", std::to_string(mode)}};
        if (!perm.empty()) { std::string s; for (int k : perm) s += (char)('a' + k); c["perm"] = s; }
        return c;
    };
    auto run = [&](std::string const& key = "") {
        x.describe = mk;
        if (pool->size() > 200000) pool = std::make_unique<ref::Pool>();
        auto r = reader.read(text);
        de::Stats st;
        std::string m;
        if (!r.ok) m = "not a schema: " + r.error;
        else {
            auto want = rs::parse(text);
            place::mode = mode;
            place::perm = perm.empty() ? nullptr : &perm;
            place::count = 0;
            place::on = mode >= 0;
            m = check(*pool, std::move(r.ast), want, st, true);
            place::on = false;
            place::count = 0;
        }
        x.evaluations++;
        x.traces++;
        x.states += st.states;
        x.transitions += st.transitions;
        x.nontrivial++;
        if (!m.empty()) x.fail(mk(), m, key);
        else if (x.index % 1999 == 0) x.sample("'" + text + "': " + std::to_string(st.states) + " product states and inputs, types in order");
    };
    // every sequence of patterns, with names of every kind
    std::vector<std::string> pats{"a", "[ab]", "a+", ".", "ab", "a{1,2}", "(a|b)b{0,1}", "[^ \\n]"};
    std::vector<std::vector<std::string>> names{{"x1", "x2", "x3", "x4"}, {"z", "y", "x", "w"}, {"int", "float", "hex", "a"},
                                                {"hex", "int", "v", "float"}, {"v", "w", "v", "w"}, {"v", "v", "u", "u"}};
    if (small) names.resize(4);
    size_t P = pats.size();
    size_t k = small ? 2 : x.thorough ? 4 : 3;
    uint64_t total = 0;
    for (size_t n = 1; n <= k; n++) {
        uint64_t all = 1;
        for (size_t i = 0; i < n; i++) all *= P;
        for (uint64_t w = 0; w < all; w++) for (size_t nm = 0; nm < names.size(); nm++) for (int where = 0; where < 3; where++) {
            if (n == 4 && (nm > 2 || where)) continue;
            total++;
            if (x.stop()) return;
            if (!x.mine()) continue;
            text = where == 0 ? "delimiters: \\n\n" : "";
            uint64_t q = w;
            for (size_t i = 0; i < n; i++) {
                text += names[nm][i] + ":" + pats[q % P] + "\n";
                q /= P;
                if (where == 2 && i == 0) text += "timestamp:b\n";
            }
            if (where) text += "delimiters:\\n \n";
            mode = -1;
            run();
        }
    }
    x.bounds.push_back("all " + std::to_string(total) + " sequences of up to " + std::to_string(k) + " of " + std::to_string(P) + " overlapping patterns, with "
                       + std::to_string(names.size()) + " choices of names (predefined, equal, in either alphabetic order) and 3 places of the delimiters and timestamp rules; for each all strings and all inputs of up to 3 of 4 characters");
#if !defined(__SANITIZE_ADDRESS__)
    // every placement of the states in memory
    total = 0;
    for (uint64_t w = 0; w < P * P * P; w++) for (mode = 0; mode < place::cModes; mode++) {
        if (!x.thorough && w % 5) continue;
        total++;
        if (x.stop()) return;
        if (!x.mine()) continue;
        text = "delimiters: \\n\nq:" + pats[w % P] + "\nint:" + pats[w / P % P] + "\na:" + pats[w / P / P] + "\n";
        run();
    }
    x.bounds.push_back(std::to_string(total) + " triples of patterns x placements of automaton states in memory");
    mode = 0;
    for (std::string t : {"delimiters: \\n\nb:a\na:[ab]\n", "delimiters: \\n\nb:a*b\na:.\n", "timestamp:a\ndelimiters: \\n\nc:a\nb:a\na:a\n"}) {
        size_t n = x.thorough ? 8 : 6;
        perm.clear();
        for (size_t i = 0; i < n; i++) perm.push_back((int)i);
        do {
            if (x.stop()) return;
            if (x.mine()) { text = t; run(); }
        } while (std::next_permutation(perm.begin(), perm.end()));
        x.bounds.push_back("3 schemas x all orders of the first " + std::to_string(n) + " automaton states in memory");
    }
    perm.clear();
#endif
    mode = -1;
    // names the parser uses for its own types
    for (std::string n : {"newLine", "firstTimestamp", "newLineTimestamp", "int", "float", "hex", "timestamps", "TokenEnd"}) {
        if (!x.mine()) continue;
        Case c{{"name", n}};
        x.describe = [&] { return c; };
        x.evaluations++;
        x.traces++;
        std::string m = run_case(c);
        if (!m.empty()) x.fail(c, m, "name:" + n);
    }
    // every sequence of additions
    int depth = small ? 3 : x.thorough ? 5 : 4;
    total = 0;
    std::string path = scratch();
    for (std::string file : {"", "delimiters: \\n\nf1:[ac]\nf2:ab*\n"}) {
        size_t base = rs::parse(file).vars.size();
        int const d = base == 0 ? depth : depth - 1;
        std::vector<std::pair<int, int>> ops;
        std::function<void()> rec = [&] {
            total++;
            if (x.stop()) return;
            if (x.mine()) {
                auto mk2 = [&] {
                    std::string s;
                    for (auto [a, b] : ops) s += std::to_string(a) + "@" + std::to_string(b) + ",";
                    return Case{{"file", file}, {"ops", s}};
                };
                x.describe = mk2;
                de::Stats st;
                std::string m = check_adds(*pool, file, ops, path, st);
                x.evaluations++;
                x.traces++;
                x.states += st.states;
                x.transitions += st.transitions;
                if (ops.size() > 1) x.nontrivial++;
                if (!m.empty()) x.fail(mk2(), m);
            }
            if ((int)ops.size() == d) return;
            // which variable is added follows from the step and, for the first two, is varied
            for (int pos = -1; pos <= (int)(base + ops.size()); pos++)
                for (int what = 0; what < (ops.size() < 2 ? 3 : 1); what++) {
                    ops.push_back({(int)(what + ops.size()) % (int)cAdds.size(), pos});
                    rec();
                    ops.pop_back();
                }
        };
        rec();
    }
    x.bounds.push_back("all " + std::to_string(total) + " sequences of up to " + std::to_string(depth) + " additions at every position, to an empty schema, and (one fewer) to one read from a file");
}
VF_MAIN((vf::Check{"P08", explore, run_case}))
