// P21: delimiters never end up inside variables; the last delimiters rule decides which they are.
#include "common.hpp"
#include "log_dfa.hpp"
#include "patterns.hpp"
using namespace vf;
using namespace impl;

// The pattern as the implementation builds it into a log parser.  `file`: the path told to the parser.
static std::string one(ref::Pool& pool, std::unique_ptr<SchemaAST> ast, std::string const& text, std::string const& file,
                       de::Stats& st, bool& rejected) {
    auto r = rs::parse(text);
    if (!r.ok) return "the reference rejects the schema";
    auto e = ld::expect(pool, r);
    ast->m_file_path = file;
    std::string error;
    std::unique_ptr<BufferParser> p;
    try { p = std::make_unique<BufferParser>(std::move(ast)); } catch (std::exception const& x) { error = x.what(); if (error.empty()) error = "(no text)"; }
    rejected = !p;
    if (!p) {
        if (e.must_accept && !e.must_reject) return "rejected: " + error;
        if (e.must_reject && !e.lines.empty()) {
            std::string m = error.substr(0, file.size()) == file ? error.substr(file.size()) : error;
            int l = ld::line_of(m);
            if (l < 1 || !e.lines.count((unsigned)l - 1)) return "the pattern on line " + std::to_string(*e.lines.begin() + 1) + " can match a delimiter, the error says: " + error;
            auto const& [name, delims] = e.bad.at((unsigned)l - 1);
            if (m.find("'" + name + "'") == std::string::npos) return "the error does not name the variable '" + name + "': " + error;
            bool named = false;
            for (int c = 0; c < 256; c++) named = named || (delims.test((size_t)c) && m.find("'" + std::string(1, (char)c) + "'") != std::string::npos);
            if (!named) return "the error names no delimiter the pattern can match: " + error;
            if (!file.empty()) {
                // the line is shown, and what is after the colon is marked
                std::vector<std::string> show;
                std::string rest = m.substr(m.find("'.\n") + 3);
                for (size_t i = 0, n; i < rest.size(); i = n + 1) { n = std::min(rest.find('\n', i), rest.size()); show.push_back(rest.substr(i, n - i)); }
                size_t from = 0;
                for (int i = 1; i < l; i++) from = text.find('\n', from) + 1;
                std::string line = text.substr(from, text.find('\n', from) - from);
                if (show.size() != 2 || show[0].size() < line.size() || show[0].substr(show[0].size() - line.size()) != line) return "the error does not show line " + std::to_string(l) + ": " + error;
                size_t indent = show[0].size() - line.size(), first = show[1].find('^');
                if (first != indent + line.find(':') + 1 || show[1].size() != show[0].size() || show[1].find_first_not_of('^', first) != std::string::npos) return "the error does not mark the pattern: " + error;
            }
        }
        return "";
    }
    if (e.must_reject) return r.delims.empty() ? "accepted without delimiters" : "accepted, but the pattern on line " + std::to_string(*e.lines.begin() + 1) + " can match a delimiter";
    return ld::check_built(pool, e, p->get_log_parser(), st);
}
static std::string write_file(std::string const& text) {
    static std::string path = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/p21-" + std::to_string(getpid()) + ".txt";
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) return "";
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    return path;
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    de::Stats st;
    auto r = de::read_fresh(c.at("text"));
    if (!r.ok) return "not a schema: " + r.error;
    bool rej;
    std::string file = c.at("file") == "1" ? write_file(c.at("text")) : "";
    std::string m = one(pool, std::move(r.ast), c.at("text"), file, st, rej);
    if (!file.empty()) unlink(file.c_str());
    return m;
}
static void explore(Ctx& x) {
    auto pool = std::make_unique<ref::Pool>();
    de::Reused<> reader;
    bool small = x.opt == "small";
    auto run = [&](std::string const& text, bool with_file) {
        auto mk = [&] { return Case{{"text", text}, {"file", with_file ? "1" : "0"}}; };
        x.describe = mk;
        if (pool->size() > 200000) pool = std::make_unique<ref::Pool>();
        auto r = reader.read(text);
        std::string m;
        de::Stats st;
        bool rejected = false;
        if (!r.ok) m = "not a schema: " + r.error;
        else {
            std::string file = with_file ? write_file(text) : "";
            m = one(*pool, std::move(r.ast), text, file, st, rejected);
            if (!file.empty()) unlink(file.c_str());
        }
        x.evaluations++;
        x.traces++;
        x.states += st.states;
        x.transitions += st.transitions;
        x.extra[rejected ? "rejected" : "accepted"]++;
        if (rejected || st.states > 4) x.nontrivial++;
        if (!m.empty()) x.fail(mk(), m);
        else if (x.index % 1999 == 0) x.sample("'" + text + "': " + (rejected ? "rejected" : "accepted, " + std::to_string(st.states) + " product states equal"));
    };
    // every pattern with every set of delimiters
    pg::Gen g;
    g.chars = {"a", "b", " "};
    g.classes = {".", "[^a]", "[^ ,]", "[a-c]", "\\d", "\\s"};
    g.postfixes = {"*", "{0,1}", "{2}", "{0}"};
    g.captures = true;
    size_t n = small ? 2 : x.thorough ? 4 : 3;
    auto pats = g.up_to(n);
    std::vector<std::string> delims{" ", "a", " ,", "b\\n", "0 ", "\\n", "c\\-/", "5\\t"};
    x.bounds.push_back("all " + std::to_string(pats.size()) + " patterns up to size " + std::to_string(n) + " x " + std::to_string(delims.size()) + " sets of delimiters");
    for (auto const& p : pats) for (auto const& d : delims) {
        if (x.stop()) return;
        if (small && p.size() > 3 && x.index % 4) { x.index++; continue; }
        if (x.mine()) run("delimiters:" + d + "\nv:" + p + "\n", false);
    }
    // deeper nesting of the any-character and of a delimiter
    g = {};
    g.chars = {"b"};
    g.classes = {".", "[ ]", "[^x]"};
    g.postfixes = {"*", "{0,2}"};
    g.captures = true;
    n = small ? 3 : x.thorough ? 5 : 4;
    pats = g.up_to(n);
    for (auto const& p : pats) for (std::string d : {" ", "\\n", "b"}) {
        if (x.stop()) return;
        if (small && x.index % 8) { x.index++; continue; }
        if (x.mine()) run("delimiters:" + d + "\nv:" + p + "\n", false);
    }
    x.bounds.push_back("all " + std::to_string(pats.size()) + " patterns up to size " + std::to_string(n) + " around any-character, a delimiter and a negated class x 3 sets of delimiters");
    // every single character as delimiter, and as all of a pattern
    for (int c = 32; c < 127; c++) for (int d = 32; d < 127; d++) {
        if (small && (c + d) % 7) continue;
        auto q = [](int k) { std::string s; if (!isalnum(k) && rs::special(k)) s = "\\"; return s + (char)k; };
        if (x.stop()) return;
        if (x.mine()) run("delimiters:" + q(d) + "\nv:" + q(c) + "\nw:[" + q(c) + "x]y\n", false);
    }
    // every arrangement of up to 5 lines
    std::vector<std::string> lines{"delimiters: ", "delimiters:a\\n", "delimiters:,", "v:a", "w:.", "u:x y", "timestamp:a ,", "//c", "x:[^a]"};
    int k = small ? 3 : x.thorough ? 5 : 4;
    uint64_t total = 0;
    std::function<void(std::string const&, int)> rec = [&](std::string const& t, int left) {
        if (!t.empty()) {
            total++;
            if (x.stop()) return;
            if (x.mine()) { run(t, false); if (!small || x.index % 4 == 0) run(t, true); }
        }
        if (left) for (auto const& l : lines) rec(t + l + "\n", left - 1);
    };
    rec("", k);
    x.bounds.push_back("all " + std::to_string(total) + " schemas of up to " + std::to_string(k) + " of 9 lines (delimiters, patterns, timestamp, comment), with and without the path of the file");
}
VF_MAIN((vf::Check{"P21", explore, run_case}))
