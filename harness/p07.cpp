// P07: the result of parsing a schema depends on its text only: not on the parses before it, the
// reads that deliver it, the buffer capacity, its size, or whether it comes from a file.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include "schema_texts.hpp"
using namespace vf;
using namespace log_surgeon;

static uint32_t const cMaxCap = 1024;
#ifdef LOG_SURGEON_VERIF
static void set_cap(uint32_t n) { cStaticByteBuffSize = n; }
static uint32_t const cShipped = cMaxCap;
#else
static void set_cap(uint32_t) {}
static uint32_t const cShipped = cStaticByteBuffSize;
#endif

// --- fingerprints
using Cat = finite_automata::RegexASTCat<finite_automata::RegexNFAByteState>;
static void leaves(de::Ast const* a, std::string& out) {
    // Concatenations nest to the left as deep as a pattern is long.
    std::vector<de::Ast const*> rest;
    while (auto const* c = dynamic_cast<Cat const*>(a)) { rest.push_back(c->get_right()); a = c->get_left(); }
    rest.push_back(a);
    for (size_t i = rest.size(); i-- > 0;) out += de::u8(rest[i]->serialize()) + " ";
}
static std::string print(de::Read const& r) {
    if (!r.ok) return "rejected: " + r.error;
    std::string o = "read:";
    for (auto const& v : r.vars) { o += "\n" + v.name + "@" + std::to_string(v.line) + " "; leaves(v.re, o); }
    for (auto const& d : r.delims) o += "\ndelimiters " + esc(d);
    return o;
}
static std::string short_diff(std::string const& a, std::string const& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i < 60 ? 0 : i - 60;
    return "...'" + a.substr(s, 160) + "' instead of ...'" + b.substr(s, 160) + "'";
}
// Computed in a process that has parsed nothing else.
static std::string pristine(std::string const& text) {
    int p[2];
    if (pipe(p)) abort();
    pid_t pid = fork();
    if (pid == 0) {
        set_cap(cMaxCap);
        std::string s = print(de::read_fresh(text));
        for (size_t i = 0; i < s.size();) { ssize_t k = write(p[1], s.data() + i, s.size() - i); if (k <= 0) break; i += (size_t)k; }
        _exit(0);
    }
    close(p[1]);
    std::string s;
    char b[4096];
    ssize_t k;
    while ((k = ::read(p[0], b, sizeof b)) > 0) s.append(b, (size_t)k);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) s = "crashed";
    return s;
}
// --- files
struct Scratch {
    std::string dir;
    Scratch() {
        char const* t = getenv("TMPDIR");
        std::string d = std::string(t ? t : "/tmp") + "/p07-XXXXXX";
        if (!mkdtemp(d.data())) abort();
        dir = d;
    }
    ~Scratch() { unlink((dir + "/schema").c_str()); rmdir(dir.c_str()); }
};
static de::Read read_file(std::string const& path) {
    de::Read r;
    try {
        r.ast = SchemaParser::try_schema_file(path);
        if (!r.ast) { r.error = "(no schema)"; return r; }
        de::fill(r);
    } catch (std::exception const& e) { r.error = e.what(); }
    return r;
}
static de::Read read_text_file(std::string const& text) {
    Scratch s;
    FILE* f = fopen((s.dir + "/schema").c_str(), "wb");
    if (!f) abort();
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    return read_file(s.dir + "/schema");
}
// --- reads: one schema parser object, reads of the given sizes (then whole)
template <class SP = SchemaParser>
static de::Read read_with(std::string const& text, std::vector<size_t> const& sizes) {
    de::Read r;
    if constexpr (de::Reused<SP>::possible) {
        static std::unique_ptr<SP> sp{new SP{}};
        size_t pos = 0, i = 0;
        Reader rd{[&](char* b, size_t n, size_t& got) -> ErrorCode {
            got = std::min({n, text.size() - pos, i < sizes.size() ? sizes[i] : text.size()});
            i++;
            memcpy(b, text.data() + pos, got);
            pos += got;
            return got == 0 ? ErrorCode::EndOfFile : ErrorCode::Success;
        }};
        try {
            r.ast = sp->generate_schema_ast(rd);
            if (!r.ast) { r.error = "(no schema)"; return r; }
            de::fill(r);
        } catch (std::exception const& e) { r.error = e.what(); }
        return r;
    } else return de::read_fresh(text);
}

// The texts of the histories.
static std::vector<std::string> const& pool() {
    static std::vector<std::string> p = [] {
        std::vector<std::string> v{
            "a:b", "delimiters: ,\nint:[0-9]+\nw:(a|b)*c\n", st::cSmall, st::cDocs, "//", "//c\n", "\n", "", "a", "a:", "a:(b", "a:b)", "a:[b", "a:b{2",
            "a:b\n\nc:(d\n", "a:[z-a]", "delimiters:(a|b)", "a:b{3,2}", "delimiters:", "a:b\ndelimiters", "x:(?<u>a|(?<v>b))*", "a:\\", ":b", "a:b\r"};
        std::string big = "delimiters: ,\n";
        for (int i = 0; i < 60; i++) big += "v" + std::to_string(i) + ":((a" + std::to_string(i) + "|b)*[c-d]{1,3})\n";
        v.push_back(big);
        v.push_back(big + "w:(((((a");
        v.push_back("w:" + std::string(200, '(') + "a" + std::string(200, ')') + "\nd:e");
        v.push_back("w:" + std::string(300, '('));
        return v;
    }();
    return p;
}
// A history: steps "<how><text index>", how: s string, f file, r the reused parser.
static std::vector<std::string> split(std::string const& s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) { size_t e = s.find(' ', i); if (e == std::string::npos) e = s.size(); if (e > i) v.push_back(s.substr(i, e - i)); i = e + 1; }
    return v;
}
static std::vector<std::string> g_want;
static std::string run_history(std::vector<std::string> const& steps, std::vector<std::string> const& want) {
    static de::Reused<> reused;
    for (size_t k = 0; k < steps.size(); k++) {
        size_t i = (size_t)atoi(steps[k].c_str() + 1);
        auto const& text = pool().at(i);
        de::Read r = steps[k][0] == 's' ? de::read_fresh(text) : steps[k][0] == 'f' ? read_text_file(text) : reused.read(text);
        std::string got = print(r);
        if (got != want[i]) return "parse " + std::to_string(k + 1) + " ('" + esc(text.substr(0, 60)) + "'): " + short_diff(got, want[i]);
    }
    return "";
}
// Large schemas: a padding of n bytes or n repetitions, then a fixed part.
static std::string const cTail = "tail:(x|y)*[0-9]{2,4}\ndelimiters: ,\nlast:\\d+z\n";
struct Big { std::string text; size_t vars{0}, lines{0}; std::string first; };
static Big big(std::string const& kind, size_t n) {
    Big b;
    if (kind == "comment") { b.text = "//c" + std::string(n, 'c') + "\n"; b.lines = 1; }
    else if (kind == "lines") { b.text = "//c\n" + std::string(n, '\n'); b.lines = n + 1; }
    else if (kind == "crlf") { b.text = "//c\r\n"; for (size_t i = 0; i < n; i++) b.text += "\r\n"; b.lines = n + 1; }
    else if (kind == "name") { b.text = std::string(n + 1, 'n') + ":p\n"; b.vars = 1; b.lines = 1; }
    else if (kind == "pattern") { b.text = "v:" + std::string(n + 1, 'p') + "\n"; b.vars = 1; b.lines = 1; }
    else if (kind == "spaces") { b.text = "//c\n" + std::string(n, ' ') + "v:p\n"; b.vars = 1; b.lines = 2; }
    else if (kind == "variables") { for (size_t i = 0; i < n; i++) b.text += "v:p\n"; if (n == 0) b.text = "//c\n"; b.vars = n; b.lines = std::max<size_t>(n, 1); }
    else if (kind == "parens") { b.text = "v:" + std::string(n, '(') + "p" + std::string(n, ')') + "\n"; b.vars = 1; b.lines = 1; }
    else if (kind == "stars") { b.text = "v:p" ; for (size_t i = 0; i < n; i++) b.text += "(q)*"; b.text += "\n"; b.vars = 1; b.lines = 1; }
    else if (kind == "bracket") { b.text = "v:[" + std::string(n + 1, 'p') + "]\n"; b.vars = 1; b.lines = 1; }
    else if (kind == "delims") { b.text = "delimiters:" + std::string(n + 1, 'd') + "\n"; b.lines = 1; }
    else abort();
    b.text += cTail;
    return b;
}
static std::string check_big(std::string const& kind, size_t n, bool broken, std::string const& how) {
    Big b = big(kind, n);
    if (broken) b.text += "bad:(";  // a mistake on the last line
    de::Read r = how == "file" ? read_text_file(b.text) : how == "string" ? de::read_fresh(b.text) : read_with(b.text, {});
    std::string line = std::to_string(b.lines + 4);
    if (broken) {
        if (r.ok) return "a mistake on line " + line + " is not noticed";
        return r.error.find(":" + line + ":") == std::string::npos ? "the mistake is on line " + line + ": " + r.error.substr(0, 300) : "";
    }
    if (!r.ok) return "rejected: " + r.error.substr(0, 300);
    if (r.vars.size() != b.vars + 2) return std::to_string(r.vars.size()) + " variables instead of " + std::to_string(b.vars + 2);
    for (size_t i = 0; i < b.vars; i++) {
        auto const& v = r.vars[i];
        unsigned l = kind == "spaces" ? 1 : (unsigned)i;
        if (v.line != l) return "variable " + std::to_string(i) + " is said to be on line " + std::to_string(v.line + 1);
        if (v.name != (kind == "name" ? std::string(n + 1, 'n') : "v")) return "name of variable " + std::to_string(i) + ": '" + v.name.substr(0, 100) + "'";
        std::string got, want = "p ";
        leaves(v.re, got);
        if (kind == "pattern") { want.clear(); for (size_t k = 0; k <= n; k++) want += "p "; }
        if (kind == "stars") {
            if ((size_t)std::count(got.begin(), got.end(), 'q') != n || (size_t)std::count(got.begin(), got.end(), '*') > n) return "pattern of " + std::to_string(n) + " repetitions is read as " + got.substr(0, 200);
        } else if (kind == "bracket") {
            if ((size_t)std::count(got.begin(), got.end(), 'p') != 2 * (n + 1)) return "bracket expression of " + std::to_string(n + 1) + " letters is read as " + got.substr(0, 200);
        } else if (got != want) return "pattern: " + short_diff(got, want);
    }
    unsigned at = (unsigned)b.lines;
    auto const &t = r.vars[b.vars], &l = r.vars[b.vars + 1];
    if (t.name != "tail" || t.line != at || l.name != "last" || l.line != at + 2) return "the variables at the end are '" + t.name + "' on line " + std::to_string(t.line + 1) + " and '" + l.name + "' on line " + std::to_string(l.line + 1);
    std::string got, want;
    leaves(t.re, got);
    got += "; ";
    leaves(l.re, got);
    static std::string const tail = [] { auto f = de::read_fresh("tail:(x|y)*[0-9]{2,4}\nlast:\\d+z"); std::string s; leaves(f.vars.at(0).re, s); s += "; "; leaves(f.vars.at(1).re, s); return s; }();
    if (got != tail) return "patterns at the end: " + short_diff(got, tail);
    std::vector<std::string> wd{" ,"};
    if (kind == "delims") wd.insert(wd.begin(), std::string(n + 1, 'd'));
    // A delimiters rule begins with what follows its colon
    if (r.delims != wd) return "delimiters at the end: '" + esc(r.delims.empty() ? "(none)" : r.delims.back()) + "'";
    return "";
}
static std::string check_missing(std::string const& kind) {
    Scratch s;
    std::string path = kind == "missing" ? s.dir + "/nothing" : kind == "directory" ? s.dir : kind == "below a file" ? s.dir + "/schema/x" : "";
    if (kind == "below a file") fclose(fopen((s.dir + "/schema").c_str(), "wb"));
    auto r = read_file(path);
    if (r.ok) return "a schema is read from a path which is no file (" + kind + ")";
    if (r.error.empty()) return "no explanation";
    auto g = read_text_file("a:b\n");
    return g.ok && g.vars.size() == 1 ? "" : "afterwards, a file is not read: " + g.error;
}
static std::string run_case(Case const& c) {
    auto k = c.at("kind");
    if (k == "history") {
        auto steps = split(c.at("steps"));
        std::vector<std::string> want(pool().size());
        for (auto const& s : steps) { size_t i = (size_t)atoi(s.c_str() + 1); if (want.at(i).empty()) want[i] = pristine(pool()[i]); }
        return run_history(steps, want);
    }
    if (k == "reads") {
        std::string want = pristine(c.at("text"));
        set_cap((uint32_t)atoi(c.at("capacity").c_str()));
        std::vector<size_t> sizes;
        for (auto const& s : split(c.at("sizes"))) sizes.push_back((size_t)atoi(s.c_str()));
        std::string got = print(read_with(c.at("text"), sizes));
        if (sizes.empty() && got == want) got = print(de::read_fresh(c.at("text")));
        return got == want ? "" : short_diff(got, want);
    }
    if (k == "large") {
        set_cap((uint32_t)atoi(c.at("capacity").c_str()));
        return check_big(c.at("padding"), (size_t)atol(c.at("n").c_str()), c.at("broken") == "1", c.at("from"));
    }
    if (k == "file") {
        auto a = print(read_text_file(c.at("text"))), b = pristine(c.at("text"));
        return a == b ? "" : "from a file: " + short_diff(a, b);
    }
    return check_missing(c.at("path"));
}
static void history(Ctx& x, std::vector<std::string> const& steps) {
    if (!x.mine()) return;
    std::string s;
    for (auto const& k : steps) s += k + " ";
    Case c{{"kind", "history"}, {"steps", s}};
    x.describe = [&] { return c; };
    x.evaluations++; x.traces++; x.states++; x.transitions += steps.size();
    if (steps.size() > 1) x.nontrivial++;
    auto m = run_history(steps, g_want);
    if (!m.empty()) x.fail(c, m);
}
static void reads(Ctx& x, uint32_t cap, std::string const& text, std::string const& want, std::vector<size_t> const& sizes) {
    auto mk = [&] { std::string s; for (auto k : sizes) s += std::to_string(k) + " "; return Case{{"kind", "reads"}, {"capacity", std::to_string(cap)}, {"text", text}, {"sizes", s}}; };
    x.describe = mk;
    set_cap(cap);
    std::string got = print(read_with(text, sizes));
    x.evaluations++; x.traces++; x.transitions += sizes.size() + 1; x.states++;
    if (sizes.size() > 1 && text.size() > cap / 2) x.nontrivial++;
    if (got != want) x.fail(mk(), short_diff(got, want));
}
static void explore(Ctx& x) {
    bool t = x.thorough, small = x.opt == "small", plain = x.opt == "plain";
    auto sweep = [&](std::vector<std::string> const& kinds, std::vector<size_t> const& ns, std::vector<uint32_t> const& caps, std::vector<std::string> const& hows) {
        for (auto const& k : kinds)
            for (size_t n : ns)
                for (auto cap : caps)
                    for (bool broken : {false, true})
                        for (auto const& how : hows) {
                            if (x.stop()) return;
                            if (!x.mine()) continue;
                            Case c{{"kind", "large"}, {"padding", k}, {"n", std::to_string(n)}, {"capacity", std::to_string(cap)}, {"broken", broken ? "1" : "0"}, {"from", how}};
                            x.describe = [&] { return c; };
                            set_cap(cap);
                            x.evaluations++; x.traces++; x.states++; x.transitions += 1; x.nontrivial++;
                            x.extra["large_schemas"]++;
                            auto m = check_big(k, n, broken, how);
                            if (!m.empty()) x.fail(c, m);
                        }
    };
    std::vector<std::string> kinds{"comment", "lines", "crlf", "name", "pattern", "spaces", "variables", "parens", "stars", "bracket", "delims"};
    if (plain) {
        std::vector<size_t> ns{0};
        size_t h = cShipped / 2, w = t ? 48 : 6;
        for (size_t b : {h, 2 * h, 3 * h, 4 * h})
            for (size_t d = 0; d <= 2 * w; d++) ns.push_back(b + w - d);
        std::vector<size_t> few{1, 100, 1000, 2399, 5000, 6000};
        // The fixed part is 50 bytes: cover the boundary in each of its bytes
        std::vector<size_t> all = ns;
        for (size_t d = 0; d < 60; d += t ? 1 : 3) { all.push_back(h - 2 - d); all.push_back(2 * h - 2 - d); }
        sweep({"comment", "name", "spaces", "delims"}, all, {cShipped}, {"string", "file"});
        sweep({"pattern", "lines"}, {1000, h - 20, 2 * h + 1}, {cShipped}, {"string", "file"});
        sweep({"variables", "crlf", "parens", "stars", "bracket"}, few, {cShipped}, {"string"});
        x.bounds.push_back("schemas of up to 100 KB of 11 shapes around the multiples of half the shipped buffer size (48000)");
        return;
    }
    // 1. histories
    auto const& p = pool();
    for (auto const& s : p) g_want.push_back(pristine(s));
    auto hist = [&](char const* hows, size_t len, size_t step) {
        std::vector<std::string> al;
        for (char const* h = hows; *h; h++) for (size_t i = 0; i < p.size(); i += step) al.push_back(*h + std::to_string(i));
        std::vector<size_t> d(len, 0);
        while (!x.stop()) {
            std::vector<std::string> s;
            for (auto i : d) s.push_back(al[i]);
            history(x, s);
            size_t i = len;
            bool carry = true;
            while (carry && i-- > 0) { if (++d[i] == al.size()) d[i] = 0; else carry = false; }
            if (carry) break;
        }
        x.bounds.push_back("all sequences of " + std::to_string(len) + " of " + std::to_string(al.size()) + " parses (" + hows + ")");
    };
    set_cap(cMaxCap);
    hist("s", 2, small ? 3 : 1);
    hist("sf", 1, 1);
    hist("f", 2, small ? 5 : t ? 1 : 2);
    hist("r", small ? 2 : 3, 1);
    if (t) hist("r", 4, 1);
    if (t) hist("sr", 3, 2);
    // 2. reads and capacities
    auto whole = [&](std::string const& text) { set_cap(cMaxCap); return print(read_with(text, {})); };
    std::vector<uint32_t> caps{4, 6, 8, 16, 64};
    auto at_caps = [&](std::string const& text) {
        std::string want = whole(text);
        for (auto cap : caps) {
            reads(x, cap, text, want, {});
            std::vector<size_t> ones(text.size(), 1);
            if (text.size() < 200) reads(x, cap, text, want, ones);
        }
    };
    for (auto const& s : p) if (x.mine()) at_caps(s);
    auto al = st::letters("ab:\n /,(");
    al.push_back("delimiters");
    st::texts(x, "structure, 5 capacities", "", al, small ? 3 : t ? 6 : 5, "", at_caps);
    st::texts(x, "lines, 5 capacities", "a:b\n", {"\n", "\r\n", "//c", "a:b", "delimiters: ,", "ab:(c)", "/", "a"}, small ? 3 : t ? 6 : 5, "", at_caps);
    if (!small) st::edits(x, st::cSmall, t ? "a:\n\r ()|*+[]{}^-\\d,./?<>1" : ":\n(a", at_caps);
    std::vector<std::string> shorts{"a:b\n//c\nd:e", "delimiters:,\nb:c", "//\r\na:(b|c)", "a:b\n\n\nc:(", "x:[a-c]{2}\n"};
    for (auto const& s : shorts) {
        std::string want = whole(s);
        size_t n = s.size(), m = small ? 9 : t ? n : std::min<size_t>(n, 13);
        for (uint64_t bits = 0; bits < (1ull << (m - 1)) && !x.stop(); bits++) {
            if (!x.mine()) continue;
            std::vector<size_t> sz(1, 1);
            for (size_t i = 0; i + 1 < m; i++) { if (bits >> i & 1) sz.push_back(1); else sz.back()++; }
            for (auto cap : {4u, 8u, 1024u}) reads(x, cap, s, want, sz);
        }
    }
    x.bounds.push_back("all divisions into reads of the first 13 bytes of 5 texts at 3 capacities");
    for (auto const& s : {st::cDocs, st::cSmall, p[24], p[25]}) {
        std::string want = whole(s);
        for (size_t a = 1; a <= std::min<size_t>(s.size(), small ? 60 : t ? 1000 : 400) && !x.stop(); a++)
            for (auto cap : {8u, 64u, 256u, 1024u}) {
                if (!x.mine()) continue;
                reads(x, cap, s, want, {a});          // two reads
                std::vector<size_t> sz(s.size() / a + 1, a);
                reads(x, cap, s, want, sz);  // chunks of a
            }
    }
    x.bounds.push_back("two reads and equal reads of every size for 4 schemas at 4 capacities");
    // 3. large schemas relative to the buffer
    std::vector<size_t> ns;
    for (size_t n = 0; n <= (small ? 10u : t ? 200u : 70u); n++) ns.push_back(n);
    sweep(kinds, ns, {4, 6, 8, 16, 32, 64}, {"reused"});
    sweep(kinds, {1, 10, 500, 2000}, {8, 1024}, {"string", "file"});
    if (!small) sweep(kinds, {511, 512, 513, 1000, 1023, 1024, 1025, 3000}, {8, 1024}, {"reused"});
    x.bounds.push_back("11 shapes of schemas, every size up to 70, relative to 6 buffer capacities, with and without a mistake on the last line; sizes up to 3000");
    // 4. files
    for (auto const& s : p) {
        if (!x.mine()) continue;
        set_cap(cMaxCap);
        Case c{{"kind", "file"}, {"text", s}};
        x.describe = [&] { return c; };
        x.evaluations++; x.traces++;
        auto a = print(read_text_file(s)), b = whole(s);
        if (a != b) x.fail(c, "from a file: " + short_diff(a, b));
    }
    for (auto const* k : {"missing", "directory", "below a file", "empty"}) {
        if (!x.mine()) continue;
        Case c{{"kind", "path"}, {"path", k}};
        x.describe = [&] { return c; };
        x.evaluations++;
        auto m = check_missing(k);
        if (!m.empty()) x.fail(c, m);
    }
    set_cap(cMaxCap);
}
VF_MAIN((vf::Check{"P07", explore, run_case}))
