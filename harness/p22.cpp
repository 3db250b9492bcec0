// P22: malformed schemas are rejected with the right line, and do no damage.
#include "schema_texts.hpp"
using namespace vf;

static std::string const cGood = "delimiters: ,\nint:[0-9]+\nw:(a|b)*c\n";
// What the exception has to say about the place of the mistake: line and column, and the text between the
// line breaks around it with a mark below the mistake.
// Whether a text continues correctly, or may still do, beyond its first characters.
static bool viable(std::string const& text, size_t beyond) {
    auto r = rs::parse(text);
    return r.ok || r.unspecified || r.semantic || r.pos >= beyond;
}
static std::string escaped(char c) {
    switch (c) {
        case '\t': return "\\t";
        case '\r': return "\\r";
        case '\n': return "\\n";
        case '\v': return "\\v";
        case '\f': return "\\f";
        default: return {c};
    }
}
// What the exception says was found, and what was expected instead.
static std::string check_expected(std::string const& text, rs::Result const& want, std::string const& e) {
    std::string l = e.substr(0, e.find('\n'));
    size_t b = l.find(": error: expected ");
    if (b == std::string::npos) return "the exception does not say what was expected: " + e;
    b += 18;
    std::string const found = want.pos == text.size() ? " before end of file" : " before '" + escaped(text[want.pos]) + "' token";
    if (l.size() < b + found.size() || l.compare(l.size() - found.size(), found.size(), found) != 0) return "what is there is not what the exception says: " + e;
    l.resize(l.size() - found.size());
    bool any = false, single = false;
    size_t n = 0;
    while (b < l.size()) {
        if (l[b++] != '\'') return "the list of what was expected is garbled: " + e;
        size_t end = b + 1;
        while (end < l.size() && !(l[end] == '\'' && (end + 1 == l.size() || l.compare(end + 1, 2, ",'") == 0))) end++;
        if (end >= l.size()) return "the list of what was expected is garbled: " + e;
        std::string item = l.substr(b, end - b);
        b = end + 2;
        n++;
        std::string c = item.size() == 1 ? item : item == "\\t" ? "\t" : item == "\\r" ? "\r" : item == "\\n" ? "\n" : item == "\\v" ? "\v" : item == "\\f" ? "\f" : "";
        if (c.empty()) { c = item == "AlphaNumeric" ? "a" : item == "Numeric" ? "1" : ""; if (item == "$end") { any = any || viable(text.substr(0, want.pos), want.pos); continue; } }
        else if (want.pos < text.size() && c[0] == text[want.pos]) return "what was found is said to have been expected: " + e;
        single = single || !c.empty();
        if (!any && !c.empty()) any = viable(text.substr(0, want.pos) + c, want.pos + 1);
    }
    if (!n) return "nothing was expected: " + e;
    size_t from = want.pos;
    while (from > 0 && text[from - 1] != '\n' && text[from - 1] != '\r') from--;
    bool const comment = text.substr(from, want.pos - from).find("//") != std::string::npos;  // most characters could follow: they have a name
    if (!any && !single && !comment) return "no character is said to have been expected: " + e;
    if (!any && single) return "none of what is said to have been expected could have been there: " + e;
    return "";
}
static bool g_expected = true;  // what was expected is not checked again under the sanitizers
static std::string check_error(std::string const& text, rs::Result const& want, de::Read const& got) {
    if (want.unspecified || want.ok || want.semantic) return "";
    if (got.ok) return "";  // that is another property
    if (got.error.empty()) return "rejected without an explanation";
    auto brk = [&](size_t i) { return text[i] == '\n' || text[i] == '\r'; };
    size_t from = want.pos, to = want.pos;
    while (from > 0 && !brk(from - 1)) from--;
    while (to < text.size() && !brk(to)) to++;
    std::string const place = ":" + std::to_string(want.line + 1) + ":" + std::to_string(want.pos - from + 1) + ":";
    std::string const& e = got.error;
    if (e.substr(0, e.find('\n')).find(place) == std::string::npos) return "the mistake is at " + place + " but the exception says: " + e;
    if ((want.pos == text.size() && from == want.pos) || text.find((char)0) != std::string::npos) return "";  // nothing to show, or it cannot be shown
    if (g_expected) if (auto m = check_expected(text, want, e); !m.empty()) return m;
    std::string const shown = "\n" + std::string(10, ' ') + text.substr(from, to - from);
    size_t at = e.find(shown);
    if (at == std::string::npos || e.compare(at + shown.size(), 1, to < text.size() && to == want.pos ? text.substr(to, 1) : "\n") != 0)
        return "the line of the mistake is not shown: " + e;
    std::string const mark = "\n" + std::string(10 + want.pos - from, ' ') + "^\n";
    if (e.size() < mark.size() || e.compare(e.size() - mark.size(), mark.size(), mark) != 0) return "the mark is not below the mistake: " + e;
    return "";
}
static std::string check_good(de::Read const& g) {
    if (!g.ok) return "afterwards a correct schema is rejected: " + g.error;
    if (g.vars.size() != 2 || g.vars[0].name != "int" || g.vars[1].name != "w" || g.delims.size() != 1 || g.delims[0] != " ,")
        return "afterwards a correct schema is misread";
    return "";
}
static std::string run_case(Case const& c) {
    auto want = rs::parse(c.at("text"));
    auto got = de::read_fresh(c.at("text"));
    std::string m = check_error(c.at("text"), want, got);
    if (m.empty()) m = check_good(de::read_fresh(cGood));
    return m;
}
static void explore(Ctx& x) {
    if (x.opt == "tiny") g_expected = false;
    de::Reused<> reader;
    auto one = [&](std::string const& text) {
        x.describe = [&] { return Case{{"text", text}}; };
        auto want = rs::parse(text);
        x.states++;
        auto got = reader.read(text);
        x.evaluations++;
        x.traces++;
        x.transitions += 2;
        std::string m = check_error(text, want, got);
        if (!got.ok) {
            x.nontrivial++;
            if (want.line > 0) x.extra["mistakes_after_the_first_line"]++;
            if (m.empty() && x.evaluations % 8 == 0) m = check_good(reader.read(cGood));
        }
        if (!m.empty()) {
            m = run_case({{"text", text}});
            if (!m.empty()) x.fail({{"text", text}}, m);
        } else if (!got.ok && want.line > 1 && x.index % 997 == 0) x.sample("'" + text + "': " + got.error.substr(0, got.error.find('\n')));
    };
    st::all(x, one);
    // long lines, and long texts around them
    size_t const most = x.opt == "tiny" ? 40 : x.thorough ? 1400 : 600;
    std::vector<size_t> lengths;
    for (size_t n = 0; n <= most; n++) lengths.push_back(n);
    if (x.opt != "tiny") for (size_t b : {1024u, 4096u, 8192u, 32768u, 65536u}) for (size_t n = b - 12; n < b + 4; n++) if (n > most) lengths.push_back(n);
    for (size_t n : lengths) for (int shape = 0; shape < 5; shape++) for (char const* bad : {"{x", "\t", ")(", ""}) for (size_t lead = 0; lead < 3; lead++) for (size_t rest : {(size_t)0, (size_t)3, n}) {
        if (x.stop()) return;
        if (n > 8192 && (shape > 1 || rest > 3 || lead > 1)) continue;
        if (!x.mine()) continue;
        x.tick();
        std::string t = lead == 0 ? "" : lead == 1 ? "c:d\n" : "//" + std::string(n, 'c') + "\r\nc:d\n";
        switch (shape) {
            case 0: t += "a:" + std::string(n, 'b'); break;
            case 1: t += std::string(n, 'a') + ":b"; break;
            case 2: t += "a:[" + std::string(n, 'b'); break;
            case 3: t += "delimiters:" + std::string(n, ','); break;
            default: t += "a:" + std::string(n / 2, '(') + "b" + std::string(n / 2, ')'); break;
        }
        t += bad + std::string(rest, 'x') + (n % 2 ? "\nd:e" : "");
        one(t);
    }
    x.bounds.push_back("5 shapes of lines x every length up to " + std::to_string(most) + (x.opt == "tiny" ? "" : ", and around 1024, 4096, 8192, 32768 and 65536,") + " x 4 mistakes x 3 beginnings x 3 lengths of what follows");
}
VF_MAIN((vf::Check{"P22", explore, run_case}))
