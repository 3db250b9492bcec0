// Enumeration of schema texts: all short ones over several alphabets, all single edits of realistic
// ones, all bytes in all contexts.
#pragma once
#include "common.hpp"
#include "dfa_eq.hpp"

namespace st {
using namespace vf;
inline std::string const cDocs =
    "// Delimiters\ndelimiters: \\t\\r\\n:,!;%\n\n// Keywords\n"
    "timestamp:\\d{4}\\-\\d{2}\\-\\d{2} \\d{2}:\\d{2}:\\d{2}(\\.\\d{3}){0,1}\n"
    "timestamp:\\[\\d{8}\\-\\d{2}:\\d{2}:\\d{2}\\]\nint:\\-{0,1}[0-9]+\nfloat:\\-{0,1}[0-9]+\\.[0-9]+\n\n"
    "// Custom variables\nhex:[a-fA-F]+\nhasNumber:.*\\d.*\nequals:.*=.*[a-zA-Z0-9].*\n";
inline std::string const cSmall = "//c\r\ndelimiters: ,\na:(b|c)*[^d-f\\s]{2,3}\n\n b0:x(?<y>\\d+)=\\.\n";

// One letter of an alphabet is a string.
template <class F>
void texts(Ctx& x, std::string const& name, std::string const& prefix, std::vector<std::string> const& al,
           size_t hi, std::string const& suffix, F f) {
    uint64_t n_all = 0;
    for (size_t n = 0; n <= hi; n++) {
        std::vector<size_t> d(n, 0);
        while (true) {
            if (x.stop()) return;
            n_all++;
            if (x.mine()) {
                std::string s = prefix;
                for (auto i : d) s += al[i];
                f(s + suffix);
            }
            size_t i = n;
            bool carry = true;
            while (carry && i-- > 0) { if (++d[i] == al.size()) d[i] = 0; else carry = false; }
            if (carry) break;
        }
    }
    x.bounds.push_back(name + ": all " + std::to_string(n_all) + " texts of up to " + std::to_string(hi) + " of "
                       + std::to_string(al.size()) + " symbols");
}
inline std::vector<std::string> letters(std::string const& s) {
    std::vector<std::string> v;
    for (char c : s) v.push_back(std::string(1, c));
    return v;
}
template <class F>
void edits(Ctx& x, std::string const& base, std::string const& chars, F f) {
    auto g = [&](std::string const& s) { if (!x.stop() && x.mine()) f(s); };
    for (size_t i = 0; i <= base.size(); i++) {
        g(base.substr(0, i));                                   // truncation
        g(base.substr(i));                                      // loss of the start
        for (char c : chars) g(base.substr(0, i) + c + base.substr(i));  // insertion
        if (i == base.size()) break;
        g(base.substr(0, i) + base.substr(i + 1));              // deletion
        for (char c : chars) g(base.substr(0, i) + c + base.substr(i + 1));  // replacement
        if (i + 1 < base.size()) { std::string s = base; std::swap(s[i], s[i + 1]); g(s); }
        for (size_t k : {2u, 5u, 17u}) g(base.substr(0, i) + base.substr(std::min(base.size(), i + k)));
    }
}
template <class F>
void all(Ctx& x, F f) {
    bool const t = x.thorough, tiny = x.opt == "tiny", small = x.opt == "small" || tiny;
    auto al = letters("ab:\n /\r,");
    al.push_back("delimiters");
    al.push_back("\\n");
    texts(x, "structure", "", al, small ? 4 : t ? 7 : 6, "", f);
    texts(x, "lines", "a:b\n", {"\n", "\r\n", "//c", "a:b", " a:b", "delimiters:a", "delimiters: ,", "ab:(c)", "/", "a", ":", "b"}, small ? 3 : t ? 6 : 5, "", f);
    texts(x, "patterns", "a:", letters("ab|()*+[]^-\\d{}2,.?<>"), small ? 3 : t ? 6 : 4, "", f);
    texts(x, "groups", "a:", {"a", "b", "|", "(", ")", "*"}, small ? 5 : t ? 9 : 8, "", f);
    texts(x, "brackets", "a:", {"[", "]", "^", "a", "c", "-", "\\d", "\\s", "\\", "."}, small ? 4 : t ? 7 : 6, "\n", f);
    texts(x, "counts", "a:", {"a", "{", "}", "1", "2", ",", "(", ")"}, small ? 4 : t ? 8 : 7, "\nb:c", f);
    texts(x, "captures", "a:", {"(", "?", "<", ">", "a", ")", "|", "n1"}, small ? 4 : t ? 8 : 7, "", f);
    texts(x, "captures inside", "a:b(?<", {"a", ">", "(?<b>", ")", "|", "*", "{2}", "c"}, small ? 4 : t ? 8 : 7, "", f);
    texts(x, "the reserved word", "", {"d", "e", "del", "delimiter", "s", "delimiters", ":", "\n", "//"}, small ? 4 : t ? 7 : 6, "", f);
    std::string bytes;
    for (int c = 0; c < 256; c++) bytes += (char)c;
    std::vector<std::pair<std::string, std::string>> ctx{
        {"a:", ""}, {"a:\\", ""}, {"a:[", "]"}, {"a:[\\", "]"}, {"", ""}, {"", ":a"}, {"a", ":b"}, {"//", ""}, {"//", "\na:b"}, {"delimiters:", ""},
        {"delimiters:\\", ""}, {"delimiters:a", "\nb:c"}, {"a:b", ""}, {"a:(?<", ">b)"}, {"a:b\n", ""}, {"a:[b-", "]"}, {"a:[^", "]"}, {"a:b{", "}"},
        {"a:b{1", "}"}, {"a:b{1,", "}"}, {"a:(", ")"}, {"a:b|", ""}, {"a:[a-", ""}, {"a:b\r", "\n"}, {"\n", ""}, {" ", "a:b"}, {"a:b\n //", "\n"}};
    for (auto const& [p, s] : ctx) texts(x, "byte in '" + esc(p) + "_" + esc(s) + "'", p, letters(bytes), small ? 1 : 2, s, f);
    std::string edit_chars = small ? "a:\n\r ()|*+[]{}^-\\d,./?<>1" : bytes;
    if (!tiny) edits(x, cDocs, edit_chars, f);
    edits(x, cSmall, edit_chars, f);
    x.bounds.push_back("all truncations and single edits of " + std::string(tiny ? "a small schema" : "two realistic schemas") + " with " + std::to_string(edit_chars.size()) + " characters");
    if (!small) {
        std::string two = t ? "a:\n\r ()|*+[]{}^-\\d,./?<>1" : ":\n()[]{\\";
        std::vector<std::string> once;
        std::string b = cSmall;
        for (size_t i = 0; i < b.size(); i++) {
            once.push_back(b.substr(0, i) + b.substr(i + 1));
            for (char c : two) { once.push_back(b.substr(0, i) + c + b.substr(i)); once.push_back(b.substr(0, i) + c + b.substr(i + 1)); }
        }
        for (auto const& s : once) {
            for (size_t i = 0; i <= s.size() && !x.stop(); i++) {
                if (x.mine()) f(s.substr(0, i));
                if (i == s.size()) break;
                if (x.mine()) f(s.substr(0, i) + s.substr(i + 1));
                for (char c : two) { if (x.mine()) f(s.substr(0, i) + c + s.substr(i)); if (x.mine()) f(s.substr(0, i) + c + s.substr(i + 1)); }
            }
        }
        x.bounds.push_back("all pairs of edits of the smaller one with " + std::to_string(two.size()) + " characters");
    }
}
}  // namespace st
