// Many schemas: every combination of timestamp, variable and delimiter lines from a menu.
#pragma once
#include "log_dfa.hpp"
#include "log_explore.hpp"

namespace sm {
using namespace lx;
// A schema given as text.
inline Env env_of_text(ref::Pool& pool, std::string const& text, de::Reused<>* reader = nullptr) {
    auto ast = [&] {
        if (!reader) return parse_schema(text);
        auto r = reader->read(text);
        return r.ok ? std::move(r.ast) : parse_schema(text);
    };
    Env e;
    e.s.id = e.s.text = text;
    auto x = ld::expect(pool, rs::parse(text));
    e.s.ref.delims = x.delims;
    e.s.ref.rules = x.rules;
    e.rp = std::make_unique<ReaderParser>(ast());
    e.bp = std::make_unique<BufferParser>(ast());
    return e;
}
// By name (of schemas.hpp) or text.
inline Env env_of(ref::Pool& pool, std::string const& schema, bool reader, bool buffer) {
    return schema.find(':') != std::string::npos ? env_of_text(pool, schema) : make_env(pool, schema, reader, buffer);
}
inline bool usable(ref::Pool& pool, std::string const& text) {
    auto want = ld::expect(pool, rs::parse(text));
    if (!want.must_accept) return false;  // a pattern may match a delimiter
    for (auto const& r : want.rules) if (r.re->nullable) return false;
    if (!want.delims.test('\n')) for (auto const& r : want.rules) {
        // variables that contain newlines are not specified
        std::set<ref::Re> seen;
        ref::Set chars;
        ld::re_chars(r.re, seen, chars);
        if (chars.test('\n')) return false;
    }
    return true;
}
// Calls f(text, alphabet) for this shard's schemas with up to `max_vars` variables.
template <class F>
void menu(Ctx& x, size_t max_vars, F f) {
    std::vector<std::string> const vars{"", "v:a\n", "v:ab\n", "v:a+\n", "w:[ab]+\n", "w:b.*\n", "v:.*b\n", "u:(a|b)b\n", "u:a{2}\n", "w:(?<c>a)b{0,1}\n", "v:.\n", "u:[^a]\n", "u:[^ \\n:]+\n"};
    std::vector<std::string> const times{"", "timestamp:a\n", "timestamp:a b\n", "timestamp:ab\ntimestamp:a\n", "timestamp:a:\n", "timestamp: a\n", "timestamp:[ab] {0,1}b\n", "timestamp:a*b\n", "timestamp:a\ntimestamp:a b\n", "timestamp:[ab:]b\n"};
    std::vector<std::string> const delims{"delimiters: \\n\n", "delimiters:\\n:\n", "delimiters:\\n: \n", "delimiters:b\ndelimiters:\\n\n", "delimiters: \n"};
    uint64_t n = 0;
    for (auto const& ts : times) for (size_t a = 0; a < vars.size(); a++) for (size_t b = 0; b < vars.size(); b++) for (size_t k = 0; k < delims.size(); k++) {
        if (b > 0 && (a == 0 || max_vars < 2)) continue;
        n++;
        if (x.stop()) return;
        if (!x.mine()) continue;
        x.tick();
        // the delimiters stand in the first line, or in the last
        std::string text = (a + b + k) % 2 ? delims[k] + ts + vars[a] + vars[b] : ts + vars[a] + vars[b] + delims[k];
        ref::Pool pool;
        if (!usable(pool, text)) { x.extra["schemas_left_out"]++; continue; }
        x.extra["schemas"]++;
        f(text, std::string(k == 1 ? "ab:\n" : "ab \n"));
    }
    x.bounds.push_back("all " + std::to_string(n) + " schemas of one of " + std::to_string(times.size()) + " timestamp parts, up to "
                       + std::to_string(max_vars) + " of " + std::to_string(vars.size() - 1) + " variables and one of " + std::to_string(delims.size())
                       + " delimiter parts, without those whose meaning is not specified");
}
// Calls f(input) for all inputs up to length L; f returns whether to go on.
template <class F>
void inputs(std::string const& alphabet, size_t L, F f) {
    for (size_t n = 0; n <= L; n++) {
        std::string in(n, alphabet[0]);
        std::vector<size_t> d(n, 0);
        while (true) {
            if (!f(in)) return;
            size_t i = n;
            bool carry = true;
            while (carry && i-- > 0) {
                if (++d[i] == alphabet.size()) d[i] = 0; else carry = false;
                in[i] = alphabet[d[i]];
            }
            if (carry) break;
        }
    }
}
}  // namespace sm
