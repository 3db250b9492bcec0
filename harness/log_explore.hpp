// Enumeration of every input up to a length over the alphabets of the schemas, and the projections
// the log properties compare.
#pragma once
#include "common.hpp"
#include "impl.hpp"
#include "schemas.hpp"

namespace lx {
using namespace vf;
using namespace impl;

struct Env {  // one schema with a reusable parser and the reference
    schemas::S s;
    std::unique_ptr<ReaderParser> rp;
    std::unique_ptr<BufferParser> bp;
};
inline std::vector<Env> make_envs(ref::Pool& pool, bool reader, bool buffer) {
    std::vector<Env> v;
    for (auto const& s : schemas::make(pool)) {
        Env e;
        e.s = s;
        if (reader) e.rp = std::make_unique<ReaderParser>(parse_schema(s.text));
        if (buffer) e.bp = std::make_unique<BufferParser>(parse_schema(s.text));
        v.push_back(std::move(e));
    }
    return v;
}
inline Env make_env(ref::Pool& pool, std::string const& id, bool reader, bool buffer) {
    for (auto const& s : schemas::make(pool)) {
        if (s.id != id) continue;
        Env e;
        e.s = s;
        if (reader) e.rp = std::make_unique<ReaderParser>(parse_schema(s.text));
        if (buffer) e.bp = std::make_unique<BufferParser>(parse_schema(s.text));
        return e;
    }
    throw std::runtime_error("unknown schema " + id);
}
// Calls f(input) for every word over the alphabet with length in [lo, hi].
template <class F>
void words(Ctx& x, std::string const& alphabet, size_t lo, size_t hi, F f) {
    size_t K = alphabet.size();
    for (size_t n = lo; n <= hi; n++) {
        std::string in(n, alphabet[0]);
        std::vector<size_t> d(n, 0);
        while (true) {
            if (x.stop()) return;
            if (x.mine()) f(in);
            size_t i = n;
            bool carry = true;
            while (carry && i-- > 0) {
                if (++d[i] == K) d[i] = 0; else carry = false;
                in[i] = alphabet[d[i]];
            }
            if (carry) break;
        }
    }
}
// Everything in one buffer with finished_reading_input.
inline Run run_buffer(BufferParser& p, std::string data, bool metadata = true) {
    Run r;
    p.reset();
    size_t off = 0;
    size_t limit = data.size() + 3;
    while (!p.done()) {
        r.err = p.parse_next_event(data.data(), data.size(), off, true);
        if (r.err != ErrorCode::Success) break;
        r.events.push_back(event_of(p.get_log_parser().get_log_event_view(), metadata));
        if (r.events.size() > limit) { r.overrun = true; break; }
    }
    r.done = p.done();
    return r;
}
inline bool is_static(ref::Tok const& t) {
    return t.types[0] == "$UncaughtString" || t.types[0] == "newLine";
}
// Merges neighbouring static tokens (where static text is cut is not observable otherwise).
inline ref::Event canon(ref::Event const& e) {
    ref::Event o;
    o.has_ts = e.has_ts;
    for (auto const& t : e.toks) {
        if (is_static(t)) {
            if (!o.toks.empty() && is_static(o.toks.back())) o.toks.back().text += t.text;
            else o.toks.push_back({t.text, ref::cStatic});
        } else o.toks.push_back(t);
    }
    return o;
}
inline std::vector<ref::Event> canon_all(std::vector<Ev> const& v) {
    std::vector<ref::Event> o;
    for (auto const& e : v) o.push_back(canon(e));
    return o;
}
inline std::vector<ref::Event> canon_all(std::vector<ref::Event> const& v) {
    std::vector<ref::Event> o;
    for (auto const& e : v) o.push_back(canon(e));
    return o;
}
// The first and the later timestamps are one kind: which of the two a token is called depends on
// where the parse began.
inline void one_ts_kind(std::vector<ref::Event>& v) {
    for (auto& e : v) for (auto& t : e.toks) for (auto& y : t.types)
        if (y == "firstTimestamp" || y == "newLineTimestamp") y = "timestamp";
}
inline std::string run_status(Run const& r) {
    if (r.err != ErrorCode::Success) return "parse failed with error code " + std::to_string((int)r.err);
    if (r.overrun) return "the parser keeps producing events";
    if (!r.done) return "the parser is not done after the last event";
    return "";
}
}  // namespace lx
