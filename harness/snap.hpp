// A complete record of what an event answers through its public interface.
#pragma once
#include "log_explore.hpp"
namespace sn {
using namespace lx;
struct Snap {
    bool has_ts{false}, multiline{false}, delims{false};
    std::string str, logtype, ts;
    std::vector<ref::Tok> toks;
    std::vector<std::vector<std::string>> vars;  // by symbol id: the texts listed for it
    bool operator==(Snap const&) const = default;
    std::string show() const {
        std::string o = has_ts ? "[ts='" + ts + "' " : "[";
        o += "text='" + str + "' logtype='" + logtype + "'" + (multiline ? " multiline" : "") + " tokens:";
        for (auto const& t : toks) { o += " <" + t.text; for (auto const& y : t.types) o += ":" + y; o += ">"; }
        o += " lists:";
        for (size_t i = 0; i < vars.size(); i++) if (!vars[i].empty()) { o += " " + std::to_string(i) + "={"; for (auto const& v : vars[i]) o += "<" + v + ">"; o += "}"; }
        return o + "]";
    }
};
inline uint32_t first_token(LogEventView const& v) { return v.get_log_output_buffer()->has_timestamp() ? 0 : 1; }
inline Snap snap(LogEventView const& v) {
    Snap s;
    auto const& ob = v.get_log_output_buffer();
    s.has_ts = ob->has_timestamp();
    s.delims = ob->has_delimiters();
    s.multiline = v.is_multiline();
    s.str = v.to_string();
    s.logtype = v.get_logtype();
    if (Token* t = v.get_timestamp()) s.ts = t->to_string();
    auto const& lp = v.get_log_parser();
    for (uint32_t i = first_token(v); i < ob->pos(); i++) {
        Token& t = ob->get_mutable_token(i);
        if (t.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd) continue;
        s.toks.push_back(tok_of(lp, t));
    }
    size_t n = lp.m_lexer.m_id_symbol.size();
    s.vars.resize(n);
    for (size_t i = 0; i < n; i++) for (Token* t : v.get_variables(i)) s.vars[i].push_back(t->to_string());
    return s;
}
// The record of a whole parse.
struct Full {
    std::vector<Snap> events;
    ErrorCode err{ErrorCode::Success};
    bool done{false}, overrun{false};
    bool operator==(Full const&) const = default;
    std::string show() const {
        std::string o;
        for (auto const& e : events) o += e.show() + " ";
        return o + (err != ErrorCode::Success ? "error " + std::to_string((int)err) : "") + (done ? "" : "(not done)") + (overrun ? "(does not end)" : "");
    }
};
// Continues a parse on the stream interface until it is done or fails.
inline Full full_reader(ReaderParser& p, Source& src, size_t max_events = (size_t)-1) {
    Full r;
    Reader rd = src.reader();
    p.reset_and_set_reader(rd);
    while (!p.done() && r.events.size() < max_events) {
        r.err = p.parse_next_event();
        if (r.err != ErrorCode::Success) break;
        r.events.push_back(snap(p.get_log_parser().get_log_event_view()));
        if (r.events.size() > src.data.size() + 3) { r.overrun = true; break; }
    }
    r.done = p.done();
    return r;
}
// unused: the parser has done nothing since it was made.
inline Full full_buffer(BufferParser& p, std::string data, size_t from = 0, size_t max_events = (size_t)-1, bool unused = false) {
    Full r;
    if (!unused) p.reset();
    size_t off = from;
    while (!p.done() && r.events.size() < max_events) {
        r.err = p.parse_next_event(data.data(), data.size(), off, true);
        if (r.err != ErrorCode::Success) break;
        r.events.push_back(snap(p.get_log_parser().get_log_event_view()));
        if (r.events.size() > data.size() + 3) { r.overrun = true; break; }
    }
    r.done = p.done();
    return r;
}
inline std::string list(std::vector<size_t> const& v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; }
inline std::vector<size_t> unlist(std::string const& t) {
    std::vector<size_t> v;
    for (size_t i = 0; i < t.size();) { v.push_back((size_t)atoi(t.c_str() + i)); i = t.find(',', i); if (i == std::string::npos) break; i++; }
    return v;
}
// Calls f(pieces) for every composition of n.
template <class F>
void compositions(size_t n, F f) {
    uint32_t comps = n == 0 ? 1 : 1u << (n - 1);
    for (uint32_t m = 0; m < comps; m++) {
        std::vector<size_t> v;
        size_t c = 1;
        for (size_t i = 1; i < n; i++) { if (m >> (i - 1) & 1) { v.push_back(c); c = 1; } else c++; }
        if (n) v.push_back(c);
        f(v);
    }
}
inline size_t max_len(size_t K, uint64_t target) { size_t n = 0; for (uint64_t t = 1; t * K <= target; t *= K) n++; return n; }
}  // namespace sn
