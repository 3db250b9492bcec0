// Access to the real implementation (compiled from /repo/src) through its public API.
#pragma once
#include <algorithm>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/Constants.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/Schema.hpp>
#include <log_surgeon/SchemaParser.hpp>

#include "ref.hpp"

namespace impl {
using namespace log_surgeon;

struct Ev : ref::Event {
    bool multiline{false};
    std::string logtype, str, ts;
};

// How a source hands out its bytes: the sizes of the successive reads (0: report an error once).
struct Source {
    std::string data;
    std::vector<size_t> chunks;  // max bytes for read i; after the last one: no limit
    size_t pos{0}, calls{0};
    int err_at_call{-1};  // this call fails with Errno
    size_t err_calls{0};
    Reader reader() {
        return Reader{[this](char* dst, size_t count, size_t& n) -> ErrorCode {
            size_t i = calls++;
            if ((int)i == err_at_call) { n = 0; err_calls++; return ErrorCode::Errno; }
            size_t lim = i < chunks.size() ? chunks[i] : count;
            n = std::min({lim, count, data.size() - pos});
            if (n == 0) return ErrorCode::EndOfFile;
            std::copy(data.begin() + (long)pos, data.begin() + (long)(pos + n), dst);
            pos += n;
            return ErrorCode::Success;
        }};
    }
};

inline ref::Tok tok_of(LogParser const& lp, Token& t) {
    ref::Tok o;
    o.text = t.to_string();
    for (auto id : *t.m_type_ids_ptr) {
        std::string n = lp.get_id_symbol(id);
        o.types.push_back(n);
    }
    return o;
}
// Reads a view back through its public interface.
inline Ev event_of(LogEventView const& v, bool metadata = true) {
    Ev e;
    auto const& ob = v.get_log_output_buffer();
    e.has_ts = ob->has_timestamp();
    for (uint32_t i = e.has_ts ? 0 : 1; i < ob->pos(); i++) {
        Token& t = ob->get_mutable_token(i);
        if (t.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd) continue;
        e.toks.push_back(tok_of(v.get_log_parser(), t));
    }
    if (metadata) {
        e.multiline = v.is_multiline();
        e.str = v.to_string();
        e.logtype = v.get_logtype();
        if (Token* t = v.get_timestamp()) e.ts = t->to_string();
    }
    return e;
}
struct Run {
    std::vector<Ev> events;
    ErrorCode err{ErrorCode::Success};
    bool done{false};
    bool overrun{false};  // more events than the input can have
};
// Parses everything a source delivers with the stream API.
inline Run run_reader(ReaderParser& p, Source& src, bool metadata = true) {
    Run r;
    Reader rd = src.reader();
    p.reset_and_set_reader(rd);
    size_t limit = src.data.size() + 3;
    while (!p.done()) {
        r.err = p.parse_next_event();
        if (r.err != ErrorCode::Success) break;
        r.events.push_back(event_of(p.get_log_parser().get_log_event_view(), metadata));
        if (r.events.size() > limit) { r.overrun = true; break; }
    }
    r.done = p.done();
    return r;
}
inline std::string show(ref::Event const& e) {
    std::string o = e.has_ts ? "T{" : "{";
    for (auto const& t : e.toks) {
        o += "<" + t.text + ":";
        for (auto const& x : t.types) o += x + (x == t.types.back() ? "" : ",");
        o += ">";
    }
    return o + "}";
}
template <class V>
std::string show_all(V const& v) {
    std::string o;
    for (auto const& e : v) o += show(e) + " ";
    return o;
}
inline std::unique_ptr<SchemaAST> parse_schema(std::string const& text) {
#ifdef LOG_SURGEON_VERIF
    uint32_t save = cStaticByteBuffSize;
    cStaticByteBuffSize = cStaticByteBuffCapacity;
#endif
    auto a = SchemaParser::try_schema_string(text);
#ifdef LOG_SURGEON_VERIF
    cStaticByteBuffSize = save;
#endif
    return a;
}
}  // namespace impl
