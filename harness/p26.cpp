// P26: every token carries the number of its line.
#include "schema_menu.hpp"
#include "snap.hpp"
using namespace sn;

// The tokens of an event end at `pos` and further; their line is the number of newlines up to their end.
static std::string check_event(LogEventView const& v, std::string const& in, size_t& pos, uint64_t& tokens, bool& several) {
    auto const& ob = v.get_log_output_buffer();
    for (uint32_t i = ob->has_timestamp() ? 0 : 1; i < ob->pos(); i++) {
        Token& t = ob->get_mutable_token(i);
        pos += t.get_length();
        if (pos > in.size()) return "the tokens are longer than the input";
        auto want = (uint32_t)std::count(in.begin(), in.begin() + (long)pos, '\n');
        if (t.m_line != want) return "the token '" + t.to_string() + "' that ends at " + std::to_string(pos) + " is on line " + std::to_string(t.m_line) + " instead of " + std::to_string(want);
        tokens++;
        several = several || want > 1;
    }
    return "";
}
// `most`: the size of the reads, 0: of any size; SIZE_MAX: the buffer interface.  The first part of the input
// may have been parsed before, without coming to its end.
static std::string check_input(Env& e, std::string const& in, uint32_t size, size_t most, int before, uint64_t& tokens, bool& several) {
    std::string m;
    size_t pos = 0, n = 0;
    if (most == SIZE_MAX) {
        std::string buf = in;
        size_t off = 0;
        auto& p = *e.bp;
        p.reset();
        if (before) {
            for (int i = 0; i < before && !p.done(); i++) if (p.parse_next_event(buf.data(), buf.size(), off, true) != ErrorCode::Success) break;
            p.reset();
            off = 0;
        }
        while (m.empty() && !p.done() && n++ < in.size() + 3) {
            if (p.parse_next_event(buf.data(), buf.size(), off, true) != ErrorCode::Success) return "parsing fails";
            m = check_event(p.get_log_parser().get_log_event_view(), in, pos, tokens, several);
        }
        return m;
    }
    cStaticByteBuffSize = size;
    auto& p = *e.rp;
    auto src = [&] { Source s; s.data = in; s.chunks.assign(most ? in.size() + 2 : 0, most); return s; };
    Source s0 = src(), s = src();
    Reader r0 = s0.reader(), rd = s.reader();
    if (before) {
        p.reset_and_set_reader(r0);
        for (int i = 0; i < before && !p.done(); i++) if (p.parse_next_event() != ErrorCode::Success) break;
    }
    p.reset_and_set_reader(rd);
    while (m.empty() && !p.done() && n++ < in.size() + 3) {
        if (p.parse_next_event() != ErrorCode::Success) { m = "parsing fails"; break; }
        m = check_event(p.get_log_parser().get_log_event_view(), in, pos, tokens, several);
    }
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    return m;
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    Env e = sm::env_of(pool, c.at("schema"), true, true);
    uint64_t n = 0;
    bool b = false;
    return check_input(e, c.at("input"), (uint32_t)atoi(c.at("bufsize").c_str()), (size_t)strtoull(c.at("most").c_str(), nullptr, 10), atoi(c.at("before").c_str()), n, b);
}
static void one_input(Ctx& x, std::string const& id, Env& e, std::string const& in, std::vector<uint32_t> const& sizes) {
    for (uint32_t size : sizes) for (size_t most : {(size_t)0, (size_t)1, (size_t)3, SIZE_MAX}) for (int before = 0; before < 3; before++) {
        if (x.stop()) return;
        if (most == SIZE_MAX && size != sizes[0]) continue;
        auto mk = [&] { return Case{{"schema", id}, {"input", in}, {"bufsize", std::to_string(size)}, {"most", std::to_string(most)}, {"before", std::to_string(before)}}; };
        x.describe = mk;
        bool several = false;
        std::string m = check_input(e, in, size, most, before, x.transitions, several);
        x.evaluations++;
        x.traces++;
        if (several) x.nontrivial++;
        if (!m.empty()) x.fail(mk(), m);
    }
    if (x.index % 997 == 0 && in.size() > 3) x.sample(id + ": '" + in + "'");
}
static void explore(Ctx& x) {
    ref::Pool pool;
    std::string const what = " x 4 ways of delivery x after 0 to 2 events of another parse";
    if (x.opt == "schemas") {
        size_t L = x.thorough ? 6 : 5;
        de::Reused<> reader;
        sm::menu(x, x.thorough ? 2 : 1, [&](std::string const& text, std::string const& alphabet) {
            Env e = sm::env_of_text(pool, text, &reader);
            x.states++;
            sm::inputs(alphabet, L, [&](std::string const& in) { one_input(x, text, e, in, {cStaticByteBuffCapacity, 4}); return !x.stop(); });
        });
        x.bounds.push_back("each with all inputs over 4 characters up to length " + std::to_string(L) + " x 2 sizes of the buffer" + what);
        return;
    }
    for (auto const& s : schemas::make(pool)) {
        Env e = make_env(pool, s.id, true, true);
        size_t K = s.alphabet.size(), L = sn::max_len(K, x.opt == "small" ? 3000 : x.thorough ? 1000000 : 100000);
        x.bounds.push_back(s.id + ": inputs over " + std::to_string(K) + " characters up to length " + std::to_string(L) + " x 3 sizes of the buffer" + what);
        words(x, s.alphabet, 0, L, [&](std::string const& in) {
            x.states++;
            one_input(x, s.id, e, in, {cStaticByteBuffCapacity, 4, 10});
        });
    }
}
VF_MAIN((vf::Check{"P26", explore, run_case}))
