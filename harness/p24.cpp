// P24: parsing needs memory for the longest event only, and everything is given back.
#include "heap.hpp"
#include "schema_menu.hpp"
#include "schema_texts.hpp"
#include "snap.hpp"
using namespace sm;

// The text: `pre` and then `w`, `n` times; handed out in reads of at most `most` bytes.
struct Repeat {
    std::string const* pre;
    std::string const* w;
    size_t n, most, pos;
    Reader reader() {
        return Reader{[this](char* dst, size_t count, size_t& got) -> ErrorCode {
            size_t const all = pre->size() + n * w->size();
            got = std::min({count, most, all - pos});
            if (got == 0) return ErrorCode::EndOfFile;
            for (size_t i = 0; i < got; i++, pos++) dst[i] = pos < pre->size() ? (*pre)[pos] : (*w)[(pos - pre->size()) % w->size()];
            return ErrorCode::Success;
        }};
    }
};
static size_t cShort = 128, cLong = 384;
// Whether each repetition ends at least an event, so that no event is longer than a few of them.
static bool bounded(ref::Pool& pool, ref::Schema const& s, std::string const& pre, std::string const& w) {
    auto count = [&](int n) {
        std::string in = pre;
        for (int i = 0; i < n; i++) in += w;
        return ref::segment(ref::tokenize(pool, s, in)).size();
    };
    return count(9) >= count(5) + 4;
}
struct Use { long peak{0}, after{0}; size_t events{0}; bool failed{false}; };
static void consume(LogEventView const& v, bool deep) {
    (void)v.get_logtype();
    (void)v.to_string();
    if (deep && v.get_log_output_buffer()->pos() > 1) (void)v.deep_copy();
}
static Use stream(ReaderParser& p, std::string const& pre, std::string const& w, size_t n, size_t most, bool deep) {
    Use u;
    Repeat r{&pre, &w, n, most, 0}, none{&pre, &w, 0, 0, 0};
    size_t const limit = pre.size() + n * w.size() + 3;
    heap::Count c;
    Reader rd = r.reader(), end = none.reader();
    heap::restart();
    p.reset_and_set_reader(rd);
    while (!p.done() && u.events < limit) {
        if (p.parse_next_event() != ErrorCode::Success) { u.failed = true; break; }
        consume(p.get_log_parser().get_log_event_view(), deep);
        u.events++;
    }
    u.peak = heap::peak;
    p.reset_and_set_reader(end);
    u.after = heap::live;
    return u;
}
static Use buffer(BufferParser& p, std::string const& pre, std::string const& w, size_t n, bool deep) {
    Use u;
    std::string in = pre;
    for (size_t i = 0; i < n; i++) in += w;
    heap::Count c;
    heap::restart();
    p.reset();
    size_t off = 0;
    while (!p.done() && u.events < in.size() + 3) {
        if (p.parse_next_event(in.data(), in.size(), off, true) != ErrorCode::Success) { u.failed = true; break; }
        consume(p.get_log_parser().get_log_event_view(), deep);
        u.events++;
    }
    u.peak = heap::peak;
    p.reset();
    u.after = heap::live;
    return u;
}
// `most`: 0 stands for the buffer interface
static std::string check_use(Env& e, std::string const& pre, std::string const& w, uint32_t size, size_t most, bool deep, Ctx* x) {
    cStaticByteBuffSize = size;
    auto go = [&](size_t n) { return most ? stream(*e.rp, pre, w, n, most, deep) : buffer(*e.bp, pre, w, n, deep); };
    go(cShort);  // what is kept between parses grows once
    Use a = go(cShort), b = go(cLong);
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    if (x) { x->transitions += a.events + b.events; x->extra["largest_peak_bytes"] = std::max<uint64_t>(x->extra["largest_peak_bytes"], (uint64_t)a.peak); }
    if (a.failed || b.failed) return "parsing fails";
    if (b.events < a.events + (cLong - cShort)) return "of " + std::to_string(cLong) + " repetitions only " + std::to_string(b.events) + " events are reported";
    if (a.peak != b.peak) return std::to_string(cShort) + " repetitions need " + std::to_string(a.peak) + " bytes, " + std::to_string(cLong) + " need " + std::to_string(b.peak);
    if (a.after != b.after) return "after a reset, " + std::to_string(b.after) + " bytes are in use instead of " + std::to_string(a.after);
    return "";
}
// Everything is given back after reading a schema, and after using a parser and what it gave out.
static std::string check_leak(std::string const& text, int what, Ctx* x) {
    heap::Count c;
    bool ok = false;
    auto once = [&] {
        std::unique_ptr<SchemaAST> ast;
        try { ast = parse_schema(text); ok = true; } catch (std::exception const&) {}
        if (!ok || what == 0) return;
        auto use = [](auto& p, auto next) {
            std::vector<LogEvent> kept;
            for (int i = 0; i < 3 && !p.done() && next() == ErrorCode::Success; i++) {
                auto const& v = p.get_log_parser().get_log_event_view();
                if (v.get_log_output_buffer()->pos() > 1) kept.push_back(v.deep_copy());
            }
            for (auto& e : kept) consume(e, false);
        };
        Source s;
        s.data = "ab 1\nab b\n12:3 4\nT a\nT b\n";
        size_t off = 0;
        try {
            if (what == 1) {
                BufferParser p(std::move(ast));
                use(p, [&] { return p.parse_next_event(s.data.data(), s.data.size(), off, true); });
            } else {
                ReaderParser p(std::move(ast));
                Reader rd = s.reader();
                p.reset_and_set_reader(rd);
                use(p, [&] { return p.parse_next_event(); });
            }
        } catch (std::exception const&) {}
    };
    // the symbols of one schema are kept until the next is read, and what is kept has grown once the
    // first time: only what is lost every time is lost
    std::string why;
    for (int i = 0; i < 5; i++) {
        long const b = heap::blocks, l = heap::live;
        once();
        if (x) x->transitions++;
        if (i > 0 && heap::blocks <= b && heap::live <= l) { why.clear(); break; }
        why = std::to_string(heap::blocks - b) + " blocks of " + std::to_string(heap::live - l) + " bytes are not given back, each time";
    }
    if (x) x->extra[ok ? "accepted" : "rejected"]++;
    return why;
}
static void warm_up() {
    static bool done = false;
    if (done) return;
    done = true;
    for (char const* t : {"delimiters: ,\nint:[0-9]+\nw:(a|b)*c\n", "a:(", "a:b\x01", "(:a"}) for (int w = 0; w < 3; w++) check_leak(t, w, nullptr);
}
static std::string run_case(Case const& c) {
    warm_up();
    if (c.count("text")) return check_leak(c.at("text"), atoi(c.at("use").c_str()), nullptr);
    ref::Pool pool;
    if (c.at("times") == "64") cShort = 64, cLong = 160;
    Env e = env_of(pool, c.at("schema"), true, true);
    return check_use(e, c.at("prefix"), c.at("repeated"), (uint32_t)atoi(c.at("bufsize").c_str()), (size_t)atoll(c.at("most").c_str()), c.at("copies") == "1", nullptr);
}
static void one_word(Ctx& x, ref::Pool& pool, std::string const& id, Env& e, std::string const& w, std::vector<uint32_t> const& sizes) {
    std::string const longer = std::string(20, 'a') + "\n";
    for (std::string const& pre : {std::string(), longer}) {
        if (!bounded(pool, e.s.ref, pre, w)) { x.extra["left_out_unbounded_event"]++; continue; }
        for (uint32_t size : sizes) for (size_t most : {(size_t)1, (size_t)1 << 20, (size_t)0}) for (int deep = 0; deep < 2; deep++) {
            if (x.stop()) return;
            if (!most && deep && size != sizes[0]) continue;
            auto mk = [&] { return Case{{"schema", id}, {"prefix", pre}, {"repeated", w}, {"bufsize", std::to_string(size)}, {"most", std::to_string(most)}, {"copies", deep ? "1" : "0"}, {"times", std::to_string(cShort)}}; };
            x.describe = mk;
            std::string m = check_use(e, pre, w, size, most, deep, &x);
            x.evaluations++;
            x.traces += 3;
            if (w.size() > 2) x.nontrivial++;
            if (!m.empty()) x.fail(mk(), m);
        }
    }
}
static void explore(Ctx& x) {
    ref::Pool pool;
    warm_up();
    if (x.opt == "schemas") cShort = 64, cLong = 160;
    std::string const what = " x each repeated " + std::to_string(cShort) + " and " + std::to_string(cLong) + " times, also after a long event, x the stream in reads of one byte and of any size and the buffer x with and without copies of the events";
    if (x.opt == "texts") {
        de::Reused<> reader;
        st::all(x, [&](std::string const& text) {
            auto mk = [&] { return Case{{"text", text}, {"use", "0"}}; };
            x.describe = mk;
            x.evaluations++;
            x.states++;
            if (text.size() > 4) x.nontrivial++;
            bool lost = true;
            {
                heap::Count c;
                for (int i = 0; lost && i < 5; i++) {
                    long const b = heap::blocks, l = heap::live;
                    { auto r = reader.read(text); if (!r.ok && i == 0) x.extra["rejected"]++; }
                    x.transitions++;
                    lost = i == 0 || heap::blocks > b || heap::live > l;
                }
            }
            if (!lost) return;
            std::string m = check_leak(text, 0, &x);  // by a new reader
            if (!m.empty()) x.fail(mk(), m);
        });
        return;
    }
    if (x.opt == "schemas") {
        size_t L = 3;
        de::Reused<> reader;
        sm::menu(x, x.thorough ? 2 : 1, [&](std::string const& text, std::string const& alphabet) {
            for (int use = 0; use < 3; use++) {
                auto mk = [&] { return Case{{"text", text}, {"use", std::to_string(use)}}; };
                x.describe = mk;
                std::string m = check_leak(text, use, &x);
                x.evaluations++;
                if (!m.empty()) x.fail(mk(), m);
            }
            Env e = sm::env_of_text(pool, text, &reader);
            x.states++;
            sm::inputs(alphabet, L, [&](std::string const& w) { if (!w.empty()) one_word(x, pool, text, e, w, {6}); return !x.stop(); });
        });
        x.bounds.push_back("each with all words over 4 characters up to length " + std::to_string(L) + what + " x a small buffer");
        return;
    }
    for (auto const& s : schemas::make(pool)) {
        Env e = make_env(pool, s.id, true, true);
        size_t K = s.alphabet.size(), L = sn::max_len(K, x.thorough ? 20000 : 700);
        std::vector<uint32_t> sizes{4, 6, 16};
        if (x.thorough) sizes = {4, 6, 8, 10, 16, 34};
        x.bounds.push_back(s.id + ": all words over " + std::to_string(K) + " characters up to length " + std::to_string(L) + what + " x " + std::to_string(sizes.size()) + " sizes of the buffer");
        words(x, s.alphabet, 1, L, [&](std::string const& w) {
            x.states++;
            one_word(x, pool, s.id, e, w, sizes);
            if (x.index % 397 == 0 && w.size() > 3) x.sample(s.id + ": '" + w + "' repeated");
        });
        for (int use = 0; use < 3; use++) if (x.mine()) {
            std::string m = check_leak(s.text, use, &x);
            x.evaluations++;
            if (!m.empty()) x.fail(Case{{"text", s.text}, {"use", std::to_string(use)}}, m);
        }
    }
}
VF_MAIN((vf::Check{"P24", explore, run_case}))
