// P25: when memory runs out the caller is told, everything is given back, and what is kept can be used.
#include "heap.hpp"
#include "schema_menu.hpp"
#include "schema_texts.hpp"
#include "snap.hpp"
using namespace sn;

// One thing done with the n-th allocation refused.
enum Outcome { Told, Done, Other };
template <class F>
static Outcome with_refusal(long n, F f, std::string& other) {
    heap::Count c;
    heap::restart();
    heap::refuse = n;
    Outcome o = Done;
    try { f(); } catch (std::bad_alloc const&) { o = Told; } catch (std::exception const& e) {
        heap::refuse = -1;
        heap::on = false;
        other = e.what();
        o = Other;
    }
    heap::refuse = -1;
    return o;
}
static std::string at(long n, std::string const& m) { return "allocation " + std::to_string(n) + " refused: " + m; }

// ---- reading a schema -------------------------------------------------------------------------------
static std::string same_schema(rs::Result const& want, de::Read const& g) {
    if (want.unspecified) return "";
    if (want.ok != g.ok) return want.ok ? "a correct schema is rejected: " + g.error : "a malformed schema is accepted";
    if (!want.ok) return "";
    if (want.vars.size() != g.vars.size()) return "the schema has " + std::to_string(g.vars.size()) + " variables";
    for (size_t i = 0; i < g.vars.size(); i++) if (g.vars[i].name != want.vars[i].name) return "variable " + std::to_string(i) + " is named " + g.vars[i].name;
    return "";
}
static std::string const cGood = "delimiters: \\n\nv:a[bc]+\n";
// Reads `text` with the n-th allocation refused, and then a correct schema.  `read(text, use)` reads and
// calls use with the result.  Returns whether an allocation was refused.
template <class R, class G>
static bool refuse_reading(R read, G read_good, std::string const& text, rs::Result const& want, long n, std::string& m, Ctx* x) {
    m.clear();
    bool refused = false;
    std::string other;
    for (int time = 0; time < 4; time++) {
        long const b = heap::blocks, l = heap::live;
        de::Read r;
        Outcome o = with_refusal(n, [&] { r = read(text); }, other);
        refused = heap::refused;
        if (x) x->transitions++;
        if (o == Other && want.ok) { m = at(n, "reported as '" + other + "'"); return refused; }
        if (o == Done) {
            if (refused && r.ok) m = at(n, "nobody is told");
            else m = same_schema(want, r);
            if (!m.empty()) return refused;
        }
        r = {};
        static rs::Result const good = rs::parse(cGood);
        {
            heap::Count c;
            de::Read g = read_good(cGood);
            heap::on = false;
            m = same_schema(good, g);
            heap::on = true;
            g = {};
        }
        if (!m.empty()) { m = at(n, "afterwards " + m); return refused; }
        // what one schema leaves behind is kept until the next: only what is lost each time is lost
        if (heap::blocks <= b && heap::live <= l) return refused;
        m = at(n, std::to_string(heap::blocks - b) + " blocks of " + std::to_string(heap::live - l) + " bytes are not given back");
    }
    return refused;
}
static de::Read read_throwing(std::string const& text) {
    de::Read r;
    r.ast = impl::parse_schema(text);
    if (!r.ast) { r.error = "(no schema)"; return r; }
    de::fill(r);
    return r;
}
template <class SP = SchemaParser>
struct Reader2 {  // like de::Reused, without catching
    static constexpr bool possible = requires(SP& sp, Reader& rd) { SP{}; sp.generate_schema_ast(rd); };
    std::unique_ptr<SP> sp;
    de::Read read(std::string const& text) {
        if constexpr (possible) {
            if (!sp) { heap::Count c(false); sp = std::unique_ptr<SP>(new SP{}); }
            de::Read r;
            Source src;
            src.data = text;
            Reader rd = src.reader();
            r.ast = sp->generate_schema_ast(rd);
            if (!r.ast) { r.error = "(no schema)"; return r; }
            de::fill(r);
            return r;
        } else return read_throwing(text);
    }
};
// All allocations made in reading a text.
static std::string check_text(Reader2<>& reader, std::string const& text, Ctx* x) {
    auto const want = rs::parse(text);
    std::string m;
    long n = 0;
    auto again = [&](std::string const& t) { return reader.read(t); };
    while (refuse_reading(again, again, text, want, n, m, x) && m.empty()) n++;
    if (x) x->traces += (uint64_t)n;
    if (m.empty()) return "";
    // once more, with new readers
    auto count = [](auto f) { heap::Count c; heap::restart(); try { f(); } catch (std::exception const&) {} return heap::allocs; };
    long const all = count([&] { read_throwing(text); }), part = count([&] { reader.read(text); });
    for (long k = std::max(0l, all - part - 20);; k++) if (!refuse_reading(read_throwing, read_throwing, text, want, k, m, nullptr) || !m.empty()) return m;
}
// ---- building parsers -----------------------------------------------------------------------------
static std::string const cInput = "ab 1\nab b\n12:3 4\nT a\nT b\nb:a b\na:b\n";
static std::vector<Ev> events_of(BufferParser& p, std::string in) {
    std::vector<Ev> r;
    size_t off = 0;
    p.reset();
    while (!p.done() && r.size() < 50) {
        if (p.parse_next_event(in.data(), in.size(), off, true) != ErrorCode::Success) break;
        r.push_back(event_of(p.get_log_parser().get_log_event_view()));
    }
    return r;
}
static std::string check_build(Reader2<>& reader, std::string const& text, Ctx* x) {
    std::vector<Ev> want;
    { BufferParser p(reader.read(text).ast); want = events_of(p, cInput); }
    for (long n = 0;; n++) {
        auto ast = reader.read(text).ast;
        std::unique_ptr<BufferParser> p;
        std::string other;
        long const b = heap::blocks, l = heap::live;
        Outcome o = with_refusal(n, [&] { p = std::make_unique<BufferParser>(std::move(ast)); }, other);
        if (x) x->transitions++;
        if (o == Other) return at(n, "reported as '" + other + "'");
        if (o == Done && heap::refused) {
            if (events_of(*p, cInput) != want) return at(n, "nobody is told, and the parser reports other events");
        }
        bool const end = !heap::refused;
        p.reset();
        ast.reset();
        if (heap::blocks != b || heap::live != l) return at(n, "building a parser loses " + std::to_string(heap::blocks - b) + " blocks");
        if (end) { if (x) x->traces += (uint64_t)n; return ""; }
    }
}

// ---- parsing --------------------------------------------------------------------------------------
static bool take(LogEventView const& v, bool deep, size_t& bytes) {
    bytes += v.get_logtype().size() + v.to_string().size();
    if (deep && v.get_log_output_buffer()->pos() > 1) bytes += v.deep_copy().to_string().size();
    return true;
}
static std::string check_stream(ReaderParser& p, std::string const& in, uint32_t size, size_t most, bool deep, Full const& want, Ctx* x) {
    std::string m;
    cStaticByteBuffSize = size;
    auto src = [&] { Source s; s.data = in; s.chunks.assign(most ? in.size() + 2 : 0, most); return s; };
    for (long n = 0; m.empty(); n++) {
        Source s = src();
        Reader rd = s.reader();
        std::string other;
        size_t bytes = 0, calls = 0;
        ErrorCode err = ErrorCode::Success;
        Outcome o = with_refusal(n, [&] {
            p.reset_and_set_reader(rd);
            while (!p.done() && calls++ < in.size() + 3) {
                err = p.parse_next_event();
                if (err != ErrorCode::Success) break;
                take(p.get_log_parser().get_log_event_view(), deep, bytes);
            }
        }, other);
        bool const end = !heap::refused;
        if (x) x->transitions++;
        if (o == Other) m = at(n, "reported as '" + other + "'");
        else if (o == Done && !end && err == ErrorCode::Success) m = at(n, "nobody is told");
        else {
            Source s2 = src();
            Full again = full_reader(p, s2);
            if (!(again == want)) m = at(n, "afterwards the parser reports " + again.show() + " instead of " + want.show());
        }
        if (end) { if (x) x->traces += (uint64_t)n; break; }
    }
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    return m;
}
static std::string check_buffer(BufferParser& p, std::string const& in, uint32_t size, bool deep, Full const& want, Ctx* x) {
    std::string m;
    cStaticByteBuffSize = size;
    for (long n = 0; m.empty(); n++) {
        std::string other, buf = in;
        size_t bytes = 0, calls = 0, off = 0;
        ErrorCode err = ErrorCode::Success;
        Outcome o = with_refusal(n, [&] {
            p.reset();
            while (!p.done() && calls++ < in.size() + 3) {
                err = p.parse_next_event(buf.data(), buf.size(), off, true);
                if (err != ErrorCode::Success) break;
                take(p.get_log_parser().get_log_event_view(), deep, bytes);
            }
        }, other);
        bool const end = !heap::refused;
        if (x) x->transitions++;
        if (o == Other) m = at(n, "reported as '" + other + "'");
        else if (o == Done && !end && err == ErrorCode::Success) m = at(n, "nobody is told");
        else {
            Full again = full_buffer(p, in);
            if (!(again == want)) m = at(n, "afterwards the parser reports " + again.show() + " instead of " + want.show());
        }
        if (end) { if (x) x->traces += (uint64_t)n; break; }
    }
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    return m;
}
// ---- changing a schema ----------------------------------------------------------------------------
static std::string names(SchemaAST& ast) {
    std::string s;
    for (auto const& v : ast.m_schema_vars) s += dynamic_cast<SchemaVarAST*>(v.get())->m_name + " ";
    return s;
}
static std::string check_add(std::vector<std::pair<std::string, int>> const& adds, Ctx* x, long from = 0) {
    std::string before, after;
    auto state = [&](size_t k) {
        Schema s;
        for (size_t i = 0; i < k; i++) s.add_variable(adds[i].first, adds[i].second);
        auto a = s.release_schema_ast_ptr();
        return names(*a);
    };
    before = state(adds.size() - 1);
    after = state(adds.size());
    for (long n = from;; n++) {
        Schema s;
        for (size_t i = 0; i + 1 < adds.size(); i++) s.add_variable(adds[i].first, adds[i].second);
        std::string other;
        Outcome o = with_refusal(n, [&] { s.add_variable(adds.back().first, adds.back().second); }, other);
        bool const refused = heap::refused;
        if (x) x->transitions++;
        if (o == Other) return at(n, "reported as '" + other + "'");
        auto a = s.release_schema_ast_ptr();
        std::string got = names(*a);
        if (o == Told && got != before) return at(n, "the schema then has the variables " + got + "instead of " + before);
        if (o == Done && got != after) return at(n, "nobody is told, and the schema has the variables " + got);
        if (!refused) { if (x) x->traces += (uint64_t)(n - from); return ""; }
    }
}
static void warm_up(Reader2<>& r) {
    for (char const* t : {"delimiters: ,\nint:[0-9]+\nw:(a|b)*c\n", "a:(", "a:b\x01", "(:a"}) for (int w = 0; w < 2; w++) {
        try { r.read(t); } catch (std::exception const&) {}
        try { read_throwing(t); } catch (std::exception const&) {}
    }
}
static std::string run_case(Case const& c) {
    Reader2<> reader;
    warm_up(reader);
    std::string const& what = c.at("what");
    if (what == "text") return check_text(reader, c.at("text"), nullptr);
    if (what == "new reader") {
        std::string m;
        refuse_reading(read_throwing, read_throwing, c.at("text"), rs::parse(c.at("text")), atol(c.at("allocation").c_str()), m, nullptr);
        return m;
    }
    if (what == "build") return check_build(reader, c.at("text"), nullptr);
    if (what == "add") {
        std::vector<std::pair<std::string, int>> adds;
        for (int i = 0; c.count("add" + std::to_string(i)); i++) adds.emplace_back(c.at("add" + std::to_string(i)), atoi(c.at("at" + std::to_string(i)).c_str()));
        return check_add(adds, nullptr, std::max(0l, atol(c.at("from").c_str())));
    }
    ref::Pool pool;
    Env e = sm::env_of(pool, c.at("schema"), true, true);
    uint32_t size = (uint32_t)atoi(c.at("bufsize").c_str());
    cStaticByteBuffSize = size;
    Source s;
    s.data = c.at("input");
    bool deep = c.at("copies") == "1";
    if (what == "stream") return check_stream(*e.rp, s.data, size, (size_t)atoi(c.at("most").c_str()), deep, full_reader(*e.rp, s), nullptr);
    return check_buffer(*e.bp, s.data, size, deep, full_buffer(*e.bp, s.data), nullptr);
}
static void one_input(Ctx& x, std::string const& id, Env& e, std::string const& in, std::vector<uint32_t> const& sizes) {
    for (uint32_t size : sizes) {
        cStaticByteBuffSize = size;
        Source s;
        s.data = in;
        Full want = full_reader(*e.rp, s), wantb = full_buffer(*e.bp, in);
        for (int deep = 0; deep < 2; deep++) for (int how = 0; how < 3; how++) {
            if (x.stop()) return;
            size_t most = how == 1 ? 1 : 0;
            auto mk = [&] { return Case{{"what", how < 2 ? "stream" : "buffer"}, {"schema", id}, {"input", in}, {"bufsize", std::to_string(size)}, {"most", std::to_string(most)}, {"copies", deep ? "1" : "0"}}; };
            x.describe = mk;
            std::string m = how < 2 ? check_stream(*e.rp, in, size, most, deep, want, &x) : check_buffer(*e.bp, in, size, deep, wantb, &x);
            x.evaluations++;
            if (want.events.size() > 1) x.nontrivial++;
            if (!m.empty()) x.fail(mk(), m);
        }
    }
    cStaticByteBuffSize = cStaticByteBuffCapacity;
}
static void explore(Ctx& x) {
    ref::Pool pool;
    Reader2<> reader;
    warm_up(reader);
    if (x.opt == "texts") {
        if (!x.thorough) x.opt = "small";
        st::all(x, [&](std::string const& text) {
            if (text.size() > 100) return;
            auto mk = [&] { return Case{{"what", "text"}, {"text", text}}; };
            x.describe = mk;
            x.evaluations++;
            x.states++;
            if (text.size() > 4) x.nontrivial++;
            std::string m = check_text(reader, text, &x);
            if (!m.empty()) x.fail(mk(), m);
        });
        return;
    }
    if (x.opt == "readers") {
        // making a reader: the same for every text
        std::string const text = cGood;
        auto const want = rs::parse(text);
        long n = 0;
        { heap::Count c; heap::restart(); read_throwing(text); n = heap::allocs; }
        for (long k = 0; k <= n + 5 && !x.stop(); k++) {
            if (!x.thorough && k > 2000 && k < n - 6000) continue;
            if (!x.mine()) continue;
            auto mk = [&] { return Case{{"what", "new reader"}, {"text", text}, {"allocation", std::to_string(k)}}; };
            x.describe = mk;
            std::string m;
            refuse_reading(read_throwing, [&](std::string const& t) { return reader.read(t); }, text, want, k, m, &x);
            x.evaluations++; x.states++; x.traces++; x.nontrivial++;
            if (!m.empty()) x.fail(mk(), m);
        }
        x.bounds.push_back((x.thorough ? "all " : "the first 2000 and the last 6000 of the ") + std::to_string(n) + " allocations of making a reader and reading a schema with it");
        std::vector<std::pair<std::string, int>> const adds{{"a:b", -1}, {"c:[d-f]+", 0}, {"g:(?<h>i)j", 1}};
        for (size_t k = 1; k <= adds.size(); k++) {
            std::vector<std::pair<std::string, int>> part(adds.begin(), adds.begin() + (long)k);
            if (!x.mine()) continue;
            std::string const line = part.back().first;
            auto count = [](auto f) { heap::Count c; heap::restart(); f(); return heap::allocs; };
            // the earlier ones make the reader
            long from = std::max(0l, count([&] { read_throwing(line); }) - count([&] { reader.read(line); }) - 50);
            auto mk = [&] { Case c{{"what", "add"}, {"from", std::to_string(from)}}; for (size_t i = 0; i < k; i++) { c["add" + std::to_string(i)] = part[i].first; c["at" + std::to_string(i)] = std::to_string(part[i].second); } return c; };
            x.describe = mk;
            std::string m = check_add(part, &x, from);
            x.evaluations++;
            if (!m.empty()) x.fail(mk(), m);
        }
        x.bounds.push_back("the allocations of adding a variable to a schema with up to 2, from where its text is read");
        return;
    }
    if (x.opt == "schemas") {
        sm::menu(x, x.thorough ? 2 : 1, [&](std::string const& text, std::string const&) {
            if (!x.thorough && text.find("delimiters: \\n\n") == std::string::npos) return;
            auto mk = [&] { return Case{{"what", "build"}, {"text", text}}; };
            x.describe = mk;
            std::string m = check_build(reader, text, &x);
            x.evaluations++; x.states++; x.nontrivial++;
            if (!m.empty()) x.fail(mk(), m);
        });
        x.bounds.push_back("all allocations of building a parser from each" + std::string(x.thorough ? "" : " that has the delimiters space and newline"));
        return;
    }
    for (auto const& s : schemas::make(pool)) {
        Env e = make_env(pool, s.id, true, true);
        size_t K = s.alphabet.size(), L = sn::max_len(K, x.thorough ? 20000 : 1000);
        x.bounds.push_back(s.id + ": all words over " + std::to_string(K) + " characters up to length " + std::to_string(L) + " x 2 sizes of the buffer x stream and buffer x with and without copies x all allocations refused");
        words(x, s.alphabet, 0, L, [&](std::string const& w) {
            x.states++;
            one_input(x, s.id, e, w, {4, 10});
            if (x.index % 397 == 0 && w.size() > 3) x.sample(s.id + ": '" + w + "'");
        });
    }
}
VF_MAIN((vf::Check{"P25", explore, run_case}))
