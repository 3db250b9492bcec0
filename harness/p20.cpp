// P20: parsers do not influence each other.  Scripts of calls on several objects (stream and buffer
// parsers, schemas, event copies) are interleaved in every way, also with the calls of one made from
// the reader callback of another; every call must answer, and everything visible between calls must
// be, what it is when the script runs alone.
#include <unistd.h>
#include "dfa_eq.hpp"
#include "snap.hpp"
using namespace sn;

struct Actor {
    std::vector<std::function<std::string()>> ops;
    std::function<std::string()> peek = [] { return std::string(); };  // what its user can see between calls
    std::shared_ptr<void> keep;
};
static char const* const cSchemas[] = {
    "delimiters: \\n,\nint:[0-9]+\nw:a(b|c)*\n",
    "timestamp:T\ndelimiters: \\n:;\nw:[0-9b]+\nq:,\nint:a+\n",
    "delimiters: \\n,\nx:b+\ntimestamp:[0-9]\nw:a\n",
};
static char const* const cTexts[] = {
    "delimiters:,\nk:(?<g>a)b|c{1,2}\n",       // with a capture
    "delimiters:,\nk:a\nz:(a\n",               // fails after something was read
    "",                                         // fails at once
    "delimiters:;\nk:[^a]\nk:[a-c]{2}\ndelimiters:-\n",
    "delimiters:,\nk:a{3,1}\n",
};
static char const* const cInputs[] = {"a1 b\nabc,1\n", "T a1\nb,T bc\n:a", "a",
                                      "zz\nyx\nwv1\nut\nsr\n", "..\n--\n+\n==\n##\n"};  // short lines

static ErrorCode const cOk = ErrorCode::Success;
static std::string code(ErrorCode e) { return "code " + std::to_string((int)e); }

struct StreamState {
    std::unique_ptr<ReaderParser> own;
    ReaderParser* p{nullptr};
    Source src;
    std::function<void(size_t)> on_read;
    bool has_event{false};
    std::vector<std::string_view> views;  // taken right after the event was parsed
};
struct BufferState {
    std::unique_ptr<BufferParser> own;
    BufferParser* p{nullptr};
    std::string data;
    size_t off{0};
    bool has_event{false};
    std::vector<std::string_view> views;
};
// The texts of an event's tokens as its user keeps them.
static std::vector<std::string_view> views_of(LogEventView const& e) {
    std::vector<std::string_view> r;
    auto const& buf = e.get_log_output_buffer();
    for (uint32_t i = buf->has_timestamp() ? 0 : 1; i < buf->pos(); i++) r.push_back(buf->get_mutable_token(i).to_string_view());
    return r;
}
static std::string texts(std::vector<std::string_view> const& views) {
    std::string s;
    for (auto v : views) s += "{" + std::string(v) + "}";
    return s;
}
template <class F>
static std::string guarded(F f) {
    try { return f(); } catch (std::exception const& e) { return std::string("exception: ") + e.what(); }
}
static std::string describe_schema(de::Read const& r) {
    if (!r.ok) return "rejected: " + r.error;
    std::string s = "schema";
    for (auto const& v : r.vars) {
        using State = log_surgeon::finite_automata::RegexNFAByteState;
        std::vector<LexicalRule<State>> rules;
        rules.emplace_back(0, de::clone(v.re));
        log_surgeon::finite_automata::RegexNFA<State> nfa(std::move(rules));
        s += " " + v.name + "@" + std::to_string(v.line) + ":" + std::string(nfa.serialize());
    }
    for (auto const& d : r.delims) s += " [" + d + "]";
    return s;
}
// The warm parsers, by schema and slot.
static std::map<std::string, std::shared_ptr<ReaderParser>> g_rp;
static std::map<std::string, std::shared_ptr<BufferParser>> g_bp;
static std::map<int, std::shared_ptr<de::Reused<>>> g_sp;

// Kinds: "R:s:i:j" new stream parser, parses inputs i then j; "B:..." buffer parser; lower case: the same
// on a parser that exists already.  "S:t:u" schema texts; "V:s:i" schema with an added variable, then a
// parser from it; "C:s:i" copies of events that outlive the parse; "l:s:i" an existing parser, all events of an input.
static Actor make_actor(std::string const& spec, int slot) {
    Actor a;
    auto num = [&](size_t k) { return spec[2 + 2 * k] - '0'; };
    char kind = spec[0];
    if (kind == 'R' || kind == 'r' || kind == 'C' || kind == 'V' || kind == 'l') {
        auto st = std::make_shared<StreamState>();
        a.keep = st;
        std::string text = cSchemas[num(0)];
        if (kind == 'R' || kind == 'C') a.ops.push_back([st, text] { return guarded([&] { st->own = std::make_unique<ReaderParser>(parse_schema(text)); st->p = st->own.get(); return std::string("made"); }); });
        else if (kind == 'V') {
            auto sch = std::make_shared<std::unique_ptr<Schema>>();
            a.ops.push_back([sch] { return guarded([&] { *sch = std::make_unique<Schema>(); (*sch)->add_variable("nu:b+c", -1); return std::string("schema"); }); });
            a.ops.push_back([sch] { return guarded([&] { (*sch)->add_variable("mu:1", 0); return std::string("added"); }); });
            a.ops.push_back([sch, st] { return guarded([&] {
                auto ast = (*sch)->release_schema_ast_ptr();
                ast->add_delimiters(std::move(parse_schema("delimiters: \\n,\n")->m_delimiters[0]));
                st->own = std::make_unique<ReaderParser>(std::move(ast)); st->p = st->own.get(); return std::string("made"); }); });
        } else {
            auto& w = g_rp[spec.substr(2, 1) + std::to_string(slot)];
            if (!w) w = std::make_shared<ReaderParser>(parse_schema(text));
            st->p = w.get();
        }
        auto begin = [st](std::string in) {
            return [st, in] {
                st->src = Source{in, std::vector<size_t>(in.size(), 1)};
                st->has_event = false;
                Reader rd = st->src.reader();
                auto inner = rd.read;
                StreamState* s = st.get();  // (the parser holds the reader: no cycle)
                Reader hooked{[s, inner](char* d, size_t n, size_t& got) -> ErrorCode {
                    if (s->on_read) s->on_read(s->src.calls);
                    return inner(d, n, got);
                }};
                st->p->reset_and_set_reader(hooked);
                return std::string("reset");
            };
        };
        auto next = [st] {
            if (st->p->done()) { return std::string("done"); }
            st->has_event = false;
            ErrorCode e = st->p->parse_next_event();
            st->has_event = e == cOk;
            if (st->has_event) st->views = views_of(st->p->get_log_parser().get_log_event_view());
            return e == cOk ? snap(st->p->get_log_parser().get_log_event_view()).show() : code(e);
        };
        a.peek = [st] {
            if (!st->has_event) return std::string();
            std::string kept = texts(st->views);  // before anything asks again
            return kept + snap(st->p->get_log_parser().get_log_event_view()).show();
        };
        if (kind == 'l') {
            a.ops.push_back(begin(cInputs[num(1)]));
            for (int i = 0; i < 5; i++) a.ops.push_back(next);
        } else if (kind == 'V') {
            a.ops.push_back(begin(cInputs[num(1)]));
            a.ops.push_back(next);
            a.ops.push_back(next);
        } else if (kind == 'C') {
            auto held = std::make_shared<std::vector<std::unique_ptr<LogEvent>>>();
            auto held_views = std::make_shared<std::vector<std::string_view>>();
            a.ops.push_back(begin(cInputs[num(1)]));
            a.ops.push_back([=] {
                std::string r = next();
                if (st->has_event) {
                    held->push_back(std::make_unique<LogEvent>(st->p->get_log_parser().get_log_event_view().deep_copy()));
                    *held_views = views_of(*held->front());
                }
                return r;
            });
            a.ops.push_back(next);
            a.ops.push_back(begin(cInputs[2]));
            a.ops.push_back([=] { return held->empty() ? std::string() : snap(*held->front()).show(); });
            auto peek = a.peek;
            a.peek = [=] {
                std::string kept = texts(*held_views);
                return kept + peek() + (held->empty() ? "" : snap(*held->front()).show());
            };
        } else {
            a.ops.push_back(begin(cInputs[num(1)]));
            a.ops.push_back(next);
            a.ops.push_back(next);
            if (spec.size() > 5) {
                a.ops.push_back(begin(cInputs[num(2)]));
                a.ops.push_back(next);
            }
            if (kind == 'R') a.ops.push_back([st] { st->has_event = false; st->own.reset(); return std::string("gone"); });
            else a.ops.push_back(next);
        }
    } else if (kind == 'B' || kind == 'b') {
        auto st = std::make_shared<BufferState>();
        a.keep = st;
        std::string text = cSchemas[num(0)];
        if (kind == 'B') a.ops.push_back([st, text] { return guarded([&] { st->own = std::make_unique<BufferParser>(parse_schema(text)); st->p = st->own.get(); return std::string("made"); }); });
        else {
            auto& w = g_bp[spec.substr(2, 1) + std::to_string(slot)];
            if (!w) w = std::make_shared<BufferParser>(parse_schema(text));
            st->p = w.get();
        }
        auto begin = [st](std::string in) { return [st, in] { st->has_event = false; st->p->reset(); st->data = in; st->off = 0; return std::string("reset"); }; };
        // the end of the input is announced late: the first call stops for more input
        auto next = [st](size_t upto, bool last) {
            return [st, upto, last] {
                if (st->p->done()) return std::string("done");
                st->has_event = false;
                ErrorCode e = st->p->parse_next_event(st->data.data(), std::min(upto, st->data.size()), st->off, last);
                st->has_event = e == cOk;
                if (st->has_event) st->views = views_of(st->p->get_log_parser().get_log_event_view());
                std::string at = " at " + std::to_string(st->off);
                return (e == cOk ? snap(st->p->get_log_parser().get_log_event_view()).show() : code(e)) + at;
            };
        };
        a.peek = [st] {
            if (!st->has_event) return std::string();
            std::string kept = texts(st->views);  // before anything asks again
            return kept + snap(st->p->get_log_parser().get_log_event_view()).show();
        };
        a.ops.push_back(begin(cInputs[num(1)]));
        a.ops.push_back(next(3, false));
        a.ops.push_back(next(100, true));
        if (spec.size() > 5) {
            a.ops.push_back(next(100, true));
            a.ops.push_back(begin(cInputs[num(2)]));
            a.ops.push_back(next(100, true));
        }
        if (kind == 'B') a.ops.push_back([st] { st->has_event = false; st->own.reset(); return std::string("gone"); });
    } else if (kind == 'S') {
        for (size_t k = 0; 2 + 2 * k < spec.size(); k++) {
            std::string text = cTexts[num(k)];
            a.ops.push_back([text] { return describe_schema(de::read_fresh(text)); });
        }
    } else if (kind == 's') {
        // an existing schema parser object reads several texts (or, if there is no such thing, new ones do)
        auto& sp = g_sp[slot];
        if (!sp) sp = std::make_shared<de::Reused<>>();
        a.keep = sp;
        for (size_t k = 0; 2 + 2 * k < spec.size(); k++) {
            std::string text = cTexts[num(k)];
            a.ops.push_back([text, sp = sp] { return describe_schema(sp->read(text)); });
        }
    }
    return a;
}
struct Alone {
    std::vector<std::string> out, seen;  // seen[i]: visible before call i
};
static Alone alone(std::string const& spec) {
    Alone r;
    Actor a = make_actor(spec, 9);
    r.seen.push_back(a.peek());
    for (auto& op : a.ops) { r.out.push_back(op()); r.seen.push_back(a.peek()); }
    return r;
}
static std::map<std::string, Alone> g_alone;
static Alone const& base(std::string const& s) {
    auto it = g_alone.find(s);
    if (it == g_alone.end()) it = g_alone.emplace(s, alone(s)).first;
    return it->second;
}
static std::vector<std::string> split(std::string const& s, char c) {
    std::vector<std::string> r{""};
    for (char x : s) if (x == c) r.push_back(""); else r.back() += x;
    return r;
}
// Runs the scripts with their calls in the given order.
static std::string run(std::vector<std::string> const& specs, std::vector<int> const& order, Ctx* x) {
    std::vector<Actor> as;
    std::vector<size_t> at(specs.size(), 0);
    for (size_t i = 0; i < specs.size(); i++) as.push_back(make_actor(specs[i], (int)i));
    for (size_t k = 0; k < order.size(); k++) {
        size_t i = (size_t)order[k];
        std::string out = as[i].ops[at[i]]();
        auto const& want = base(specs[i]).out[at[i]];
        if (x) x->transitions++;
        if (out != want) return specs[i] + ", call " + std::to_string(at[i]) + ": " + out + " / alone: " + want;
        at[i]++;
        for (size_t j = 0; j < as.size(); j++) {
            std::string p = as[j].peek();
            if (p != base(specs[j]).seen[at[j]])
                return "after a call on " + specs[i] + ", " + specs[j] + " shows " + p + " / alone: " + base(specs[j]).seen[at[j]];
        }
    }
    return "";
}
// Runs script `outer` on a stream parser; call k of `inner` is made when the outer parser reads for the
// when[k]-th time (counted over the whole script).
static std::string run_nested(std::string const& outer, std::string const& inner, std::vector<size_t> const& when, size_t* reads, Ctx* x) {
    Actor a = make_actor(outer, 0), b = make_actor(inner, 1);
    auto* st = static_cast<StreamState*>(a.keep.get());
    size_t n = 0, done = 0;
    std::string m;
    auto step = [&] {
        std::string out = b.ops[done]();
        if (x) x->transitions++;
        if (m.empty() && out != base(inner).out[done]) m = inner + ", call " + std::to_string(done) + " from the reader: " + out + " / alone: " + base(inner).out[done];
        done++;
    };
    st->on_read = [&](size_t) {
        while (done < when.size() && when[done] == n) step();
        n++;
    };
    for (size_t k = 0; k < a.ops.size(); k++) {
        std::string out = a.ops[k]();
        if (out != base(outer).out[k]) return outer + ", call " + std::to_string(k) + ": " + out + " / alone: " + base(outer).out[k] + (m.empty() ? "" : " (and " + m + ")");
        std::string p = b.peek();
        if (m.empty() && p != base(inner).seen[done]) m = inner + " shows " + p + " / alone: " + base(inner).seen[done];
    }
    while (done < b.ops.size()) step();
    if (reads) *reads = n;
    st->on_read = nullptr;
    return m;
}
static std::string run_case(Case const& c) {
    cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
    auto specs = split(c.at("scripts"), ' ');
    if (c.count("when")) return run_nested(specs[0], specs[1], unlist(c.at("when")), nullptr, nullptr);
    std::vector<int> order;
    for (char ch : c.at("order")) order.push_back(ch - '0');
    return run(specs, order, nullptr);
}
static void explore(Ctx& x) {
    bool small = x.opt == "small";
    uint32_t sz = cStaticByteBuffCapacity;
    std::vector<std::string> specs;
    std::vector<int> order;
    std::vector<size_t> when;
    bool nested = false;
    x.describe = [&] {
        std::string s, o;
        for (auto const& t : specs) s += (s.empty() ? "" : " ") + t;
        for (int i : order) o += (char)('0' + i);
        Case c{{"scripts", s}, {"bufsize", std::to_string(sz)}};
        if (nested) c["when"] = list(when); else c["order"] = o;
        return c;
    };
    auto count = [&](std::string const& m, bool nt) {
        x.states++; x.evaluations++; x.traces++;
        if (nt) x.nontrivial++;
        if (!m.empty()) x.fail(x.describe(), m);
    };
    auto interleavings = [&](std::vector<std::string> const& s, char const* what) {
        specs = s;
        nested = false;
        order.clear();
        for (size_t i = 0; i < s.size(); i++) order.insert(order.end(), base(s[i]).out.size(), (int)i);
        uint64_t n = 0;
        do {
            if (x.stop()) return;
            n++;
            if (!x.mine()) continue;
            size_t switches = 0;
            for (size_t i = 1; i < order.size(); i++) switches += order[i] != order[i - 1];
            count(run(specs, order, &x), switches >= s.size());
            if (x.states % 5003 == 100) x.sample(x.describe()["scripts"] + " in the order " + x.describe()["order"]);
        } while (std::next_permutation(order.begin(), order.end()));
        x.extra[what] += x.shard == 0 ? n : 0;
    };
    // buffers that need growing (tokens go around their end), and ones that do not
    for (uint32_t b : {6u, 8u, cStaticByteBuffCapacity}) {
        sz = b;
        cStaticByteBuffSize = b;
        g_alone.clear();
        // short lines: many tokens go around the end of the buffer
        for (int s = 0; s < (small ? 1 : 3); s++) for (int t = s; t < (small ? 1 : 3); t++) {
            for (auto const& in : std::vector<std::pair<char, char>>{{'3', '4'}, {'4', '3'}, {'3', '0'}}) interleavings({{'l', ':', (char)('0' + s), ':', in.first}, {'l', ':', (char)('0' + t), ':', in.second}}, "interleavings_short_lines");
        }
        x.bounds.push_back("all interleavings of the calls (6 each) of every two parses of five lines with three schemas; buffers of " + std::to_string(b));
        if (b == 8) continue;
        // parsers that exist: all pairs of scripts, all interleavings; triples of short ones
        std::vector<std::string> warm;
        for (int s = 0; s < 3; s++) for (char k : {'r', 'b'}) {
            warm.push_back({k, ':', (char)('0' + s), ':', '0', ':', '1'});
            if (!small) warm.push_back({k, ':', (char)('0' + s), ':', '1', ':', '2'});
        }
        for (size_t i = 0; i < warm.size(); i++) for (size_t j = i; j < warm.size(); j++) {
            if (small && b != 6 && (i + j) % 2) continue;
            interleavings({warm[i], warm[j]}, "interleavings_of_two");
        }
        x.bounds.push_back("all interleavings of the calls (6 or 7 each) of every two of " + std::to_string(warm.size()) + " scripts on existing parsers; buffers of " + std::to_string(b));
        if (!small) {
            std::vector<std::vector<std::string>> triples{{"r:0:0:2", "r:1:1:0", "s:0:1"}, {"r:0:0:1", "b:1:1:2", "s:1:0"}};
            if (x.thorough) { triples.push_back({"r:0:0:2", "r:1:1:0", "b:2:1:1"}); triples.push_back({"b:0:0:2", "b:1:1:0", "s:0:1:3"}); }
            for (auto const& t : triples) interleavings(t, "interleavings_of_three");
            x.bounds.push_back("all interleavings of the calls of " + std::to_string(triples.size()) + " sets of three scripts; buffers of " + std::to_string(b));
        }
        // from the reader callback of another
        nested = true;
        std::vector<std::string> outers{"r:0:0:1", "r:1:1:0", "r:2:0:2"}, inners{"r:0:1:2", "r:1:0:2", "b:0:0:1", "b:2:1:0"};
        if (!small) { inners.push_back("s:0:1:3"); inners.push_back("s:1:2:4"); }
        for (auto const& o : outers) for (auto const& in : inners) {
            specs = {o, in};
            nested = true;
            size_t reads = 0, calls = base(in).out.size();
            when.clear();
            run_nested(o, in, {}, &reads, nullptr);
            // monotone assignments of the inner calls to the outer reads; not more than six reads are chosen from
            size_t grid = small ? 3 : x.thorough ? reads : 7;
            std::vector<size_t> at;
            for (size_t i = 0; i < grid && i < reads; i++) at.push_back(i * reads / std::min(grid, reads));
            std::vector<size_t> pick(calls, 0);
            while (!x.stop()) {
                if (x.mine()) {
                    when.clear();
                    for (size_t p : pick) when.push_back(at[p]);
                    count(run_nested(o, in, when, nullptr, &x), true);
                    x.extra["nested"]++;
                }
                size_t k = calls;
                while (k > 0 && pick[k - 1] + 1 == at.size()) k--;
                if (!k) break;
                size_t v = pick[k - 1] + 1;
                for (size_t q = k - 1; q < calls; q++) pick[q] = v;
            }
        }
        nested = false;
        x.bounds.push_back("the calls of each of " + std::to_string(inners.size()) + " scripts made from the reads of each of " + std::to_string(outers.size()) + " stream parses, in every monotone assignment; buffers of " + std::to_string(b));
        // constructions, schema parses, destructions
        std::vector<std::vector<std::string>> cold{
            {"R:0:0", "R:1:1"}, {"R:0:0", "B:0:1"}, {"B:1:0", "S:0:1:2:3"}, {"R:2:1", "V:0:0"}, {"C:0:0", "R:1:1"}, {"V:0:1", "S:1:0:4"}, {"S:0:1:3", "S:2:3:0:4"}, {"C:1:1", "r:0:0:1"}, {"V:0:0", "S:0:1"}};
        if (x.thorough) { cold.push_back({"R:0:0:2", "R:1:1:2"}); cold.push_back({"R:0:0:1", "B:0:1:2"}); cold.push_back({"V:0:0", "V:0:1"}); }
        if (small) cold = {{"R:0:0:2", "S:1:0"}, {"V:0:1", "S:1:0"}};
        for (size_t i = 0; i < cold.size(); i++) if (x.thorough || b != 6 || i % 3 == 0) interleavings(cold[i], "interleavings_with_constructions");
        x.bounds.push_back("all interleavings of the calls of " + std::to_string(cold.size()) + " pairs of scripts with constructions, destructions, schemas read (also incorrect ones) or changed, and copies; buffers of " + std::to_string(b));
    }
}
VF_MAIN((vf::Check{"P20", explore, run_case}))
