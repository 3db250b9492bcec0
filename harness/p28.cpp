// P28: parsers keep to the memory and the calls they were given.  A reader may use all of the memory it is
// offered, is asked for at least one byte, only while an event is parsed and never again after its end; the
// bytes around a caller's buffer are not touched and the buffer is not written to.
#include <sys/mman.h>
#include <unistd.h>
#include "schema_menu.hpp"
#include "snap.hpp"
using namespace sn;

// Memory with nothing readable before its first and after its last page.
struct Walls {
    size_t page{(size_t)sysconf(_SC_PAGESIZE)}, pages{2};
    char* base;
    Walls() {
        base = (char*)mmap(nullptr, (pages + 2) * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) throw std::runtime_error("mmap");
    }
    Walls(Walls const&) = delete;
    ~Walls() { munmap(base, (pages + 2) * page); }
    // The data at the end (or the beginning) of the memory, with `junk` everywhere else; read-only.
    char* put(std::string const& data, bool at_end, char junk) {
        char* lo = base + page;
        mprotect(lo, pages * page, PROT_READ | PROT_WRITE);
        std::fill(lo, lo + pages * page, junk);
        char* p = at_end ? lo + pages * page - data.size() : lo;
        std::copy(data.begin(), data.end(), p);
        mprotect(lo, pages * page, PROT_READ);
        return p;
    }
};
// A reader that makes full use of what it is offered.
struct Greedy {
    std::string data;
    std::vector<size_t> chunks;
    char junk{0};
    int fail_at{-1};
    size_t pos{0}, calls{0};
    bool open{false}, ended{false};
    std::string bad;
    Reader reader() {
        return Reader{[this](char* dst, size_t count, size_t& n) -> ErrorCode {
            size_t i = calls++;
            if (!open) bad = "the reader is called outside of parse_next_event";
            if (ended) bad = "the reader is called again after its end";
            if (count == 0 || dst == nullptr) { bad = "the reader is offered no memory"; n = 0; return ErrorCode::Errno; }
            std::fill(dst, dst + count, junk);
            n = 0;
            if ((int)i == fail_at) return ErrorCode::Errno;
            n = std::min({i < chunks.size() ? chunks[i] : count, count, data.size() - pos});
            if (n == 0) { ended = true; return ErrorCode::EndOfFile; }
            std::copy(data.begin() + (long)pos, data.begin() + (long)(pos + n), dst);
            pos += n;
            return ErrorCode::Success;
        }};
    }
};
// fail_at: this read fails; the parse is continued.
static std::string check_reader(ReaderParser& p, Full const& want, std::string const& in, std::vector<size_t> const& chunks, char junk, int fail_at, size_t* reads) {
    Greedy g;
    g.data = in; g.chunks = chunks; g.junk = junk; g.fail_at = fail_at;
    Reader rd = g.reader();
    p.reset_and_set_reader(rd);
    Full r;
    size_t errors = 0;
    while (!p.done()) {
        g.open = true;
        r.err = p.parse_next_event();
        g.open = false;
        if (r.err == ErrorCode::Errno && (int)g.calls == fail_at + 1 && errors++ == 0) continue;
        if (r.err != ErrorCode::Success) break;
        r.events.push_back(snap(p.get_log_parser().get_log_event_view()));
        if (r.events.size() > in.size() + 3) { r.overrun = true; break; }
    }
    r.done = p.done();
    if (reads) *reads = g.calls;
    if (!g.bad.empty()) return g.bad;
    // (what is parsed after an error is P12's matter)
    if (errors == 0 && !(r == want)) return "with a reader that uses the memory it is offered: " + r.show() + " / otherwise: " + want.show();
    return "";
}
// Before the parser asks for more, it gets the first `part` bytes only.  The input starts after `lead` bytes.  Without
// walls: in ordinary memory.
static Full parts(BufferParser& p, Walls* w, std::string const& in, size_t part, size_t lead, bool at_end, char junk) {
    Full r;
    p.reset();
    size_t off = lead, calls = 0;
    bool whole = part >= in.size();
    std::string mem;
    auto place = [&] {
        std::string d = std::string(lead, junk) + (whole ? in : in.substr(0, part));
        if (w) return w->put(d, at_end, junk);
        mem = d + std::string(64, '~');
        return mem.data();
    };
    char* b = place();
    while (!p.done() && calls++ < 2 * in.size() + 6) {
        r.err = p.parse_next_event(b, lead + (whole ? in.size() : part), off, whole);
        if (r.err == ErrorCode::BufferOutOfBounds && !whole) { whole = true; b = place(); continue; }
        if (r.err != ErrorCode::Success) break;
        r.events.push_back(snap(p.get_log_parser().get_log_event_view()));
    }
    r.done = p.done();
    p.reset();
    return r;
}
static std::string check_buffer(BufferParser& p, Walls& w, Full const& want, std::string const& in, size_t part, size_t lead, bool at_end, char junk) {
    Full r = parts(p, &w, in, part, lead, at_end, junk);
    return r == want ? "" : "with other bytes around the buffer: " + r.show() + " / otherwise: " + want.show();
}
static Full plain_reader(Env& e, std::string const& in) {
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    Source s{in, {}};
    return full_reader(*e.rp, s);
}
static std::string run_case(Case const& c) {
    ref::Pool pool;
    Env e = sm::env_of(pool, c.at("schema"), true, true);
    std::string const& in = c.at("input");
    if (c.count("part")) {
        Walls w;
        return check_buffer(*e.bp, w, parts(*e.bp, nullptr, in, (size_t)atoi(c.at("part").c_str()), 0, false, 0), in, (size_t)atoi(c.at("part").c_str()), (size_t)atoi(c.at("lead").c_str()), c.at("at") == "end", c.at("junk")[0]);
    }
    Full want = plain_reader(e, in);
    cStaticByteBuffSize = (uint32_t)atoi(c.at("bufsize").c_str());
    return check_reader(*e.rp, want, in, unlist(c.at("chunks")), c.at("junk")[0], atoi(c.at("fail").c_str()), nullptr);
}
static void one_input(Ctx& x, std::string const& id, Env& e, Walls& w, std::string const& in, std::vector<uint32_t> const& sizes, std::string const& junks) {
    Case c{{"schema", id}, {"input", in}};
    Case* cur = &c;
    x.describe = [&cur] { return *cur; };
    auto count = [&](std::string const& m, bool nt) {
        x.evaluations++; x.traces++;
        if (nt) x.nontrivial++;
        if (!m.empty()) x.fail(*cur, m);
    };
    for (size_t part = 0; part <= in.size(); part++) {
      Full want = parts(*e.bp, nullptr, in, part, 0, false, 0);
      for (char junk : junks) for (bool at_end : {true, false}) for (size_t lead = 0; lead < 3; lead += 2) {
        if (x.stop()) return;
        Case k = c;
        k["part"] = std::to_string(part); k["lead"] = std::to_string(lead); k["at"] = at_end ? "end" : "begin"; k["junk"] = std::string(1, junk);
        cur = &k;
        x.transitions += 1 + (part < in.size());
        count(check_buffer(*e.bp, w, want, in, part, lead, at_end, junk), part < in.size());
        cur = &c;
      }
    }
    Full want = plain_reader(e, in);
    for (uint32_t size : sizes) {
        auto one = [&](std::vector<size_t> const& ch) {
            if (x.stop()) return;
            for (char junk : junks) {
                Case k = c;
                k["bufsize"] = std::to_string(size); k["chunks"] = list(ch); k["junk"] = std::string(1, junk); k["fail"] = "-1";
                cur = &k;
                cStaticByteBuffSize = size;
                size_t reads = 0;
                count(check_reader(*e.rp, want, in, ch, junk, -1, &reads), ch.size() > 1);
                x.transitions += reads;
                if (ch.size() <= 1) for (size_t f = 0; f < reads; f++) {
                    k["fail"] = std::to_string(f);
                    count(check_reader(*e.rp, want, in, ch, junk, (int)f, nullptr), true);
                }
                cur = &c;
            }
        };
        if (in.size() <= 4) compositions(in.size(), one);
        else for (size_t n : {(size_t)1, (size_t)2, (size_t)3}) one(std::vector<size_t>(in.size(), n));
        one({});
    }
    cStaticByteBuffSize = cStaticByteBuffCapacity;
    if (x.index % 997 == 0 && in.size() > 3) x.sample(id + ": '" + in + "'");
}
static void explore(Ctx& x) {
    ref::Pool pool;
    Walls w;
    if (x.opt == "schemas") {
        size_t L = x.thorough ? 5 : 4;
        de::Reused<> reader;
        sm::menu(x, x.thorough ? 2 : 1, [&](std::string const& text, std::string const& alphabet) {
            Env e = sm::env_of_text(pool, text, &reader);
            x.states++;
            sm::inputs(alphabet, L, [&](std::string const& in) { one_input(x, text, e, w, in, {4}, "\na"); return !x.stop(); });
        });
        x.bounds.push_back("each with all inputs over 4 characters up to length " + std::to_string(L) + " x announced in two parts in every way x at both ends of the memory x with bytes before the first or not; x readers giving any division, and every failing read");
        return;
    }
    for (auto const& s : schemas::make(pool)) {
        Env e = make_env(pool, s.id, true, true);
        size_t K = s.alphabet.size(), L = sn::max_len(K, x.opt == "small" ? 300 : x.thorough ? 800000 : 16000);
        std::string junks = "\n";
        junks += s.alphabet.substr(0, 1);
        junks += '\0';
        x.bounds.push_back(s.id + ": inputs over " + std::to_string(K) + " characters up to length " + std::to_string(L) + " x 3 bytes around; buffer interface: announced in two parts in every way x at both ends of the memory x with bytes before the first or not; readers: 3 sizes of the buffer x divisions (all up to length 4, reads of 1, 2, 3 and any size beyond) x every failing read");
        words(x, s.alphabet, 0, L, [&](std::string const& in) {
            x.states++;
            one_input(x, s.id, e, w, in, {cStaticByteBuffCapacity, 4, 10}, junks);
        });
    }
}
VF_MAIN((vf::Check{"P28", explore, run_case}))
