// World "cluster": clients (each a process holding its own code instance)
// store erasure-coded objects on nodes, nodes crash, tear and come back empty,
// clients restart, read around partitions, repair lost fragments.  Links are
// simulated streams or caller memory.
#include <algorithm>
#include "ops.h"
#include "util.h"

namespace sim {
namespace {

struct Frag {
    bool present = false;
    Bytes bytes;
    Marks marks;
};
struct Stored {
    Object o;
    bool have = false; // acknowledged
    std::vector<Frag> node; // data nodes first for systematic codes
};

struct Exec {
    const Scenario& sc;
    CodeCfg base;
    const Model* md;
    unsigned k, m, n_out, n_nodes;
    bool sys;
    std::map<int, CodeCfg> ccfg;
    std::map<int, std::unique_ptr<ICode>> inst;
    std::map<int, int> ops_on; // operations already done on the instance
    std::map<int, int> faulted; // of these, how many met a stream fault
    std::map<int, Stored> objs;
    // other users of the library in this process: their own code, one kept
    // instance each
    std::map<int, CodeCfg> tcfg;
    std::map<int, std::unique_ptr<ICode>> tinst;
    bool persist = false, check_model = false, check_count = false;
    bool fresh = false; // every op on a brand-new instance
    int opno = 0;
    int cur = 0; // client of the running operation

    explicit Exec(const Scenario& s) : sc(s) {}

    void bad(const std::string& cls, const std::string& msg)
    {
        auto it = ccfg.find(cur);
        g_run->violate(cls, fmt("op %d: ", opno) + msg + " | "
                                + (it == ccfg.end() ? base : it->second).text());
    }
    CodeCfg cfg_of(int c)
    {
        auto it = ccfg.find(c);
        return it == ccfg.end() ? base : it->second;
    }
    ICode* client(int c)
    {
        if (fresh)
            inst.erase(c);
        auto& p = inst[c];
        if (!p) {
            Outcome o = call([&] {
                p = make_code(cfg_of(c));
                return true;
            });
            ops_on[c] = 0;
            faulted[c] = 0;
            if (!o.returned || !p) {
                bad("construct", "cannot create the code: " + o.what);
                return nullptr;
            }
            if (p->n_out != n_out)
                bad("construct", fmt("%u outputs instead of %u", p->n_out, n_out));
        }
        return p.get();
    }
    std::string route_of(const Line& l, const CodeCfg& c)
    {
        std::string r = l.str("route", "s");
        if (!c.streams_ok())
            return "b";
        if (r == "p")
            return r;
        if (r == "h" && !c.horizontal_ok())
            r = "v";
        if ((r == "v" || r == "b") && !c.vertical_ok())
            r = "h";
        return r;
    }
    // where the object lies in the stream when it is handled packet by packet
    uint64_t base_of(const Line& l) { return (uint64_t)l.num("base"); }
    // Bytes of every fragment that a transfer broken at byte b must preserve:
    // up to the fault when the stream just ends; when a read fails the bytes
    // the stream had delivered within that read are lost with it.
    size_t intact(size_t b, int kind, const std::string& route, const CodeCfg& cf)
    {
        size_t unit = base.w;
        if (kind >= 2 && route == "v")
            unit = (size_t)base.w * cf.pkt;
        return b - b % unit;
    }
    size_t bytes_of(const Stored& s) { return s.o.words * base.w; }

    // ------------------------------------------------------------ put
    // Runs an encode on client c.  Fills frags; returns false when it failed.
    // the streams of a transfer that broke
    struct SrcFault {
        size_t at = ~(size_t)0; // first byte that was not delivered
        int kind = 0;
        void add(size_t a, int k)
        {
            at = std::min(at, a);
            kind = std::max(kind, k);
        }
    };
    struct EncResult {
        Outcome out;
        std::vector<Bytes> frag;
        std::vector<Marks> marks;
        std::vector<bool> wanted;
        bool src_fired = false;
        bool sink_fired = false;
        SrcFault src;
        uint64_t count = 0;
    };
    EncResult encode(int c, const std::vector<Bytes>& data, const Line& l)
    {
        EncResult r;
        ICode* code = client(c);
        r.wanted.assign(n_out, true);
        r.frag.resize(n_out);
        r.marks.resize(n_out);
        if (!code)
            return r;
        CodeCfg cf = cfg_of(c);
        std::string route = route_of(l, cf);
        PropsVec props(n_out);
        if (l.num("dirtyprops")) // stale marks from an earlier use
            for (auto& p : props)
                p.add(3, 1);
        ++ops_on[c];
        g_run->ev("encode", c, hash_bytes(data[0]), data[0].size());
        for (int i : parse_list(l.str("unwant")))
            if (i >= 0 && i < (int)n_out)
                r.wanted[i] = false;
        if (route == "b") {
            size_t n = data[0].size();
            bool at_end = l.num("atend", 1) != 0;
            std::vector<Guarded> in, out;
            std::vector<uint8_t*> ip, op;
            for (unsigned i = 0; i < k; ++i) {
                in.emplace_back(n, i, at_end, 1);
                memcpy(in[i].p(), data[i].data(), n);
                in[i].freeze(true);
                ip.push_back(in[i].p());
            }
            for (unsigned i = 0; i < n_out; ++i) {
                if (r.wanted[i]) {
                    out.emplace_back(n, 100 + i, at_end, 1);
                    op.push_back(out.back().p());
                } else {
                    out.emplace_back();
                    op.push_back(nullptr);
                }
            }
            std::vector<bool> wanted = r.wanted;
            r.out = call([&] {
                code->enc_blocks(ip, op, props, wanted, n);
                return true;
            });
            for (unsigned i = 0; i < n_out; ++i)
                if (r.wanted[i]) {
                    r.frag[i].assign(out[i].p(), out[i].p() + n);
                    if (!out[i].slack_ok())
                        bad("bounds", fmt("encode wrote outside output block %u", i));
                }
        } else if (route == "p") {
            std::vector<const uint8_t*> ip;
            std::vector<uint8_t*> op;
            for (unsigned i = 0; i < k; ++i)
                ip.push_back(data[i].data());
            for (unsigned i = 0; i < n_out; ++i) {
                r.frag[i].assign(data[0].size(), 0x5a);
                op.push_back(r.frag[i].data());
            }
            for (auto& p : props)
                p.clear();
            r.out = call([&] {
                code->enc_packets(base_of(l), data[0].size() / base.w, ip, op, props);
                return true;
            });
        } else {
            InSet in;
            OutSet out;
            StreamPlan p = StreamPlan::from(l, "");
            p.fail_kind = 0;
            p.fail_at = -1;
            StreamPlan pf = StreamPlan::from(l, "");
            StreamPlan pg = StreamPlan::from(l, "x");
            StreamPlan ps = StreamPlan::from(l, "s");
            for (StreamPlan* q : {&ps, &pg}) {
                q->chunk = p.chunk;
                q->jitter = p.jitter;
                q->delay_us = p.delay_us;
            }
            int badi = (int)l.num("bad", -1), sink = (int)l.num("sink", -1);
            int badx = (int)l.num("xbad", -1);
            for (unsigned i = 0; i < k; ++i)
                in.add(&data[i], (int)i == badi ? pf : (int)i == badx ? pg : p, i);
            StreamPlan po = p;
            for (unsigned i = 0; i < n_out; ++i)
                out.add(r.wanted[i], (int)i == sink ? ps : po, 1000 + i);
            r.out = call([&] {
                code->enc_streams(route == "v", in.ptr, out.ptr, props);
                return true;
            });
            for (unsigned i = 0; i < n_out; ++i) {
                r.frag[i] = out.buf[i]->data;
                r.sink_fired = r.sink_fired || out.buf[i]->fired;
            }
            for (unsigned i = 0; i < k; ++i)
                if (in.buf[i]->fired) {
                    r.src_fired = true;
                    const StreamPlan& q = (int)i == badi ? pf : pg;
                    r.src.add((size_t)q.fail_at, q.fail_kind);
                }
        }
        for (unsigned i = 0; i < n_out; ++i)
            r.marks[i] = from_props(props[i]);
        if (route == "p")
            for (auto& mk : r.marks)
                for (auto& x : mk)
                    x.first -= base_of(l);
        r.count = code->counters().enc_ops;
        for (unsigned i = 0; i < n_out; ++i)
            g_run->ev("frag", i, hash_bytes(r.frag[i]), r.marks[i].size());
        return r;
    }
    void check_fragment(const char* cls, const char* what, unsigned i,
                        const Bytes& got, const Marks& gm, const Bytes& want,
                        const Marks& wm)
    {
        if (got != want)
            bad(cls, fmt("%s fragment %u: ", what, i) + diff_desc(want, got));
        else if (gm != wm)
            bad(cls, fmt("%s fragment %u marks ", what, i) + marks_text(gm)
                         + ", expected " + marks_text(wm));
    }
    void put(const Line& l)
    {
        int c = (int)l.num("c"), id = (int)l.num("obj");
        auto it = objs.find(id);
        if (it == objs.end())
            return;
        Stored& s = it->second;
        if (!storable(cfg_of(c), s.o))
            return;
        EncResult r = encode(c, s.o.data, l);
        if (r.wanted.empty() || (!r.out.returned && r.frag[0].empty() && !inst[c]))
            return;
        CodeCfg cf = cfg_of(c);
        std::string route = route_of(l, cf);
        size_t full = bytes_of(s);
        if (!r.src_fired && !r.sink_fired) {
            std::string msg;
            if (!r.out.returned)
                msg = "encode threw " + r.out.what;
            bool wrong = !msg.empty();
            for (unsigned i = 0; i < n_out && msg.empty(); ++i)
                if (r.wanted[i]) {
                    if (r.frag[i].size() != full)
                        msg = fmt("fragment %u has %zu bytes instead of %zu", i,
                                  r.frag[i].size(), full);
                    if (r.frag[i] != s.o.truth.frag[i] || r.marks[i] != s.o.truth.marks[i])
                        wrong = true;
                }
            if (!msg.empty())
                bad("encode", msg);
            else if (wrong && check_model)
                for (unsigned i = 0; i < n_out; ++i)
                    if (r.wanted[i])
                        check_fragment("encode", "encoded", i, r.frag[i], r.marks[i],
                                       s.o.truth.frag[i], s.o.truth.marks[i]);
            if (wrong && (ops_on[c] > 1 || l.num("dirtyprops"))) {
                // does a brand-new instance with new properties encode the
                // same data differently?
                auto keep = std::move(inst[c]);
                int n = ops_on[c], nf = faulted[c];
                Line l2 = l;
                l2.set("dirtyprops", 0);
                EncResult r2 = encode(c, s.o.data, l2);
                inst[c] = std::move(keep);
                ops_on[c] = n;
                faulted[c] = nf;
                if (r2.out.returned
                    && (!r.out.returned || r2.frag != r.frag || r2.marks != r.marks)) {
                    bad("history", fmt("after %d earlier operations the instance encodes "
                                       "differently from a new one", n - 1));
                    if (nf)
                        bad("fault", fmt("after %d stream faults the instance encodes "
                                         "differently from a new one", nf));
                }
            }
            if (!msg.empty())
                return;
            if (check_count && route != "p") {
                uint64_t want = route == "h" ? s.o.words
                                             : (s.o.words + cf.pkt - 1) / cf.pkt;
                if (r.count != want)
                    bad("count", fmt("encode reports %llu operations for %llu packets",
                                     (unsigned long long)r.count,
                                     (unsigned long long)want));
            }
            store(s, r);
            return;
        }
        // ---- faulty transfer: prefix, isolation
        ++faulted[c];
        if (r.src_fired)
            g_run->probe("put_with_failed_source");
        if (r.sink_fired)
            g_run->probe("put_with_failed_sink");
        int sink = (int)l.num("sink", -1);
        size_t b = r.src_fired ? r.src.at : full;
        bool threw = !r.out.returned;
        if (threw && !r.out.stream_fault) {
            bad("fault", "encode threw " + r.out.what + " after a stream fault");
            return;
        }
        bool may_throw = r.src.kind == 3 || (r.sink_fired && l.num("sfailkind") == 3);
        if (threw && !may_throw)
            bad("fault", "encode threw although its streams are set not to");
        size_t good = intact(b, r.src.kind, route, cf);
        for (unsigned i = 0; i < n_out; ++i) {
            if (!r.wanted[i])
                continue;
            bool hit = (int)i == sink && r.sink_fired;
            const Bytes& got = r.frag[i];
            size_t lim = std::min(got.size(), good);
            if (got.size() > full)
                bad("fault", fmt("output %u has %zu bytes from %zu", i, got.size(), full));
            if (!std::equal(got.begin(), got.begin() + lim, s.o.truth.frag[i].begin()))
                bad("fault", fmt("output %u: prefix of %zu bytes is wrong after a "
                                 "stream fault: ", i, lim)
                                 + diff_desc(Bytes(s.o.truth.frag[i].begin(),
                                                   s.o.truth.frag[i].begin() + lim),
                                             Bytes(got.begin(), got.begin() + lim)));
            if (hit || threw)
                continue;
            if (got.size() < good)
                bad("fault", fmt("output %u has %zu bytes, %zu were encodable", i,
                                 got.size(), good));
            size_t wl = std::min(good, got.size()) / base.w;
            Marks gm = marks_below(r.marks[i], wl);
            Marks wm = marks_below(s.o.truth.marks[i], wl);
            if (gm != wm)
                bad("fault", fmt("output %u marks ", i) + marks_text(gm)
                                 + ", expected " + marks_text(wm)
                                 + " after a stream fault");
        }
        // healthy sinks of a put whose sources were fine hold whole fragments
        if (!r.src_fired && !threw) {
            g_run->probe("put_partially_stored");
            EncResult r2 = r;
            for (unsigned i = 0; i < n_out; ++i)
                if ((int)i == sink)
                    r2.wanted[i] = false;
            for (unsigned i = 0; i < n_out; ++i)
                if (r2.wanted[i] && r2.frag[i].size() != full)
                    return;
            store(s, r2);
        }
    }
    void store(Stored& s, EncResult& r)
    {
        s.have = true;
        s.node.assign(n_nodes, Frag());
        if (sys)
            for (unsigned i = 0; i < k; ++i) {
                s.node[i].present = true;
                s.node[i].bytes = s.o.data[i];
            }
        for (unsigned i = 0; i < n_out; ++i)
            if (r.wanted[i]) {
                Frag& f = s.node[(sys ? k : 0) + i];
                f.present = true;
                f.bytes = r.frag[i];
                f.marks = persist ? reload(r.marks[i]) : r.marks[i];
            }
    }
    // marks written to and read back from a properties file
    Marks reload(const Marks& m)
    {
        quadiron::Properties p, q;
        for (auto& x : m)
            p.add(x.first, x.second);
        SimOut so(StreamPlan(), 5000);
        {
            std::ostream os(&so);
            os << p;
        }
        SimIn si(so.data, StreamPlan(), 5001);
        std::istream is(&si);
        is >> q;
        return from_props(q);
    }

    // ------------------------------------------------------------ get
    struct DecResult {
        Outcome out;
        std::vector<Bytes> data;
        std::vector<bool> wanted;
        bool src_fired = false, sink_fired = false;
        SrcFault src;
        uint64_t count = 0;
        bool props_same = true;
        bool touched = false; // anything written
        bool exact = true;    // block route: everything written in full
        std::string route;
    };
    DecResult decode(ICode* code, const CodeCfg& cf, Stored& s,
                     const std::vector<bool>& use, const Line& l)
    {
        DecResult r;
        r.route = route_of(l, cf);
        size_t n = bytes_of(s);
        r.wanted.assign(k, true);
        for (int i : parse_list(l.str("nowant")))
            if (i >= 0 && i < (int)k)
                r.wanted[i] = false;
        r.data.resize(k);
        PropsVec props(n_out);
        for (unsigned i = 0; i < n_out; ++i) {
            unsigned nd = (sys ? k : 0) + i;
            if (!use[nd])
                continue;
            Marks mk = s.node[nd].marks;
            if (l.num("shuffle")) { // marks may be stored in any order
                Rng sh((uint64_t)l.num("shuffle") + i);
                for (size_t j = mk.size(); j > 1; --j)
                    std::swap(mk[j - 1], mk[sh.below(j)]);
            }
            for (auto& x : mk)
                props[i].add(x.first + (r.route == "p" ? base_of(l) : 0), x.second);
        }
        std::vector<Marks> before;
        for (auto& p : props)
            before.push_back(from_props(p));
        if (r.route == "b") {
            bool at_end = l.num("atend", 1) != 0;
            std::vector<Guarded> db, pb;
            std::vector<uint8_t*> dp(k, nullptr), pp(n_out, nullptr);
            std::vector<Bytes> orig(k);
            std::vector<int> missing(k + m, 1);
            std::vector<bool> wanted = r.wanted;
            for (unsigned i = 0; i < k; ++i) {
                bool have = sys && use[i];
                if (have || r.wanted[i]) {
                    db.emplace_back(n, 200 + i, at_end, 1);
                    dp[i] = db.back().p();
                    if (have) {
                        memcpy(dp[i], s.node[i].bytes.data(), n);
                        if (!r.wanted[i])
                            db.back().freeze(true);
                    }
                    orig[i].assign(dp[i], dp[i] + n);
                } else
                    db.emplace_back();
                if (sys)
                    missing[i] = have ? 0 : 1;
            }
            for (unsigned i = 0; i < n_out; ++i) {
                unsigned nd = (sys ? k : 0) + i;
                if (use[nd]) {
                    pb.emplace_back(n, 300 + i, at_end, 1);
                    pp[i] = pb.back().p();
                    memcpy(pp[i], s.node[nd].bytes.data(), n);
                    pb.back().freeze(true);
                    missing[nd] = 0;
                } else
                    pb.emplace_back();
            }
            r.out = call([&] {
                return code->dec_blocks(dp, pp, props, missing, wanted, n);
            });
            for (unsigned i = 0; i < k; ++i) {
                if (!dp[i])
                    continue;
                if (!db[i].slack_ok())
                    bad("bounds", fmt("decode wrote outside data block %u", i));
                Bytes now(dp[i], dp[i] + n);
                if (now != orig[i])
                    r.touched = true;
                r.data[i] = now;
            }
        } else if (r.route == "p") {
            std::vector<const uint8_t*> dp(k, nullptr), pp(n_out, nullptr);
            std::vector<uint8_t*> op;
            std::vector<Bytes> buf(k, Bytes(n, 0x5a));
            auto at = [](const Bytes& b) { // an empty fragment is not a missing one
                static const uint8_t none = 0;
                return b.empty() ? &none : b.data();
            };
            for (unsigned i = 0; i < k; ++i) {
                if (sys && use[i])
                    dp[i] = at(s.node[i].bytes);
                op.push_back(buf[i].data());
            }
            for (unsigned i = 0; i < n_out; ++i)
                if (use[(sys ? k : 0) + i])
                    pp[i] = at(s.node[(sys ? k : 0) + i].bytes);
            r.out = call([&] {
                return code->dec_packets(base_of(l), n / base.w, dp, pp, props, op);
            });
            bool clear = sys;
            for (unsigned i = 0; i < k && clear; ++i)
                clear = use[i];
            for (unsigned i = 0; i < k && r.out.ok && !clear; ++i)
                if (r.wanted[i])
                    r.data[i] = buf[i];
        } else {
            InSet in, pin;
            OutSet out;
            StreamPlan p = StreamPlan::from(l, "");
            StreamPlan pf = p;
            p.fail_kind = 0;
            p.fail_at = -1;
            StreamPlan ps = StreamPlan::from(l, "s");
            StreamPlan pg = StreamPlan::from(l, "x");
            for (StreamPlan* q : {&ps, &pg}) {
                q->chunk = p.chunk;
                q->jitter = p.jitter;
                q->delay_us = p.delay_us;
            }
            int badn = (int)l.num("bad", -1), sink = (int)l.num("sink", -1);
            int badx = (int)l.num("xbad", -1);
            auto plan = [&](unsigned nd) -> StreamPlan& {
                return (int)nd == badn ? pf : (int)nd == badx ? pg : p;
            };
            if (sys)
                for (unsigned i = 0; i < k; ++i)
                    in.add(use[i] ? &s.node[i].bytes : nullptr, plan(i), i);
            else
                for (unsigned i = 0; i < k; ++i)
                    in.add(nullptr, p, i);
            for (unsigned i = 0; i < n_out; ++i) {
                unsigned nd = (sys ? k : 0) + i;
                pin.add(use[nd] ? &s.node[nd].bytes : nullptr, plan(nd), nd);
            }
            for (unsigned i = 0; i < k; ++i)
                out.add(r.wanted[i], (int)i == sink ? ps : p, 2000 + i);
            r.out = call([&] {
                return code->dec_streams(r.route == "v", in.ptr, pin.ptr, props, out.ptr);
            });
            for (unsigned i = 0; i < k; ++i) {
                r.data[i] = out.buf[i]->data;
                r.touched = r.touched || !r.data[i].empty();
                r.sink_fired = r.sink_fired || out.buf[i]->fired;
            }
            for (InSet* set : {&in, &pin})
                for (auto& b : set->buf)
                    if (b->fired) {
                        r.src_fired = true;
                        r.src.add((size_t)b->plan().fail_at, b->plan().fail_kind);
                    }
        }
        for (unsigned i = 0; i < n_out; ++i) {
            Marks now = from_props(props[i]);
            std::sort(now.begin(), now.end());
            std::sort(before[i].begin(), before[i].end());
            if (now != before[i])
                r.props_same = false;
        }
        r.count = code->counters().dec_ops;
        for (unsigned i = 0; i < k; ++i)
            g_run->ev("decoded", i, hash_bytes(r.data[i]), r.out.ok);
        return r;
    }
    // "" when the result is what it must be
    std::string judge(DecResult& r, Stored& s, const std::vector<bool>& use,
                      unsigned avail, std::string& cls)
    {
        bool clear = sys;
        for (unsigned i = 0; i < k && clear; ++i)
            clear = use[i];
        if (avail < k) {
            cls = "toofew";
            if (!r.out.returned)
                return fmt("decode with %u of %u fragments threw ", avail, k) + r.out.what;
            if (r.out.ok)
                return fmt("decode reports success with %u of %u fragments", avail, k);
            if (r.touched)
                return fmt("failed decode (%u of %u fragments) wrote output", avail, k);
            if (!r.props_same)
                return "failed decode changed the marks";
            return "";
        }
        cls = "restore";
        if (!r.out.returned)
            return "decode threw " + r.out.what;
        if (!r.out.ok)
            return fmt("decode refused although %u of %u fragments survive", avail, k);
        for (unsigned i = 0; i < k; ++i) {
            if (!r.wanted[i] && r.route != "b")
                continue;
            if (clear) {
                // all data is in clear: nothing is produced, nothing changes
                if (r.route != "b" && !r.data[i].empty() && r.data[i] != s.o.data[i])
                    return fmt("chunk %u in clear was rewritten wrongly", i);
                if (r.route == "b" && !r.data[i].empty() && r.data[i] != s.o.data[i])
                    return fmt("chunk %u in clear was damaged", i);
                continue;
            }
            if (!r.wanted[i]) {
                if (!r.data[i].empty() && r.data[i] != s.o.data[i])
                    return fmt("unwanted chunk %u was damaged", i);
                continue;
            }
            if (r.data[i] != s.o.data[i])
                return fmt("chunk %u: ", i) + diff_desc(s.o.data[i], r.data[i]);
        }
        if (!r.props_same)
            return "decode changed the caller's marks";
        return "";
    }
    bool pick(const Stored& s, const Line& l, std::vector<bool>& use, unsigned& avail)
    {
        use.assign(n_nodes, false);
        avail = 0;
        if (!s.have)
            return false;
        for (unsigned i = 0; i < n_nodes; ++i)
            use[i] = s.node[i].present;
        for (int i : parse_list(l.str("avoid")))
            if (i >= 0 && i < (int)n_nodes)
                use[i] = false;
        for (unsigned i = 0; i < n_nodes; ++i)
            avail += use[i];
        return true;
    }
    void get(const Line& l)
    {
        int c = (int)l.num("c"), id = (int)l.num("obj");
        auto it = objs.find(id);
        std::vector<bool> use;
        unsigned avail;
        if (it == objs.end() || !pick(it->second, l, use, avail))
            return;
        Stored& s = it->second;
        ICode* code = client(c);
        if (!code)
            return;
        CodeCfg cf = cfg_of(c);
        if (!storable(cf, s.o))
            return;
        int prior = ops_on[c]++;
        g_run->ev("get", c, id, avail);
        DecResult r = decode(code, cf, s, use, l);
        bool faulty = r.src_fired || r.sink_fired;
        if (avail < k)
            g_run->probe("get_below_threshold");
        else if (avail == k)
            g_run->probe("get_at_threshold");
        if (!faulty) {
            std::string cls;
            std::string msg = judge(r, s, use, avail, cls);
            if (!msg.empty()) {
                bad(cls, msg);
                if (prior > 0) {
                    // does a brand-new instance get it right?
                    std::unique_ptr<ICode> f = make_code(cf);
                    DecResult r2 = decode(f.get(), cf, s, use, l);
                    std::string c2, m2 = judge(r2, s, use, avail, c2);
                    if (m2.empty())
                        bad("history",
                            fmt("after %d earlier operations the instance gives: ",
                                prior) + msg + "; a new instance is right");
                    if (m2.empty() && faulted[c])
                        bad("fault",
                            fmt("after %d stream faults the instance gives: ",
                                faulted[c]) + msg + "; a new instance is right");
                }
            }
            bool clear = sys;
            for (unsigned i = 0; i < k && clear; ++i)
                clear = use[i];
            if (check_count && r.route != "p" && avail >= k && !clear && r.out.ok) {
                uint64_t want = r.route == "h" ? s.o.words
                                               : (s.o.words + cf.pkt - 1) / cf.pkt;
                if (r.count != want)
                    bad("count", fmt("decode reports %llu operations for %llu packets",
                                     (unsigned long long)r.count,
                                     (unsigned long long)want));
            }
            return;
        }
        // ---- a fragment source or a sink failed
        ++faulted[c];
        if (r.src_fired)
            g_run->probe("get_with_failed_source");
        if (r.sink_fired)
            g_run->probe("get_with_failed_sink");
        bool threw = !r.out.returned;
        if (threw && !r.out.stream_fault) {
            bad("fault", "decode threw " + r.out.what + " after a stream fault");
            return;
        }
        bool may_throw = r.src.kind == 3 || (r.sink_fired && l.num("sfailkind") == 3);
        if (threw && !may_throw)
            bad("fault", "decode threw although its streams are set not to");
        size_t full = bytes_of(s);
        size_t b = r.src_fired ? r.src.at : full;
        size_t good = intact(b, r.src.kind, r.route, cf);
        int sink = (int)l.num("sink", -1);
        for (unsigned i = 0; i < k; ++i) {
            if (!r.wanted[i]) {
                if (!r.data[i].empty())
                    bad("fault", fmt("unwanted output %u was written", i));
                continue;
            }
            size_t lim = std::min(r.data[i].size(), good);
            if (r.data[i].size() > full)
                bad("fault", fmt("output %u has %zu bytes from %zu", i,
                                 r.data[i].size(), full));
            if (!std::equal(r.data[i].begin(), r.data[i].begin() + lim,
                            s.o.data[i].begin()))
                bad("fault", fmt("decoded chunk %u: prefix of %zu bytes is wrong after "
                                 "a stream fault: ", i, lim)
                                 + diff_desc(Bytes(s.o.data[i].begin(),
                                                   s.o.data[i].begin() + lim),
                                             Bytes(r.data[i].begin(),
                                                   r.data[i].begin() + lim)));
            if (((int)i == sink && r.sink_fired) || threw)
                continue;
            if (r.data[i].size() < good)
                bad("fault", fmt("decoded chunk %u has %zu bytes, %zu were decodable",
                                 i, r.data[i].size(), good));
        }
    }
    // ------------------------------------------------------------ repair
    void repair(const Line& l)
    {
        int c = (int)l.num("c"), id = (int)l.num("obj"), nd = (int)l.num("node");
        auto it = objs.find(id);
        std::vector<bool> use;
        unsigned avail;
        if (it == objs.end() || nd < 0 || nd >= (int)n_nodes
            || !pick(it->second, l, use, avail))
            return;
        Stored& s = it->second;
        use[nd] = false;
        avail = 0;
        for (unsigned i = 0; i < n_nodes; ++i)
            avail += use[i];
        ICode* code = client(c);
        if (!code)
            return;
        CodeCfg cf = cfg_of(c);
        if (!storable(cf, s.o))
            return;
        Line l2 = l;
        l2.set("nowant", "");
        l2.set("bad", -1).set("sink", -1).set("xbad", -1);
        ++ops_on[c];
        g_run->ev("repair", c, id, nd);
        DecResult r = decode(code, cf, s, use, l2);
        std::string cls, msg = judge(r, s, use, avail, cls);
        if (!msg.empty()) {
            bad(cls, "during repair: " + msg);
            return;
        }
        if (avail < k)
            return;
        std::vector<Bytes> data = r.data;
        bool clear = sys;
        for (unsigned i = 0; i < k && clear; ++i)
            clear = use[i];
        if (clear)
            for (unsigned i = 0; i < k; ++i)
                data[i] = s.node[i].bytes;
        Frag f;
        f.present = true;
        if (sys && nd < (int)k) {
            f.bytes = data[nd];
        } else {
            std::vector<int> un;
            for (unsigned i = 0; i < n_out && l.num("only"); ++i)
                if (i + (sys ? k : 0) != (unsigned)nd)
                    un.push_back(i);
            l2.set("unwant", list_text(un));
            EncResult e = encode(c, data, l2);
            if (!e.out.returned) {
                bad("repair", "re-encoding threw " + e.out.what);
                return;
            }
            unsigned i = nd - (sys ? k : 0);
            check_fragment("repair", "regenerated", i, e.frag[i], e.marks[i],
                           s.o.truth.frag[i], s.o.truth.marks[i]);
            f.bytes = e.frag[i];
            f.marks = persist ? reload(e.marks[i]) : e.marks[i];
            if (f.bytes.size() != bytes_of(s))
                return;
        }
        g_run->probe("fragment_regenerated");
        s.node[nd] = f;
    }

    void other(const Line& l)
    {
        auto it = tcfg.find((int)l.num("t"));
        if (it == tcfg.end())
            return;
        const CodeCfg& cf = it->second;
        auto& p = tinst[it->first];
        if (fresh || l.num("renew"))
            p.reset();
        if (!p) {
            Outcome o;
            p = op_open(cf, o);
            if (!p) {
                g_run->violate("construct", fmt("op %d: other user: cannot create the code: ", opno)
                                                + o.what + " | " + cf.text());
                return;
            }
        }
        const Model& omd = model_for(cf);
        Scenario none;
        Object ob = build_object(none, omd, l);
        if (!storable(cf, ob))
            return;
        Op op = op_from(l, omd, cf, ob);
        g_run->ev("other", it->first, op.dec, op.avail);
        g_run->probe("other_user_op");
        std::string msg = op_judge(omd, op, op_run(*p, omd, op));
        if (!msg.empty())
            g_run->violate(op.dec ? op.avail < omd.k ? "toofew" : "restore" : "encode",
                           fmt("op %d: other user: ", opno) + msg + " | " + cf.text());
    }

    void run()
    {
        const Line* cl = sc.first("code");
        if (!cl)
            return;
        base = CodeCfg::from(*cl);
        if (!in_domain(base))
            return;
        persist = cl->num("persist") != 0;
        check_model = cl->num("model", 1) != 0;
        check_count = cl->num("count", 0) != 0;
        fresh = cl->num("fresh", 0) != 0;
        md = &model_for(base);
        k = md->k;
        m = md->m;
        n_out = md->n_out;
        sys = base.sys;
        n_nodes = k + m;
        for (auto& l : sc.lines) {
            if (l.verb == "heap") {
                g_alloc.fill = (uint8_t)l.num("fill", 0xA5);
                g_alloc.fill_random = l.num("random") != 0;
            } else if (l.verb == "clock") {
                g_clock.jumps[l.num("at", 1)] += l.num("by");
            } else if (l.verb == "client") {
                CodeCfg c = base;
                c.tb = (int)l.num("T", base.tb);
                c.pkt = (int)l.num("pkt", base.pkt);
                c.capi = l.num("capi") != 0;
                if (in_domain(c) && c.pkt >= 1)
                    ccfg[(int)l.num("id")] = c;
            } else if (l.verb == "tenant") {
                CodeCfg c = CodeCfg::from(l);
                if (in_domain(c))
                    tcfg[(int)l.num("id")] = c;
            } else if (l.verb == "other") {
                ++opno;
                other(l);
            } else if (l.verb == "obj") {
                Stored s;
                s.o = build_object(sc, *md, l);
                for (auto& x : s.o.truth.marks)
                    if (!x.empty())
                        g_run->probe("object_with_marks");
                objs[s.o.id] = std::move(s);
            } else if (l.verb == "put" || l.verb == "get" || l.verb == "repair"
                       || l.verb == "lose" || l.verb == "crash" || l.verb == "restart") {
                ++opno;
                cur = (int)l.num("c");
                if (l.verb == "put")
                    put(l);
                else if (l.verb == "get")
                    get(l);
                else if (l.verb == "repair")
                    repair(l);
                else if (l.verb == "restart") {
                    inst.erase((int)l.num("c"));
                    g_run->fault("client_restart");
                    g_run->ev("restart", l.num("c"));
                } else {
                    int nd = (int)l.num("node");
                    for (auto& p : objs)
                        if (!l.has("obj") || l.num("obj") == p.first)
                            if (nd >= 0 && nd < (int)p.second.node.size()
                                && p.second.node[nd].present) {
                                // torn or lost: checksums make the node drop it
                                p.second.node[nd] = Frag();
                                g_run->fault(l.verb == "crash" ? "node_crash"
                                                               : "fragment_lost");
                            }
                    g_run->ev("lose", nd);
                }
            }
        }
        inst.clear();
        tinst.clear();
        if (g_alloc.live)
            bad("leak", fmt("%llu allocations (%llu bytes) survive every instance",
                            (unsigned long long)g_alloc.live,
                            (unsigned long long)g_alloc.live_bytes));
        if (g_alloc.bad_free)
            bad("leak", "double free");
    }
};

void exec(const Scenario& s)
{
    Exec e(s);
    e.run();
}

std::string route_for(Rng& r, const CodeCfg& c)
{
    if (!c.streams_ok())
        return "b";
    if (r.chance(0.12))
        return "p";
    if (!c.vertical_ok())
        return "h";
    double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    if (z < 0.4)
        return "b";
    if (z < 0.8 || !c.horizontal_ok())
        return "v";
    return "h";
}

// profile: restore | encode | toofew | fault | reuse | count | repair | long
Scenario gen(uint64_t seed, const std::string& profile)
{
    Rng r(seed);
    Scenario s;
    GenOpt o;
    o.capi = profile != "fault" && profile != "count";
    o.small = profile == "fault" ? r.chance(0.8) : r.chance(0.25);
    CodeCfg c = gen_code(r, o);
    bool lengthy = profile == "long"; // objects beyond 16 bits of words or bytes
    while (lengthy && (c.k + c.m > 5 || c.w > 2 || c.capi)) {
        o.small = true;
        c = gen_code(r, o);
    }
    {
        Line& l = s.add("code");
        c.to(l);
        l.set("model", profile == "restore" || profile == "toofew" ? 0 : 1);
        if (profile == "restore" && r.chance(0.2))
            l.set("persist", 1);
        if (profile == "count")
            l.set("count", 1);
    }
    unsigned n_out = c.sys ? c.m : c.k + c.m;
    unsigned n_nodes = c.k + c.m;
    bool heavy = c.k + c.m > 60 || c.w > 2;
    if (r.chance(0.5)) {
        static const int f[] = {0, 0xff, 0x01, 0x80, 0xa5};
        s.add("heap").set("fill", f[r.below(5)]).set("random", r.chance(0.3));
    }
    if (r.chance(0.25))
        s.add("clock").set("at", (int64_t)(1 + r.below(30))).set(
            "by", r.chance(0.5) ? -(int64_t)r.below(1000000000) : (int64_t)r.below(1000000000));
    int nc = lengthy && r.chance(0.5) ? 1 : c.kind == "nf4" && c.w > 2 ? 1 + (int)r.chance(0.2) : 1 + (int)r.below(3);
    bool slow = c.kind == "nf4" && c.w > 2;
    for (int i = 1; i < nc; ++i) {
        CodeCfg d = gen_sibling(r, c);
        s.add("client").set("id", i).set("T", d.tb).set("pkt", d.pkt);
        if (d.capi)
            s.lines.back().set("capi", 1);
    }
    int nt = !heavy && r.chance(profile == "reuse" ? 0.6 : 0.3) ? 1 + (int)r.below(2) : 0;
    std::vector<CodeCfg> ten;
    for (int i = 0; i < nt; ++i) {
        ten.push_back(gen_neighbour(r, c));
        ten.back().to(s.add("tenant").set("id", i));
    }
    int no = heavy || lengthy ? 1 : 1 + (int)r.below(3);
    std::vector<size_t> words(no);
    for (int i = 0; i < no; ++i) {
        words[i] = gen_words(r, c, 400);
        if (lengthy)
            words[i] = 65536 / (1 + r.below(2)) + r.below(r.chance(0.5) ? 1000 : 80000);
        if (profile != "fault" && r.chance(0.02))
            words[i] = 0; // an empty object
        s.add("obj").set("id", i).set("words", (int64_t)words[i]).set(
            "seed", (int64_t)r.below(100000)).set("pat", gen_pat(r));
        if (words[i] && r.chance(0.75))
            gen_crafts(r, s, c, i, words[i], 1 + (int)r.below(lengthy ? 30 : 6));
    }
    auto fault_src = [&](Line& l, int id, int n, const std::string& px = "") {
        l.set(px + "bad", (int64_t)r.below(n));
        size_t bytes = words[id] * c.w;
        size_t at;
        size_t pk = (size_t)c.pkt * c.w;
        switch (r.below(5)) {
        case 0:
            at = 0;
            break;
        case 1:
            at = pk * r.below(bytes / pk + 1);
            break;
        case 2:
            at = bytes - 1 - r.below(std::min<size_t>(bytes, 4));
            break;
        default:
            at = r.below(bytes);
        }
        if (at >= bytes)
            at = bytes - 1;
        l.set(px + "failat", (int64_t)at).set(px + "failkind", (int64_t)(1 + r.below(3)));
    };
    auto fault_sink = [&](Line& l, int id, int n) {
        size_t bytes = words[id] * c.w;
        l.set("sink", (int64_t)r.below(n));
        l.set("sfailat", (int64_t)r.below(bytes)).set("sfailkind", (int64_t)(1 + r.below(3)));
    };
    auto place = [&](Line& l) {
        if (l.str("route") != "p" || r.chance(0.3))
            return;
        static const int bits[] = {8, 16, 31, 32, 33, 40};
        uint64_t b = 1ull << bits[r.below(6)];
        l.set("base", (int64_t)(r.chance(0.5) ? b - 1 - r.below(b < 2000 ? b : 2000) : b + r.below(100)));
    };
    auto put = [&](int id, bool faulty) {
        Line& l = s.add("put");
        l.set("c", (int64_t)r.below(nc)).set("obj", id);
        std::string rt = faulty && c.vertical_ok() ? (c.horizontal_ok() && r.chance(0.4) ? "h" : "v")
                                                   : route_for(r, c);
        l.set("route", rt);
        if (rt == "b") {
            if (r.chance(0.3))
                l.set("atend", 0);
        } else
            gen_delivery(r, l);
        if (r.chance(0.2) && n_out > 1)
            l.set("unwant", gen_list(r, n_out, 1 + (int)r.below(n_out - 1)));
        place(l);
        if (r.chance(0.1))
            l.set("dirtyprops", 1);
        if (faulty) {
            bool src = r.chance(0.6);
            if (src)
                fault_src(l, id, c.k);
            if (src && r.chance(0.3))
                fault_src(l, id, c.k, "x");
            if (!src || r.chance(0.2))
                fault_sink(l, id, n_out);
        }
    };
    auto get = [&](int id, bool faulty) {
        Line& l = s.add("get");
        l.set("c", (int64_t)r.below(nc)).set("obj", id);
        std::string rt = faulty && c.vertical_ok() ? (c.horizontal_ok() && r.chance(0.4) ? "h" : "v")
                                                   : route_for(r, c);
        l.set("route", rt);
        if (rt == "b" && r.chance(0.3))
            l.set("atend", 0);
        if (rt != "b")
            gen_delivery(r, l);
        place(l);
        if (r.chance(0.15))
            l.set("shuffle", (int64_t)(1 + r.below(1000)));
        // partition: hide nodes, mostly down to the threshold
        int hide = 0;
        double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        double ptf = profile == "toofew" ? 0.5 : 0.08;
        if (z < ptf)
            hide = c.m + 1 + (int)r.below(c.k);
        else if (z < 0.75)
            hide = c.m;
        else
            hide = (int)r.below(c.m + 1);
        std::vector<int> v;
        if (hide) {
            std::string t;
            if (r.chance(0.2)) { // consecutive
                int st = (int)r.below(n_nodes);
                for (int i = 0; i < hide; ++i)
                    v.push_back((st + i) % n_nodes);
                t = list_text(v);
            } else
                t = gen_list(r, n_nodes, hide);
            l.set("avoid", t);
        }
        if (r.chance(0.25))
            l.set("nowant", gen_list(r, c.k, 1 + (int)r.below(c.k)));
        if (faulty) {
            bool src = r.chance(0.6);
            if (src)
                fault_src(l, id, n_nodes);
            if (src && r.chance(0.3))
                fault_src(l, id, n_nodes, "x");
            if (!src || r.chance(0.2))
                fault_sink(l, id, c.k);
        }
    };
    bool faults = profile == "fault";
    for (int i = 0; i < no; ++i) {
        if (faults && r.chance(0.5))
            put(i, true);
        put(i, false);
        if (lengthy && r.chance(0.5)) { // again, with the same instance
            put(i, false);
            size_t n = s.lines.size();
            s.lines[n - 1].set("c", s.lines[n - 2].num("c"));
        }
    }
    int steps = heavy || lengthy ? 3 : (profile == "reuse" || profile == "repair" ? 8 + (int)r.below(16) : 4 + (int)r.below(8));
    if (g_deep && !heavy && !lengthy)
        steps *= 3;
    else if (!heavy && !lengthy && r.chance(0.01))
        steps += 30 + (int)r.below(200); // a long history
    for (int i = 0; i < steps; ++i) {
        int id = (int)r.below(no);
        if (nt && r.chance(0.5)) {
            int t = (int)r.below(nt);
            Line& l = s.add("other");
            gen_op(r, l, ten[t], 0, 0.1);
            l.set("t", t).set("words", (int64_t)gen_words(r, ten[t], 200)).set(
                "seed", (int64_t)r.below(100000)).set("pat", gen_pat(r));
            if (r.chance(0.2))
                l.set("renew", 1);
            for (size_t j = s.lines.size() - 1; j-- > 0 && l.num("dec");)
                if (s.lines[j].has("avoid") && r.chance(0.6)) {
                    l.set("lose", s.lines[j].str("avoid"));
                    break;
                }
        }
        double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        if (profile == "repair")
            z = z < 0.25 ? 0.3 : (z < 0.5 ? 0.6 : (z < 0.93 ? 0.7 : z));
        if (z < 0.55)
            get(id, faults && r.chance(0.6));
        else if (z < 0.65) {
            Line& l = s.add(r.chance(0.5) ? "lose" : "crash");
            l.set("node", (int64_t)r.below(n_nodes));
            if (l.verb == "lose")
                l.set("obj", id);
        } else if (z < 0.80) {
            Line& l = s.add("repair");
            l.set("c", (int64_t)r.below(nc)).set("obj", id);
            l.set("node", (int64_t)r.below(n_nodes)).set("route", route_for(r, c));
            if (r.chance(0.5))
                l.set("avoid", gen_list(r, n_nodes, (int)r.below(c.m)));
            if (r.chance(0.5))
                l.set("only", 1);
            place(l);
        } else if (z < 0.92)
            put(id, faults && r.chance(0.5));
        else if (profile != "reuse" && !slow)
            s.add("restart").set("c", (int64_t)r.below(nc));
    }
    return s;
}

} // namespace
World world_cluster()
{
    return World{"cluster", gen, exec};
}
} // namespace sim
