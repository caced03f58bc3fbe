// World "capi": fragments handled through the C interface, the way an object
// store embeds it: caller-owned blocks made of a header plus a payload, kept by
// nodes that crash, lose fragments and bring back torn or bit-flipped headers.
#include "util.h"
#include "quadiron_c.h"
#include <algorithm>

namespace sim {
namespace {

struct Node {
    bool present = false;
    Bytes bytes; // header + payload
    bool damaged = false;
};
struct Stored {
    Object o;
    size_t tail = 0;
    bool have = false;
    std::vector<Node> node;
    std::vector<Bytes> truth; // per node, empty when its marks do not fit
};

struct Exec {
    const Scenario& sc;
    CodeCfg base;
    const Model* md = nullptr;
    unsigned k, m, n_out, n_nodes;
    bool sys;
    QuadironFnt32* inst = nullptr;
    std::map<int, Stored> objs;
    int opno = 0;
    const char* verb = "";
    const Line* oom = nullptr; // memory pressure on the next C call
    bool starved = false;      // ... and an allocation of that call failed

    explicit Exec(const Scenario& s) : sc(s) {}
    void bad(const std::string& cls, const std::string& msg)
    {
        g_run->violate(cls, fmt("op %d %s: ", opno, verb) + msg + " | C API " + base.text());
    }
    int ccall(const std::function<int()>& f, Outcome& out)
    {
        int ret = -99;
        uint64_t before = g_alloc.failed;
        if (oom) {
            g_alloc.fail_at = g_alloc.count + (uint64_t)oom->num("at", 1);
            g_alloc.fail_for = (uint64_t)oom->num("for", 1);
            oom = nullptr;
        }
        out = call([&] {
            LibScope ls;
            ret = f();
            return true;
        });
        g_alloc.fail_at = 0;
        starved = g_alloc.failed != before;
        if (!out.returned)
            bad("abi", "an exception crossed the C interface: " + out.what);
        return ret;
    }
    bool open()
    {
        if (inst)
            return true;
        Outcome o;
        uint64_t live = g_alloc.live;
        auto make = [&] {
            inst = quadiron_fnt32_new(base.w, base.k, base.m, base.sys);
            return 0;
        };
        ccall(make, o);
        if (!inst && starved) {
            g_run->probe("c_call_out_of_memory");
            if (g_alloc.live != live)
                bad("leak", fmt("quadiron_fnt32_new that ran out of memory leaks %llu allocations",
                                (unsigned long long)(g_alloc.live - live)));
            ccall(make, o); // memory is back
        }
        if (!inst)
            bad("construct", "quadiron_fnt32_new failed");
        return inst != nullptr;
    }
    void close()
    {
        if (!inst)
            return;
        Outcome o;
        ccall([&] {
            quadiron_fnt32_delete(inst);
            return 0;
        }, o);
        inst = nullptr;
    }
    size_t block(const Stored& s) { return s.o.words * base.w; }
    // bytes that follow the last whole word; they are not encoded
    size_t tail(const Stored& s) { return s.tail; }
    size_t meta_of(const Stored& s) { return meta_size(block(s) + tail(s)); }

    // caller memory of one operation
    struct Mem {
        std::vector<Guarded> d, p;
        std::vector<uint8_t*> dp, pp;
        std::vector<Bytes> d0, p0; // contents before the call
        Guarded dtab, ptab, ints, ints2;
        static void fill(std::vector<Guarded>& g, std::vector<uint8_t*>& v, size_t i,
                         size_t n, bool at_end, uint64_t seed)
        {
            g[i] = Guarded(n, seed, at_end, 4);
            v[i] = g[i].p();
        }
    };
    // pointer and index arrays end at a page boundary too
    static Guarded tab(const std::vector<uint8_t*>& v)
    {
        Guarded g(v.size() * sizeof(uint8_t*), 1, true, 8);
        memcpy(g.p(), v.data(), v.size() * sizeof(uint8_t*));
        g.freeze(true);
        return g;
    }
    static Guarded tab(const std::vector<int>& v)
    {
        Guarded g(v.size() * sizeof(int), 1, true, 4);
        memcpy(g.p(), v.data(), v.size() * sizeof(int));
        g.freeze(true);
        return g;
    }
    void snapshot(Mem& x, size_t n)
    {
        x.d0.resize(x.dp.size());
        x.p0.resize(x.pp.size());
        for (size_t i = 0; i < x.dp.size(); ++i)
            if (x.dp[i])
                x.d0[i].assign(x.dp[i], x.dp[i] + n);
        for (size_t i = 0; i < x.pp.size(); ++i)
            if (x.pp[i])
                x.p0[i].assign(x.pp[i], x.pp[i] + n);
    }
    void check_slack(Mem& x)
    {
        for (size_t i = 0; i < x.d.size(); ++i)
            if (x.d[i].valid() && !x.d[i].slack_ok())
                bad("bounds", fmt("wrote outside data block %zu", i));
        for (size_t i = 0; i < x.p.size(); ++i)
            if (x.p[i].valid() && !x.p[i].slack_ok())
                bad("bounds", fmt("wrote outside parity block %zu", i));
    }
    bool same(const uint8_t* p, const Bytes& b, size_t from, size_t to)
    {
        return memcmp(p + from, b.data() + from, to - from) == 0;
    }

    // ------------------------------------------------------------ encode
    void enc(const Line& l)
    {
        auto it = objs.find((int)l.num("obj"));
        if (it == objs.end() || !open())
            return;
        Stored& s = it->second;
        size_t bs = block(s), meta = meta_of(s), n = bs + meta, nt = n + tail(s);
        std::vector<int> wanted(n_out, 1);
        for (int i : parse_list(l.str("unwant")))
            if (i >= 0 && i < (int)n_out)
                wanted[i] = 0;
        bool at_end = l.num("atend", 1) != 0;
        uint64_t fill = (uint64_t)l.num("fill", 1);
        Mem x;
        x.d.resize(k);
        x.dp.assign(k, nullptr);
        x.p.resize(n_out);
        x.pp.assign(n_out, nullptr);
        for (unsigned i = 0; i < k; ++i) {
            Mem::fill(x.d, x.dp, i, nt, at_end, fill * 1000 + i);
            memcpy(x.dp[i] + meta, s.o.data[i].data(), bs);
        }
        for (unsigned i = 0; i < m; ++i)
            if (wanted[sys ? i : k + i])
                Mem::fill(x.p, x.pp, i, nt, at_end, fill * 1000 + 500 + i);
        snapshot(x, nt);
        Guarded dt = tab(x.dp), pt = tab(x.pp), wt = tab(wanted);
        Outcome o;
        g_run->ev("c-encode", it->first, bs);
        int ret = ccall([&] {
            return quadiron_fnt32_encode(inst, (uint8_t**)dt.p(), (uint8_t**)pt.p(),
                                         (int*)wt.p(), nt - meta);
        }, o);
        check_slack(x);
        if (starved && (ret == -1 || !o.returned)) {
            g_run->probe("c_call_out_of_memory");
            starved = false;
            enc(l); // memory is back: the same call works
            return;
        }
        if (!o.returned)
            return;
        bool fits = true, unsure = false;
        for (unsigned i = 0; i < n_out; ++i)
            if (header(s.o.truth.marks[i], meta).empty()) {
                if (wanted[i])
                    fits = false;
                else
                    unsure = true;
            }
        g_run->ev("ret", (uint64_t)ret);
        if (!fits || (unsure && ret == -1)) {
            g_run->probe("encode_header_overflow");
            if (ret == 0)
                bad("life", "encode succeeded although the marks do not fit the header");
            if (sys)
                for (unsigned i = 0; i < k; ++i)
                    if (!same(x.dp[i], x.d0[i], meta, nt))
                        bad("life", fmt("a refused encode changed data %u", i));
            return;
        }
        if (ret != 0) {
            bad("cencode", fmt("encode returned %d", ret));
            return;
        }
        s.have = true;
        s.node.assign(n_nodes, Node());
        if (sys)
            for (unsigned i = 0; i < k; ++i)
                if (!same(x.dp[i], x.d0[i], meta, nt))
                    bad("life", fmt("encode changed the payload of data %u", i));
        for (unsigned nd = 0; nd < n_nodes; ++nd) {
            uint8_t* p = nd < k ? x.dp[nd] : x.pp[nd - k];
            bool out = sys ? nd < k || wanted[nd - k] : wanted[nd] != 0;
            if (!out) {
                if (nd < k && !same(p, x.d0[nd], meta, nt))
                    bad("bounds", fmt("encode wrote fragment %u, which is not wanted", nd));
                continue;
            }
            Bytes got(p, p + n);
            g_run->ev("cfrag", nd, hash_bytes(got));
            if (got != s.truth[nd])
                bad("cencode", fmt("encoded fragment %u (header %zu bytes): ", nd, meta)
                                + diff_desc(s.truth[nd], got));
            s.node[nd].present = true;
            s.node[nd].bytes = got;
        }
    }
    // which fragments an operation may use
    bool pick(Stored& s, const Line& l, std::vector<bool>& use, unsigned& avail)
    {
        if (!s.have)
            return false;
        use.assign(n_nodes, false);
        for (unsigned i = 0; i < n_nodes; ++i)
            use[i] = s.node[i].present;
        for (int i : parse_list(l.str("avoid")))
            if (i >= 0 && i < (int)n_nodes)
                use[i] = false;
        avail = 0;
        for (unsigned i = 0; i < n_nodes; ++i)
            avail += use[i];
        return true;
    }
    // damage present in the fragments used: words it may affect
    void damage(Stored& s, const std::vector<bool>& use, size_t meta, bool& malformed,
                std::set<size_t>& words)
    {
        malformed = false;
        for (unsigned i = 0; i < n_nodes; ++i)
            if (use[i] && s.node[i].damaged && !(sys && i < k)) {
                g_run->probe("damaged_header_provided");
                std::set<size_t> a, b;
                if (!parse_header(s.node[i].bytes, meta, a)) {
                    g_run->probe("malformed_header_provided");
                    malformed = true;
                    continue;
                }
                parse_header(s.truth[i], meta, b);
                std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(),
                                              std::inserter(words, words.end()));
            }
    }
    // ------------------------------------------------------------ decode
    void dec(const Line& l)
    {
        auto it = objs.find((int)l.num("obj"));
        std::vector<bool> use;
        unsigned avail;
        if (it == objs.end() || !open() || !pick(it->second, l, use, avail))
            return;
        Stored& s = it->second;
        size_t bs = block(s), meta = meta_of(s), n = bs + meta, nt = n + tail(s);
        bool malformed;
        std::set<size_t> dmg;
        damage(s, use, meta, malformed, dmg);
        bool at_end = l.num("atend", 1) != 0;
        Mem x;
        x.d.resize(k);
        x.dp.assign(k, nullptr);
        x.p.resize(n_out);
        x.pp.assign(n_out, nullptr);
        std::vector<int> missing(n_nodes, 1);
        for (unsigned i = 0; i < k; ++i) {
            Mem::fill(x.d, x.dp, i, nt, at_end, 2000 + i);
            if (use[i])
                memcpy(x.dp[i], s.node[i].bytes.data(), n);
        }
        for (unsigned i = 0; i < m; ++i)
            if (use[k + i]) {
                Mem::fill(x.p, x.pp, i, nt, at_end, 3000 + i);
                memcpy(x.pp[i], s.node[k + i].bytes.data(), n);
                x.p[i].freeze(true);
            }
        for (unsigned i = 0; i < n_nodes; ++i)
            missing[i] = use[i] ? 0 : 1;
        snapshot(x, nt);
        Guarded dt = tab(x.dp), pt = tab(x.pp), mt = tab(missing);
        Outcome o;
        g_run->ev("c-decode", it->first, avail);
        int ret = ccall([&] {
            return quadiron_fnt32_decode(inst, (uint8_t**)dt.p(), (uint8_t**)pt.p(),
                                         (int*)mt.p(), nt - meta);
        }, o);
        check_slack(x);
        g_run->ev("ret", (uint64_t)ret);
        if (avail < k)
            g_run->probe("decode_below_threshold");
        if (starved && (ret == -1 || !o.returned)) {
            g_run->probe("c_call_out_of_memory");
            starved = false;
            dec(l);
            return;
        }
        if (!o.returned)
            return;
        if (ret != 0 && ret != -1)
            bad("life", fmt("decode returned %d", ret));
        if (ret == -1) {
            for (unsigned i = 0; i < k; ++i)
                if (!same(x.dp[i], x.d0[i], 0, nt))
                    bad(avail < k ? "toofew" : "corrupt",
                        fmt("a failed decode changed data block %u", i));
            if (avail >= k && !malformed)
                bad(dmg.empty() ? "cdecode" : "corrupt",
                    fmt("decode refused although %u of %u fragments are provided", avail, k));
            return;
        }
        if (malformed) {
            bad("corrupt", "decode succeeded with a malformed header among the fragments");
            return;
        }
        if (avail < k) {
            bad("toofew", fmt("decode succeeded with %u of %u fragments", avail, k));
            return;
        }
        const char* cls = dmg.empty() && !malformed ? "life" : "corrupt";
        Bytes nul = header(Marks(), meta);
        for (unsigned i = 0; i < k; ++i) {
            Bytes got(x.dp[i], x.dp[i] + n);
            g_run->ev("cdata", i, hash_bytes(got));
            if (!std::equal(nul.begin(), nul.end(), got.begin()))
                bad(cls, fmt("header of decoded data %u: ", i)
                             + diff_desc(nul, Bytes(got.begin(), got.begin() + meta)));
            Bytes want = s.o.data[i], have(got.begin() + meta, got.end());
            for (size_t wd : dmg)
                for (int b = 0; b < base.w; ++b)
                    if (wd * base.w + b < bs)
                        have[wd * base.w + b] = want[wd * base.w + b];
            if (have != want)
                bad(*cls == 'l' ? "cdecode" : cls,
                    fmt("decoded data %u: ", i) + diff_desc(want, have));
        }
    }
    // ------------------------------------------------------------ reconstruct
    void rec(const Line& l)
    {
        auto it = objs.find((int)l.num("obj"));
        std::vector<bool> use;
        unsigned avail;
        unsigned dst = (unsigned)l.num("node");
        if (it == objs.end() || dst >= n_nodes || !open() || !pick(it->second, l, use, avail))
            return;
        Stored& s = it->second;
        if (s.truth[dst].empty())
            return;
        avail -= use[dst];
        use[dst] = false;
        size_t bs = block(s), meta = meta_of(s), n = bs + meta, nt = n + tail(s);
        bool malformed;
        std::set<size_t> dmg;
        damage(s, use, meta, malformed, dmg);
        bool at_end = l.num("atend", 1) != 0;
        Mem x;
        x.d.resize(k);
        x.dp.assign(k, nullptr);
        x.p.resize(m);
        x.pp.assign(m, nullptr);
        std::vector<int> missing(n_nodes, 1);
        for (unsigned nd = 0; nd < n_nodes; ++nd) {
            if (!use[nd] && nd != dst)
                continue;
            auto& g = nd < k ? x.d : x.p;
            auto& v = nd < k ? x.dp : x.pp;
            size_t i = nd < k ? nd : nd - k;
            Mem::fill(g, v, i, nt, at_end, 4000 + nd + 100 * l.num("fill"));
            if (use[nd]) {
                memcpy(v[i], s.node[nd].bytes.data(), n);
                g[i].freeze(true);
                missing[nd] = 0;
            }
        }
        snapshot(x, nt);
        Guarded dt = tab(x.dp), pt = tab(x.pp), mt = tab(missing);
        Outcome o;
        g_run->ev("c-reconstruct", it->first, dst, avail);
        int ret = ccall([&] {
            return quadiron_fnt32_reconstruct(inst, (uint8_t**)dt.p(), (uint8_t**)pt.p(),
                                              (int*)mt.p(), dst, nt - meta);
        }, o);
        check_slack(x);
        g_run->ev("ret", (uint64_t)ret);
        if (starved && (ret == -1 || !o.returned)) {
            g_run->probe("c_call_out_of_memory");
            starved = false;
            rec(l);
            return;
        }
        if (!o.returned)
            return;
        if (ret != 0 && ret != -1)
            bad("life", fmt("reconstruct returned %d", ret));
        uint8_t* dp = dst < k ? x.dp[dst] : x.pp[dst - k];
        const Bytes& d0 = dst < k ? x.d0[dst] : x.p0[dst - k];
        bool clear = sys && dst >= k;
        for (unsigned i = 0; i < k && clear; ++i)
            clear = use[i];
        if (ret == -1) {
            if (avail >= k && !malformed && dmg.empty())
                bad("crebuild", fmt("reconstruct of %u refused although %u of %u fragments are "
                                "provided", dst, avail, k));
            if ((avail < k || malformed) && !same(dp, d0, 0, nt))
                bad(avail < k ? "toofew" : "corrupt", fmt("a failed reconstruct changed block %u", dst));
            return;
        }
        if (malformed) {
            bad("corrupt", "reconstruct succeeded with a malformed header among the fragments");
            return;
        }
        if (avail < k) {
            bad("toofew", fmt("reconstruct succeeded with %u of %u fragments", avail, k));
            return;
        }
        g_run->probe("fragment_reconstructed");
        Bytes got(dp, dp + n), want = s.truth[dst];
        g_run->ev("cfrag", dst, hash_bytes(got));
        if (dmg.empty() && !malformed) {
            if (got != want)
                bad("crebuild", fmt("reconstructed fragment %u (header %zu bytes): ", dst, meta)
                                + diff_desc(want, got));
        } else {
            for (size_t wd : dmg)
                for (int b = 0; b < base.w; ++b)
                    if (wd * base.w + b < bs)
                        got[meta + wd * base.w + b] = want[meta + wd * base.w + b];
            if (!std::equal(got.begin() + meta, got.end(), want.begin() + meta))
                bad("corrupt", fmt("reconstructed fragment %u, words whose marks are intact: ", dst)
                                   + diff_desc(Bytes(want.begin() + meta, want.end()),
                                               Bytes(got.begin() + meta, got.end())));
            return; // not stored back
        }
        s.node[dst].present = true;
        s.node[dst].damaged = false;
        s.node[dst].bytes = Bytes(dp, dp + n);
    }
    // ------------------------------------------------------------ node faults
    void corrupt(const Line& l)
    {
        auto it = objs.find((int)l.num("obj"));
        unsigned nd = (unsigned)l.num("node");
        if (it == objs.end() || nd >= it->second.node.size() || !it->second.node[nd].present)
            return;
        Stored& s = it->second;
        Bytes& b = s.node[nd].bytes;
        size_t meta = meta_of(s);
        std::string how = l.str("how", "xor");
        uint64_t v = (uint64_t)l.num("val");
        size_t dw = (size_t)l.num("dword") % (meta / 4);
        if (how == "xor")
            c_put_be(&b[dw * 4], c_be(&b[dw * 4]) ^ (uint32_t)v);
        else if (how == "set")
            c_put_be(&b[dw * 4], (uint32_t)v);
        else if (how == "torn") { // only the first bytes of the header are new
            size_t at = (size_t)l.num("at") % meta;
            Rng r(v);
            for (size_t i = at; i < meta; ++i)
                b[i] = v == 0 ? 0 : v == 1 ? 0xff : (uint8_t)r.next();
        } else if (how == "reorder" || how == "dup") {
            // the same marks, in another order or some of them twice
            std::vector<uint32_t> mk;
            size_t cnt = c_be(&b[4]), room = meta / 4 - 2;
            for (size_t i = 0; i < cnt && cnt <= room; ++i)
                mk.push_back(c_be(&b[8 + 4 * i]));
            Rng r(v);
            if (how == "dup")
                while (!mk.empty() && mk.size() < room && !r.chance(0.3))
                    mk.push_back(mk[r.below(mk.size())]);
            for (size_t i = mk.size(); i > 1 && (how == "reorder" || r.chance(0.5)); --i)
                std::swap(mk[i - 1], mk[r.below(i)]);
            for (size_t i = 0; i < mk.size(); ++i)
                c_put_be(&b[8 + 4 * i], mk[i]);
            if (!mk.empty())
                c_put_be(&b[4], (uint32_t)mk.size());
        } else if (how == "swap") { // header of another fragment or object
            auto o = objs.find((int)v);
            unsigned nd2 = (unsigned)l.num("with");
            if (o != objs.end() && nd2 < o->second.node.size()
                && o->second.node[nd2].present
                && meta_of(o->second) == meta)
                std::copy_n(o->second.node[nd2].bytes.begin(), meta, b.begin());
        }
        if (b != s.truth[nd]) {
            s.node[nd].damaged = true;
            g_run->fault(how == "torn" ? "header_torn"
                         : how == "swap" ? "header_misdirected"
                         : how == "reorder" || how == "dup" ? "header_marks_reordered"
                                                            : "header_bit_damage");
        }
        g_run->ev("corrupt", nd, hash_bytes(b));
    }

    void run()
    {
        const Line* cl = sc.first("code");
        if (!cl)
            return;
        base = CodeCfg::from(*cl);
        base.kind = "fnt";
        base.tb = 32;
        base.pkt = 1024;
        if (!in_domain(base))
            return;
        md = &model_for(base);
        k = md->k;
        m = md->m;
        n_out = md->n_out;
        sys = base.sys;
        n_nodes = k + m;
        for (auto& l : sc.lines) {
            ++opno;
            verb = l.verb.c_str();
            if (l.verb == "oom")
                oom = &l;
            else if (l.verb == "heap") {
                g_alloc.fill = (uint8_t)l.num("fill", 0xA5);
                g_alloc.fill_random = l.num("random") != 0;
            } else if (l.verb == "obj") {
                Stored s;
                s.o = build_object(sc, *md, l);
                s.tail = (size_t)l.num("tail") % (size_t)base.w;
                size_t meta = meta_of(s);
                for (unsigned nd = 0; nd < n_nodes; ++nd) {
                    Bytes f;
                    if (sys && nd < k) {
                        f = header(Marks(), meta);
                        f.insert(f.end(), s.o.data[nd].begin(), s.o.data[nd].end());
                    } else {
                        unsigned i = sys ? nd - k : nd;
                        f = header(s.o.truth.marks[i], meta);
                        if (!f.empty())
                            f.insert(f.end(), s.o.truth.frag[i].begin(), s.o.truth.frag[i].end());
                        if (!s.o.truth.marks[i].empty())
                            g_run->probe("fragment_with_marks");
                    }
                    s.truth.push_back(f);
                }
                objs[s.o.id] = std::move(s);
            } else if (l.verb == "put")
                enc(l);
            else if (l.verb == "get")
                dec(l);
            else if (l.verb == "rebuild")
                rec(l);
            else if (l.verb == "corrupt")
                corrupt(l);
            else if (l.verb == "restart") {
                close();
                g_run->fault("client_restart");
            } else if (l.verb == "lose" || l.verb == "crash") {
                unsigned nd = (unsigned)l.num("node");
                for (auto& p : objs)
                    if (!l.has("obj") || l.num("obj") == p.first)
                        if (nd < p.second.node.size() && p.second.node[nd].present) {
                            p.second.node[nd] = Node();
                            g_run->fault(l.verb == "crash" ? "node_crash" : "fragment_lost");
                        }
            }
        }
        close();
        if (g_alloc.live)
            bad("leak", fmt("%llu allocations (%llu bytes) survive quadiron_fnt32_delete",
                            (unsigned long long)g_alloc.live,
                            (unsigned long long)g_alloc.live_bytes));
    }
};

void exec(const Scenario& s)
{
    Exec e(s);
    e.run();
}

// profiles: life | contain | corrupt | oom
Scenario gen(uint64_t seed, const std::string& profile)
{
    Rng r(seed);
    Scenario s;
    CodeCfg c;
    c.kind = "fnt";
    c.tb = 32;
    c.pkt = 1024;
    c.w = r.chance(0.3) ? 1 : 2;
    c.sys = r.chance(0.5);
    do {
        if (r.chance(g_deep ? 0.7 : 0.93)) {
            c.k = 1 + (int)r.below(r.chance(0.5) ? 4 : 9);
            c.m = 1 + (int)r.below(r.chance(0.5) ? 4 : 9);
        } else {
            // many fragments; sometimes more than a machine word of flags
            int top = r.chance(0.3) ? 250 : 40;
            c.k = 1 + (int)r.below(top);
            c.m = 1 + (int)r.below(r.chance(0.5) ? top : 4);
        }
    } while (!in_domain(c));
    c.to(s.add("code"));
    if (r.chance(0.5)) {
        static const int f[] = {0, 0xff, 0x01, 0x80, 0xa5};
        s.add("heap").set("fill", f[r.below(5)]).set("random", r.chance(0.3));
    }
    unsigned n_out = c.sys ? c.m : c.k + c.m;
    unsigned nn = c.k + c.m;
    int no = 1 + (int)r.below(3);
    for (int i = 0; i < no; ++i) {
        size_t w;
        switch (r.below(10)) {
        case 0:
            w = 1;
            break;
        case 1:
            w = 1023 + r.below(3);
            break;
        case 2:
            w = 1024 * (1 + r.below(g_deep ? 40 : 3)) + r.range(-1, 1) * (int)r.below(9);
            break;
        case 3:
            w = 1 + r.below(g_deep ? 60000 : 3000);
            break;
        default:
            w = 1 + r.below(c.w == 1 ? 200 : 600);
        }
        size_t cap = (g_deep ? 20 : 1) * 400000 / ((size_t)c.k * n_out) + 1;
        if (w > cap)
            w = 1 + r.below(cap);
        if (r.chance(g_deep ? 0.05 : 0.005) && c.k + c.m < 7)
            w = (65536 + r.below(3) - 1) / c.w + r.below(2); // header grows here
        if (r.chance(0.01))
            w = 0; // an empty object
        s.add("obj").set("id", i).set("words", (int64_t)w).set("seed", (int64_t)r.below(100000)).set(
            "pat", c.w == 1 && w > 300 ? "sparse" : gen_pat(r));
        if (c.w > 1 && r.chance(profile == "contain" ? 0.3 : 0.05))
            s.lines.back().set("tail", 1);
        if (w && r.chance(0.85)) {
            Scenario t;
            gen_crafts(r, t, c, i, w, 1 + (int)r.below(r.chance(0.15) ? 40 : 8));
            for (auto& l : t.lines) {
                if (r.chance(0.3)) // cluster the marks on one fragment
                    l.set("frags", "0");
                s.lines.push_back(l);
            }
        }
    }
    auto flags = [&](Line& l) {
        if (r.chance(0.3))
            l.set("atend", 0);
        if (r.chance(0.5))
            l.set("fill", (int64_t)r.below(10));
    };
    auto oom = [&](double p) {
        if (profile != "oom" || !r.chance(p))
            return;
        Line& l = s.add("oom");
        l.set("at", (int64_t)(1 + r.below(r.chance(0.6) ? 20 : 200)));
        if (r.chance(0.4))
            l.set("for", (int64_t)(r.chance(0.5) ? 1 + r.below(4) : 1000000));
    };
    auto put = [&](int id) {
        oom(0.7);
        Line& l = s.add("put");
        l.set("obj", id);
        if (n_out > 1 && r.chance(profile == "contain" ? 0.4 : 0.15))
            l.set("unwant", gen_list(r, n_out, 1 + (int)r.below(n_out - 1)));
        flags(l);
    };
    auto avoid = [&](Line& l, double pfew) {
        int hide;
        if (r.chance(pfew))
            hide = c.m + 1 + (int)r.below(c.k);
        else if (r.chance(0.6))
            hide = c.m;
        else
            hide = (int)r.below(c.m + 1);
        if (l.verb == "rebuild" && hide > 0)
            --hide;
        if (hide)
            l.set("avoid", gen_list(r, nn, hide));
        flags(l);
    };
    for (int i = 0; i < no; ++i)
        put(i);
    int steps = 3 + (int)r.below(g_deep ? 40 : 10);
    for (int i = 0; i < steps; ++i) {
        int id = (int)r.below(no);
        if (profile == "oom" && r.chance(0.2))
            s.add("restart");
        oom(0.7);
        double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        if (profile == "corrupt" && z < 0.45) {
            int cnt = 1 + (int)r.below(2);
            for (int q = 0; q < cnt; ++q) {
                Line& l = s.add("corrupt");
                l.set("obj", id).set("node", (int64_t)r.below(nn));
                switch (r.below(10)) {
                case 0: // magic
                    l.set("how", "xor").set("dword", 0).set("val", (int64_t)1 << r.below(32));
                    break;
                case 1: // count
                    l.set("how", "xor").set("dword", 1).set("val", (int64_t)1 << r.below(32));
                    break;
                case 2: {
                    static const int64_t v[] = {0xffffffff, 0xfffffffe, 0xfffffffd, 0x80000000,
                                                0x7fffffff, 0x3fffffff, 0x40000000, 13, 14, 15,
                                                16, 17, 0, 1, 2};
                    l.set("how", "set").set("dword", 1).set("val", v[r.below(15)]);
                    break;
                }
                case 3: { // an offset
                    static const int64_t v[] = {0xffffffff, 0x80000000, 0x7fffffff, 1023, 1024, 0};
                    l.set("how", "set").set("dword", (int64_t)(2 + r.below(14))).set("val", v[r.below(6)]);
                    break;
                }
                case 4:
                    l.set("how", "xor").set("dword", (int64_t)(2 + r.below(6))).set(
                        "val", (int64_t)1 << r.below(32));
                    break;
                case 5:
                    l.set("how", "reorder").set("val", (int64_t)r.below(1000));
                    break;
                case 6:
                    l.set("how", "dup").set("val", (int64_t)r.below(1000));
                    break;
                case 7:
                case 8:
                    l.set("how", "torn").set("at", (int64_t)r.below(64)).set("val", (int64_t)r.below(6));
                    break;
                default:
                    l.set("how", "swap").set("val", (int64_t)r.below(no)).set("with", (int64_t)r.below(nn));
                }
            }
            Line& g = s.add(r.chance(0.7) ? "get" : "rebuild");
            g.set("obj", id);
            if (g.verb == "rebuild")
                g.set("node", (int64_t)r.below(nn));
            avoid(g, 0.05);
        } else if (profile == "life" && c.sys && z < 0.04) {
            // the header of a data fragment carries nothing: a decode repairs it
            Line& l = s.add("corrupt");
            l.set("obj", id).set("node", (int64_t)r.below(c.k));
            if (r.chance(0.5))
                l.set("how", "torn").set("at", (int64_t)r.below(64)).set("val", (int64_t)r.below(6));
            else
                l.set("how", "xor").set("dword", (int64_t)r.below(4)).set("val", (int64_t)1 << r.below(32));
            s.add("get").set("obj", id);
        } else if (z < 0.35) {
            Line& g = s.add("get");
            g.set("obj", id);
            avoid(g, 0.1);
        } else if (z < 0.75) {
            Line& g = s.add("rebuild");
            g.set("obj", id).set("node", (int64_t)r.below(nn));
            avoid(g, 0.05);
        } else if (z < 0.87) {
            Line& g = s.add(r.chance(0.5) ? "lose" : "crash");
            g.set("node", (int64_t)r.below(nn));
            if (g.verb == "lose")
                g.set("obj", id);
        } else if (z < 0.95)
            put(id);
        else
            s.add("restart");
    }
    return s;
}

} // namespace
World world_capi()
{
    return World{"capi", gen, exec};
}
} // namespace sim
