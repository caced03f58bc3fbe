// Worlds built from plain operations on instances:
//   conc   several tasks, each with its own instances, preempted anywhere
//   alloc  the n-th allocation of an operation fails
//   clock  the clock advances and steps at its readings
//   mem    heap use of streams of growing length
#include "ops.h"
#include <algorithm>

namespace sim {
namespace {

void heap_line(const Scenario& s)
{
    if (const Line* h = s.first("heap")) {
        g_alloc.fill = (uint8_t)h->num("fill", 0xA5);
        g_alloc.fill_random = h->num("random") != 0;
    }
}
void gen_heap(Rng& r, Scenario& s)
{
    static const int f[] = {0, 0xff, 0x01, 0x80, 0xa5};
    s.add("heap").set("fill", f[r.below(5)]).set("random", r.chance(0.3));
}
void gen_obj(Rng& r, Scenario& s, const CodeCfg& c, int id, size_t cap, double pcraft)
{
    size_t w = gen_words(r, c, cap);
    s.add("obj").set("id", id).set("words", (int64_t)w).set("seed", (int64_t)r.below(100000)).set(
        "pat", gen_pat(r));
    if (r.chance(pcraft))
        gen_crafts(r, s, c, id, w, 1 + (int)r.below(4));
}

// ================================================================ conc
void exec_conc(const Scenario& sc)
{
    struct TaskSt {
        CodeCfg cfg;
        const Model* md = nullptr;
        std::map<int, Object> objs;
        std::vector<const Line*> prog;
        std::unique_ptr<ICode> code;
    };
    std::map<int, TaskSt> ts;
    heap_line(sc);
    for (auto& l : sc.lines) {
        if (l.verb == "task") {
            TaskSt t;
            t.cfg = CodeCfg::from(l);
            if (!in_domain(t.cfg))
                continue;
            t.md = &model_for(t.cfg);
            ts[(int)l.num("id")] = std::move(t);
        } else if (l.verb == "obj" || l.verb == "op" || l.verb == "reopen") {
            auto it = ts.find((int)l.num("task"));
            if (it == ts.end())
                continue;
            if (l.verb == "obj") {
                Object o = build_object(sc, *it->second.md, l);
                it->second.objs[o.id] = std::move(o);
            } else
                it->second.prog.push_back(&l);
        }
    }
    if (ts.empty())
        return;
    std::vector<Sched::Preempt> pre;
    uint64_t at = 0;
    for (auto& l : sc.lines)
        if (l.verb == "preempt") {
            at += (uint64_t)l.num("after", 1);
            pre.push_back(Sched::Preempt{at, (int)l.num("to")});
        }
    std::vector<Sched::Preempt> bpre;
    at = 0;
    for (auto& l : sc.lines)
        if (l.verb == "bpreempt") {
            at += (uint64_t)l.num("after", 1);
            bpre.push_back(Sched::Preempt{at, (int)l.num("to")});
        }
    std::vector<Sched::Preempt> spre;
    at = 0;
    for (auto& l : sc.lines)
        if (l.verb == "spreempt") {
            at += (uint64_t)l.num("after", 1);
            spre.push_back(Sched::Preempt{at, (int)l.num("to")});
        }
    for (auto& p : ts) {
        TaskSt* t = &p.second;
        int id = p.first;
        g_sched.add([t, id] {
            Outcome o;
            t->code = op_open(t->cfg, o);
            if (!t->code) {
                g_run->violate("conc", fmt("task %d cannot create its code: ", id) + o.what);
                return;
            }
            for (const Line* l : t->prog) {
                if (l->verb == "reopen") {
                    t->code.reset();
                    t->code = op_open(t->cfg, o);
                    if (!t->code) {
                        g_run->violate("conc", fmt("task %d cannot create its code: ", id) + o.what);
                        return;
                    }
                    continue;
                }
                auto it = t->objs.find((int)l->num("obj"));
                if (it == t->objs.end() || !storable(t->cfg, it->second))
                    continue;
                Op op = op_from(*l, *t->md, t->cfg, it->second);
                OpResult r = op_run(*t->code, *t->md, op);
                std::string e = op_judge(*t->md, op, r);
                if (!e.empty())
                    g_run->violate("conc", fmt("task %d (", id) + t->cfg.text() + ") " + l->text()
                                               + ": " + e);
            }
            t->code.reset();
        });
    }
    g_sched.set_preempts(pre);
    g_sched.set_block_preempts(bpre);
    g_sched.set_shared_preempts(spre);
    g_sched.run();
    if (g_sched.fired())
        g_run->probe("interleaved_run");
    g_run->ev("early_visits", g_sched.early_visits(), g_sched.shared_accesses());
    if (g_sched.shared_accesses())
        g_run->probe("shared_accesses", g_sched.shared_accesses());
    if (g_alloc.live)
        g_run->violate("leak", fmt("%llu allocations survive", (unsigned long long)g_alloc.live));
}
Scenario gen_conc(uint64_t seed, const std::string& prof)
{
    Rng r(seed);
    // fresh: the batch gives each run a process of its own
    const std::string profile =
        prof != "fresh" ? prof : r.chance(0.5) ? "share" : "init";
    Scenario s;
    gen_heap(r, s);
    // share: tasks that most likely touch the same static state, little work,
    // preempted where memory is shared
    const bool share = profile == "share";
    int nt = 2 + (int)r.below(r.chance(share ? 0.1 : 0.3) ? 3 : 1);
    CodeCfg first;
    for (int t = 0; t < nt; ++t) {
        CodeCfg c;
        if (t && r.chance(share ? 0.9 : 0.6)) {
            c = first; // same code (or a sibling) in another thread
            if (r.chance(0.4)) {
                CodeCfg d = gen_sibling(r, first);
                if (in_domain(d))
                    c = d;
            } else if (r.chance(0.5)) {
                CodeCfg d = first; // same field, other shape
                d.k = 1 + (int)r.below(5);
                d.m = 1 + (int)r.below(4);
                if (in_domain(d))
                    c = d;
            }
        } else {
            GenOpt o;
            o.small = true;
            o.capi = share || r.chance(0.2); // its packets are long
            c = gen_code(r, o);
            // wide fields take millions of steps to construct
            while (c.kind == "nf4" && c.w > 2 && !r.chance(0.02))
                c = gen_code(r, o);
            for (int q = 0; share && q < 8 && (c.w > 2 || c.k + c.m > 12 || (c.w > 1 && c.kind != "nf4")); ++q)
                c = gen_code(r, o);
            if (share && r.chance(0.2)) { // through the C interface
                CodeCfg d = c;
                d.kind = "fnt";
                d.w = 1 + (int)r.below(2);
                d.tb = 32;
                d.pkt = 1024;
                d.sys = r.chance(0.5);
                d.capi = true;
                d.k = 1 + (int)r.below(3);
                d.m = 1 + (int)r.below(3);
                if (in_domain(d))
                    c = d;
            }
        }
        if (!t)
            first = c;
        Line& l = s.add("task");
        l.set("id", t);
        c.to(l);
        int no = 1 + (int)r.below(2);
        for (int i = 0; i < no; ++i) {
            Scenario tmp;
            gen_obj(r, tmp, c, t * 10 + i, profile == "init" || share ? 12 : 48, 0.5);
            for (auto& x : tmp.lines) {
                if (x.verb == "obj")
                    x.set("task", t);
                s.lines.push_back(x);
            }
        }
        int ops = profile == "init" ? (int)r.below(2) : 1 + (int)r.below(share ? 2 : 4);
        for (int i = 0; i < ops; ++i) {
            if (r.chance(profile == "init" ? 0.6 : 0.15))
                s.add("reopen").set("task", t);
            Line& o = s.add("op");
            o.set("task", t);
            gen_op(r, o, c, t * 10 + (int)r.below(no), 0.1);
            if (r.chance(0.3))
                o.set("chunk", (int64_t)(1 + r.below(16)));
            if (r.chance(0.15))
                o.set("delay", (int64_t)(1 + r.below(200)));
        }
    }
    // gaps between preemptions: from single steps to long runs
    int np = 1 + (int)r.below(r.chance(0.3) ? 400 : 60);
    int style = (int)r.below(4);
    // or placed at early visits of basic blocks: rarely executed code (tables
    // being built, first use) is interrupted as often as hot loops
    if (share || r.chance(0.5)) {
        // or placed at accesses to shared memory (no effect in builds that do
        // not see them)
        int ns = 1 + (int)r.below(r.chance(0.4) ? 60 : 6);
        uint64_t top = r.chance(0.5) ? 5 : r.chance(0.5) ? 60 : 2000;
        for (int i = 0; i < ns; ++i)
            s.add("spreempt").set("after", (int64_t)(1 + r.below(i ? top : top * 10)))
                .set("to", (int64_t)r.below(nt));
        if (share && r.chance(0.8))
            return s;
    }
    if (r.chance(0.5)) {
        int nb = 1 + (int)r.below(r.chance(0.3) ? 40 : 6);
        uint64_t top = r.chance(0.3) ? 20 : r.chance(0.5) ? 300 : 3000;
        for (int i = 0; i < nb; ++i)
            s.add("bpreempt").set("after", (int64_t)(1 + r.below(top)))
                .set("to", (int64_t)r.below(nt));
        if (r.chance(0.6))
            return s;
    }
    for (int i = 0; i < np; ++i) {
        uint64_t top = style == 0 ? 8 : style == 1 ? 200 : style == 2 ? 5000 : 100000;
        uint64_t gap = 1 + r.below(r.chance(0.3) ? 8 : r.chance(0.5) ? top : top * 4);
        s.add("preempt").set("after", (int64_t)gap).set("to", (int64_t)r.below(nt));
    }
    return s;
}

// ================================================================ alloc
struct Arm { // fails allocations of one call
    uint64_t before;
    explicit Arm(const Line& l) : before(g_alloc.failed)
    {
        if (l.num("at") > 0) {
            g_alloc.fail_at = g_alloc.count + (uint64_t)l.num("at");
            g_alloc.fail_for = (uint64_t)l.num("for", 1);
        }
    }
    bool done()
    {
        g_alloc.fail_at = 0;
        return g_alloc.failed != before;
    }
};
void exec_alloc(const Scenario& sc)
{
    const Line* cl = sc.first("code");
    if (!cl)
        return;
    CodeCfg cfg = CodeCfg::from(*cl);
    if (!in_domain(cfg))
        return;
    heap_line(sc);
    const Model& md = model_for(cfg);
    std::map<int, Object> objs;
    std::unique_ptr<ICode> code;
    Outcome o;
    int opno = 0;
    auto bad = [&](const char* cls, const std::string& m) {
        g_run->violate(cls, fmt("line %d: ", opno) + m + " | " + cfg.text());
    };
    auto open = [&](const Line& l) {
        code.reset();
        uint64_t live = g_alloc.live;
        Arm a(l);
        code = op_open(cfg, o);
        bool failed = a.done();
        g_run->ev("open", code != nullptr, failed);
        if (!code && failed) {
            g_run->probe("construction_failed");
            if (g_alloc.live != live)
                bad("leak", fmt("construction that ran out of memory leaks %llu allocations",
                                (unsigned long long)(g_alloc.live - live)));
        }
        if (!code && !failed)
            bad("alloc", "cannot create the code: " + o.what);
        if (!code) {
            code = op_open(cfg, o);
            if (!code)
                bad("alloc", "cannot create the code after memory is back: " + o.what);
        }
    };
    for (auto& l : sc.lines) {
        ++opno;
        if (l.verb == "obj") {
            Object ob = build_object(sc, md, l);
            objs[ob.id] = std::move(ob);
        } else if (l.verb == "open")
            open(l);
        else if (l.verb == "op") {
            auto it = objs.find((int)l.num("obj"));
            if (it == objs.end())
                continue;
            if (!code)
                open(Line("open"));
            if (!code)
                return;
            Op op = op_from(l, md, cfg, it->second);
            Arm a(l);
            OpResult r = op_run(*code, md, op);
            bool failed = a.done();
            std::string e = op_judge(md, op, r);
            if (failed) {
                g_run->probe(op.dec ? "decode_failed" : "encode_failed");
                bool reported = !r.out.returned || (op.dec && !r.out.ok);
                if (!reported && !e.empty())
                    bad("alloc", "reported as success although memory ran out: " + l.text() + ": "
                                     + e);
                if (!r.bounds.empty())
                    bad("bounds", r.bounds);
                // memory is back: the same instance works
                r = op_run(*code, md, op);
                e = op_judge(md, op, r);
                if (!e.empty())
                    bad("alloc", "after an operation that ran out of memory: " + l.text() + ": "
                                     + e);
            } else if (!e.empty())
                bad("alloc", l.text() + ": " + e);
        }
    }
    code.reset();
    if (g_alloc.live)
        bad("leak", fmt("%llu allocations (%llu bytes) survive the instance",
                        (unsigned long long)g_alloc.live, (unsigned long long)g_alloc.live_bytes));
}
void gen_at(Rng& r, Line& l, uint64_t top)
{
    uint64_t t = r.chance(0.5) ? 12 : r.chance(0.6) ? 80 : top;
    l.set("at", (int64_t)(1 + r.below(t)));
    if (r.chance(0.4))
        l.set("for", (int64_t)(r.chance(0.5) ? 1 + r.below(4) : 1000000));
}
Scenario gen_alloc(uint64_t seed, const std::string&)
{
    Rng r(seed);
    Scenario s;
    GenOpt g;
    g.small = r.chance(0.8);
    CodeCfg c = gen_code(r, g);
    c.to(s.add("code"));
    gen_heap(r, s);
    int no = 1 + (int)r.below(2);
    for (int i = 0; i < no; ++i)
        gen_obj(r, s, c, i, 60, 0.5);
    int n = 2 + (int)r.below(8);
    for (int i = 0; i < n; ++i) {
        if (r.chance(0.4)) {
            Line& l = s.add("open");
            if (r.chance(0.9))
                gen_at(r, l, 1000);
        } else {
            Line& l = s.add("op");
            gen_op(r, l, c, (int)r.below(no), 0.1);
            if (r.chance(0.85))
                gen_at(r, l, 600);
        }
    }
    return s;
}

// ================================================================ clock
void exec_clock(const Scenario& sc)
{
    const Line* cl = sc.first("code");
    if (!cl)
        return;
    CodeCfg cfg = CodeCfg::from(*cl);
    if (!in_domain(cfg))
        return;
    heap_line(sc);
    const Model& md = model_for(cfg);
    std::map<int, Object> objs;
    Outcome o;
    std::unique_ptr<ICode> code = op_open(cfg, o);
    if (!code)
        return;
    int opno = 0;
    // each operation that transforms anything starts its statistics afresh
    struct Side {
        uint64_t ops = 0, lo = 0, hi = 0;
        bool back = false, unknown = false;
    } enc, dec;
    auto bad = [&](const char* cls, const std::string& m) {
        g_run->violate(cls, fmt("line %d: ", opno) + m + " | " + cfg.text());
    };
    auto side = [&](const char* what, const Side& s, uint64_t ops, uint64_t usec) {
        if (s.unknown)
            return;
        if (ops != s.ops)
            bad("stats", fmt("%llu %s operations counted, %llu performed", (unsigned long long)ops,
                             what, (unsigned long long)s.ops));
        if (s.back)
            return;
        if (usec < s.lo || usec > s.hi)
            bad("stats", fmt("%s time is %llu us, the calls took between %llu and %llu us", what,
                             (unsigned long long)usec, (unsigned long long)s.lo,
                             (unsigned long long)s.hi));
    };
    for (auto& l : sc.lines) {
        ++opno;
        if (l.verb == "obj") {
            Object ob = build_object(sc, md, l);
            objs[ob.id] = std::move(ob);
        } else if (l.verb == "idle") {
            g_run->now_us += (uint64_t)l.num("us");
        } else if (l.verb == "step") {
            g_clock.skew += l.num("us");
            g_run->fault(l.num("us") < 0 ? "clock_step_back" : "clock_jump");
        } else if (l.verb == "reset") {
            {
                LibScope ls;
                code->reset_counters();
            }
            enc = Side();
            dec = Side();
            Counters c = code->counters();
            if (c.enc_ops || c.dec_ops || c.enc_usec || c.dec_usec)
                bad("stats", "statistics are not zero after a reset");
        } else if (l.verb == "op") {
            auto it = objs.find((int)l.num("obj"));
            if (it == objs.end())
                continue;
            Op op = op_from(l, md, cfg, it->second);
            Side& s = op.dec ? dec : enc;
            g_clock.per_call_us = (uint64_t)l.num("cost");
            std::string j = l.str("jumps"); // "3:-5000,9:700"
            g_clock.jumps.clear();
            int64_t fwd = 0;
            bool back = false;
            size_t p = 0;
            while (p < j.size()) {
                char* e = nullptr;
                uint64_t at = strtoull(j.c_str() + p, &e, 10);
                int64_t by = *e == ':' ? strtoll(e + 1, &e, 10) : 0;
                g_clock.jumps[g_clock.calls + at] = by;
                p = e - j.c_str();
                if (p < j.size() && j[p] == ',')
                    ++p;
                else
                    break;
            }
            uint64_t t0 = g_run->now_us, c0 = g_clock.calls;
            OpResult r = op_run(*code, md, op);
            for (auto& x : g_clock.jumps)
                if (x.first <= g_clock.calls) {
                    if (x.second < 0)
                        back = true;
                    else
                        fwd += x.second;
                }
            std::string e = op_judge(md, op, r);
            if (!e.empty())
                bad("clock", l.text() + ": " + e);
            uint64_t elapsed = g_run->now_us - t0 + (uint64_t)fwd;
            uint64_t readings = g_clock.calls - c0, pk = 0;
            bool clear = md.cfg.sys && op.dec;
            for (unsigned i = 0; i < md.k && clear; ++i)
                clear = op.use[i];
            if (!op.dec || (op.avail >= md.k && !clear))
                pk = op_packets(cfg, op);
            s = Side();
            s.unknown = pk == 0; // refused, or nothing to restore
            s.ops = pk;
            s.back = back;
            uint64_t cost = g_clock.per_call_us;
            // every transform lies between two readings of the clock; what
            // passes before the first reading cannot be seen
            s.lo = pk * cost;
            s.hi = readings ? elapsed - std::min(elapsed, cost) : 0;
            g_clock.jumps.clear();
            g_clock.per_call_us = 0;
        } else
            continue;
        Counters c = code->counters();
        side("encode", enc, c.enc_ops, c.enc_usec);
        side("decode", dec, c.dec_ops, c.dec_usec);
        g_run->ev("stats", c.enc_ops * 1000003 + c.dec_ops, c.enc_usec, c.dec_usec);
    }
}
Scenario gen_clock(uint64_t seed, const std::string&)
{
    Rng r(seed);
    Scenario s;
    GenOpt g;
    g.small = r.chance(0.8);
    CodeCfg c = gen_code(r, g);
    c.to(s.add("code"));
    int no = 1 + (int)r.below(2);
    for (int i = 0; i < no; ++i)
        gen_obj(r, s, c, i, 120, 0.3);
    int n = 3 + (int)r.below(9);
    for (int i = 0; i < n; ++i) {
        double z = (r.next() >> 11) * (1.0 / 9007199254740992.0);
        if (z < 0.1)
            s.add("reset");
        else if (z < 0.15)
            s.add("step").set("us", r.range(-4000000000ll, 4000000000ll));
        else if (z < 0.2)
            s.add("idle").set("us", (int64_t)r.below(100000000));
        else {
            Line& l = s.add("op");
            gen_op(r, l, c, (int)r.below(no), 0.1);
            // from nothing to transforms that take hours
            l.set("cost", (int64_t)(r.chance(0.1) ? 0 : r.chance(0.2) ? r.below(3000000)
                                    : r.chance(0.1) ? r.below(9000000000ull) : 1 + r.below(900)));
            if (r.chance(0.3))
                l.set("delay", (int64_t)(1 + r.below(300)));
            if (r.chance(0.4)) {
                std::string j;
                int nj = 1 + (int)r.below(3);
                bool back = r.chance(0.3);
                for (int q = 0; q < nj; ++q) {
                    int64_t by = (int64_t)(1 + r.below(r.chance(0.5) ? 3000 : r.chance(0.2) ? 400000000000000ull : 5000000000ull));
                    if (back && r.chance(0.6))
                        by = -by;
                    j += fmt("%s%d:%lld", q ? "," : "", 1 + (int)r.below(20), (long long)by);
                }
                l.set("jumps", j);
            }
        }
    }
    return s;
}

// ================================================================ mem
void exec_mem(const Scenario& sc)
{
    const Line* cl = sc.first("code");
    if (!cl)
        return;
    CodeCfg cfg = CodeCfg::from(*cl);
    if (!in_domain(cfg))
        return;
    heap_line(sc);
    const Model& md = model_for(cfg);
    std::map<int, Object> objs;
    Outcome o;
    int opno = 0;
    auto bad = [&](const std::string& m) {
        g_run->violate("memory", fmt("line %d: ", opno) + m + " | " + cfg.text());
    };
    std::unique_ptr<ICode> code;
    struct Base {
        bool have = false;
        uint64_t extra = 0, words = 0;
    };
    std::map<std::string, Base> peak; // operation kind -> allowance
    std::map<std::string, int64_t> held;
    for (auto& l : sc.lines) {
        ++opno;
        if (l.verb == "obj") {
            Object ob = build_object(sc, md, l);
            objs[ob.id] = std::move(ob);
        } else if (l.verb == "reopen") {
            code.reset();
            held.clear();
            if (g_alloc.live)
                bad(fmt("a destroyed instance holds %llu allocations (%llu bytes)",
                        (unsigned long long)g_alloc.live, (unsigned long long)g_alloc.live_bytes));
        } else if (l.verb == "op") {
            auto it = objs.find((int)l.num("obj"));
            if (it == objs.end() || !storable(cfg, it->second))
                continue;
            if (!code)
                code = op_open(cfg, o);
            if (!code)
                return;
            Op op = op_from(l, md, cfg, it->second);
            if (op.avail < md.k)
                continue;
            uint64_t live = g_alloc.live_bytes;
            g_alloc.peak = live;
            OpResult r = op_run(*code, md, op);
            // properties live in the caller's vectors and are released with
            // them before the operation ends
            uint64_t marks = 0;
            for (auto& m : it->second.truth.marks)
                marks += m.size();
            uint64_t extra = g_alloc.peak - live, after = g_alloc.live_bytes;
            g_run->ev("peak", extra, after, marks);
            g_run->probe("stream_measured");
            // what a stream of another length took, plus vectors of marks
            // growing by doubling, plus a little
            const uint64_t slack = 512 + marks * 160;
            std::string key = std::string(op.dec ? "dec" : "enc") + op.route
                              + (op.dec ? l.str("lose") + ":" + l.str("dst") : "");
            // (a stream shorter than one packet uses the same buffers)
            Base& b = peak[key];
            // (the C interface works on blocks, which may need temporary ones)
            if (!cfg.capi && b.have && it->second.words > b.words && extra > b.extra + slack)
                bad(fmt("%s of %zu words takes %llu bytes of heap, of %llu words %llu bytes",
                        key.c_str(), it->second.words, (unsigned long long)extra,
                        (unsigned long long)b.words, (unsigned long long)b.extra));
            if (!b.have || it->second.words < b.words) {
                b.have = true;
                b.words = it->second.words;
                b.extra = extra + marks * 160;
            }
            // what repetitions of one kind add, whatever others add, and
            // whichever fragments are lost
            std::string kind = std::string(op.dec ? "dec" : "enc") + op.route;
            auto h = held.find(kind);
            if (h == held.end())
                held[kind] = 0;
            else {
                h->second += (int64_t)after - (int64_t)live;
                if (h->second > 0)
                    bad(fmt("the instance holds %lld bytes more after repeating %s",
                            (long long)h->second, key.c_str()));
            }
        }
    }
    code.reset();
    if (g_alloc.live)
        bad(fmt("a destroyed instance holds %llu allocations (%llu bytes)",
                (unsigned long long)g_alloc.live, (unsigned long long)g_alloc.live_bytes));
}
Scenario gen_mem(uint64_t seed, const std::string&)
{
    Rng r(seed);
    Scenario s;
    GenOpt g;
    g.small = r.chance(0.8);
    g.capi = true;
    CodeCfg c = gen_code(r, g);
    if (c.pkt > 64 && !c.capi)
        c.pkt = 1 + (int)r.below(64);
    if (!in_domain(c))
        c.pkt = 8;
    c.to(s.add("code"));
    size_t w = 1 + r.below(3 * c.pkt);
    size_t cap = std::max<size_t>(40, (g_deep ? 20 : 1) * 60000 / ((size_t)c.k * (c.k + c.m) + 1));
    if (w > cap / 4)
        w = 1 + r.below(cap / 4);
    int no = 2 + (int)r.below(3);
    for (int i = 0; i < no; ++i) {
        s.add("obj").set("id", i).set("words", (int64_t)w).set("seed", (int64_t)r.below(100000)).set(
            "pat", r.chance(0.5) ? "zero" : gen_pat(r));
        if (r.chance(0.2))
            gen_crafts(r, s, c, i, w, 1 + (int)r.below(4));
        w = std::min(cap, w * (2 + r.below(9)));
    }
    std::vector<Line> kinds;
    int nk = 1 + (int)r.below(3);
    for (int i = 0; i < nk; ++i) {
        Line l("op");
        gen_op(r, l, c, 0, 0);
        kinds.push_back(l);
    }
    int n = 4 + (int)r.below(12);
    bool vary = r.chance(0.35); // other fragments are lost every time
    for (int i = 0; i < n; ++i) {
        if (r.chance(0.08)) {
            s.add("reopen");
            continue;
        }
        Line l = kinds[r.below(nk)];
        if (vary && l.num("dec")) {
            Line q("op");
            do {
                q = Line("op");
                gen_op(r, q, c, 0, 0);
            } while (!q.num("dec"));
            q.set("route", l.str("route"));
            l = q;
        }
        l.set("obj", (int64_t)(i < no ? i : r.below(no)));
        s.lines.push_back(l);
    }
    return s;
}

} // namespace
World world_conc()
{
    return World{"conc", gen_conc, exec_conc};
}
World world_alloc()
{
    return World{"alloc", gen_alloc, exec_alloc};
}
World world_clock()
{
    return World{"clock", gen_clock, exec_clock};
}
World world_mem()
{
    return World{"mem", gen_mem, exec_mem};
}
} // namespace sim
