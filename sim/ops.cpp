#include "ops.h"

namespace sim {

Op op_from(const Line& l, const Model& md, const CodeCfg& cf, const Object& o)
{
    Op op;
    op.dec = l.num("dec") != 0;
    op.route = l.str("route", "b");
    if (op.route == "h" && !cf.horizontal_ok())
        op.route = "v";
    if (op.route != "h" && !cf.vertical_ok())
        op.route = "h";
    if (!cf.streams_ok())
        op.route = "b";
    op.o = &o;
    op.use.assign(md.k + md.m, true);
    for (int i : parse_list(l.str("lose")))
        if (i >= 0 && i < (int)op.use.size())
            op.use[i] = false;
    if (cf.capi && op.dec && l.has("dst") && l.num("dst") < (int)op.use.size()) {
        op.dst = (int)l.num("dst");
        op.use[op.dst] = false;
    }
    for (bool u : op.use)
        op.avail += u;
    op.plan = StreamPlan::from(l, "");
    op.plan.fail_kind = 0;
    op.plan.fail_at = -1;
    op.at_end = l.num("atend", 1) != 0;
    return op;
}

OpResult op_run(ICode& code, const Model& md, const Op& op)
{
    OpResult r;
    const unsigned k = md.k, n_out = md.n_out;
    const bool sys = md.cfg.sys;
    const Object& o = *op.o;
    const size_t n = o.words * md.cfg.w;
    PropsVec props(n_out);
    if (!op.dec) {
        r.bytes.resize(n_out);
        if (op.route == "b") {
            std::vector<Guarded> in, out;
            std::vector<uint8_t*> ip, opv;
            for (unsigned i = 0; i < k; ++i) {
                in.emplace_back(n, i, op.at_end, 1);
                memcpy(in[i].p(), o.data[i].data(), n);
                in[i].freeze(true);
                ip.push_back(in[i].p());
            }
            for (unsigned i = 0; i < n_out; ++i) {
                out.emplace_back(n, 100 + i, op.at_end, 1);
                opv.push_back(out[i].p());
            }
            std::vector<bool> wanted(n_out, true);
            r.out = call([&] {
                code.enc_blocks(ip, opv, props, wanted, n);
                return true;
            });
            for (unsigned i = 0; i < n_out; ++i) {
                r.bytes[i].assign(out[i].p(), out[i].p() + n);
                if (!out[i].slack_ok())
                    r.bounds = fmt("encode wrote outside output block %u", i);
            }
        } else {
            InSet in;
            OutSet out;
            for (unsigned i = 0; i < k; ++i)
                in.add(&o.data[i], op.plan, i);
            for (unsigned i = 0; i < n_out; ++i)
                out.add(true, op.plan, 1000 + i);
            r.out = call([&] {
                code.enc_streams(op.route == "v", in.ptr, out.ptr, props);
                return true;
            });
            for (unsigned i = 0; i < n_out; ++i)
                r.bytes[i] = out.buf[i]->data;
        }
        for (unsigned i = 0; i < n_out; ++i) {
            r.marks.push_back(from_props(props[i]));
            g_run->ev("frag", i, hash_bytes(r.bytes[i]), r.marks[i].size());
        }
        return r;
    }
    r.bytes.resize(k);
    for (unsigned i = 0; i < n_out; ++i)
        if (op.use[(sys ? k : 0) + i])
            for (auto& x : o.truth.marks[i])
                props[i].add(x.first, x.second);
    if (op.route == "b") {
        std::vector<Guarded> db, pb;
        std::vector<uint8_t*> dp(k, nullptr), pp(n_out, nullptr);
        std::vector<Bytes> orig(k);
        std::vector<int> missing(k + md.m, 1);
        std::vector<bool> wanted(k, true);
        for (unsigned i = 0; i < k; ++i) {
            db.emplace_back(n, 200 + i, op.at_end, 1);
            dp[i] = db[i].p();
            if (sys && op.use[i]) {
                memcpy(dp[i], o.data[i].data(), n);
                missing[i] = 0;
            }
            orig[i].assign(dp[i], dp[i] + n);
        }
        for (unsigned i = 0; i < n_out; ++i) {
            unsigned nd = (sys ? k : 0) + i;
            if (op.use[nd]) {
                pb.emplace_back(n, 300 + i, op.at_end, 1);
                pp[i] = pb.back().p();
                memcpy(pp[i], o.truth.frag[i].data(), n);
                pb.back().freeze(true);
                missing[nd] = 0;
            } else
                pb.emplace_back();
        }
        if (op.dst >= 0) {
            PropsVec np(1);
            r.bytes.assign(1, Bytes(n, 0x5a));
            Bytes old = r.bytes[0];
            r.out = call([&] {
                return code.rebuild(dp, pp, props, missing, (unsigned)op.dst, r.bytes[0].data(), np,
                                    n);
            });
            r.touched = r.bytes[0] != old;
            r.marks.push_back(from_props(np[0]));
            g_run->ev("rebuilt", op.dst, hash_bytes(r.bytes[0]), r.out.ok);
            return r;
        }
        r.out = call([&] { return code.dec_blocks(dp, pp, props, missing, wanted, n); });
        for (unsigned i = 0; i < k; ++i) {
            if (!db[i].slack_ok())
                r.bounds = fmt("decode wrote outside data block %u", i);
            r.bytes[i].assign(dp[i], dp[i] + n);
            r.touched = r.touched || r.bytes[i] != orig[i];
        }
    } else {
        InSet in, pin;
        OutSet out;
        for (unsigned i = 0; i < k; ++i)
            in.add(sys && op.use[i] ? &o.data[i] : nullptr, op.plan, i);
        for (unsigned i = 0; i < n_out; ++i)
            pin.add(op.use[(sys ? k : 0) + i] ? &o.truth.frag[i] : nullptr, op.plan, 500 + i);
        for (unsigned i = 0; i < k; ++i)
            out.add(true, op.plan, 2000 + i);
        r.out = call([&] {
            return code.dec_streams(op.route == "v", in.ptr, pin.ptr, props, out.ptr);
        });
        for (unsigned i = 0; i < k; ++i) {
            r.bytes[i] = out.buf[i]->data;
            r.touched = r.touched || !r.bytes[i].empty();
        }
    }
    for (unsigned i = 0; i < k; ++i)
        g_run->ev("data", i, hash_bytes(r.bytes[i]), r.out.ok);
    return r;
}

std::string op_judge(const Model& md, const Op& op, const OpResult& r)
{
    const Object& o = *op.o;
    if (!r.bounds.empty())
        return r.bounds;
    if (!r.out.returned)
        return std::string(op.dec ? "decode" : "encode") + " threw " + r.out.what;
    if (!op.dec) {
        for (unsigned i = 0; i < md.n_out; ++i) {
            if (r.bytes[i] != o.truth.frag[i])
                return fmt("fragment %u: ", i) + diff_desc(o.truth.frag[i], r.bytes[i]);
            if (r.marks[i] != o.truth.marks[i])
                return fmt("fragment %u marks ", i) + marks_text(r.marks[i]) + ", expected "
                       + marks_text(o.truth.marks[i]);
        }
        return "";
    }
    if (op.avail < md.k) {
        if (r.out.ok)
            return fmt("decode succeeded with %u of %u fragments", op.avail, md.k);
        return r.touched ? "a refused decode wrote output" : "";
    }
    if (!r.out.ok)
        return fmt("decode refused although %u of %u fragments are there", op.avail, md.k);
    if (op.dst >= 0) {
        bool plain = md.cfg.sys && op.dst < (int)md.k;
        unsigned i = (unsigned)op.dst - (md.cfg.sys ? md.k : 0);
        const Bytes& want = plain ? o.data[op.dst] : o.truth.frag[i];
        if (r.bytes[0] != want)
            return fmt("rebuilt fragment %d: ", op.dst) + diff_desc(want, r.bytes[0]);
        if (r.marks[0] != (plain ? Marks() : o.truth.marks[i]))
            return fmt("rebuilt fragment %d has marks ", op.dst) + marks_text(r.marks[0]);
        return "";
    }
    bool clear = md.cfg.sys;
    for (unsigned i = 0; i < md.k && clear; ++i)
        clear = op.use[i];
    for (unsigned i = 0; i < md.k; ++i) {
        if (clear && op.route != "b" && r.bytes[i].empty())
            continue; // nothing needs to be produced
        if (r.bytes[i] != o.data[i])
            return fmt("chunk %u: ", i) + diff_desc(o.data[i], r.bytes[i]);
    }
    return "";
}

uint64_t op_packets(const CodeCfg& cf, const Op& op)
{
    return op.route == "h" ? op.o->words : (op.o->words + cf.pkt - 1) / cf.pkt;
}

void gen_op(Rng& r, Line& l, const CodeCfg& c, int obj, double pfew)
{
    l.set("obj", obj);
    bool dec = r.chance(0.6);
    l.set("dec", dec);
    static const char* rt[] = {"h", "v", "b"};
    l.set("route", rt[r.below(3)]);
    if (dec) {
        int hide = r.chance(pfew) ? c.m + 1 + (int)r.below(c.k)
                                  : r.chance(0.7) ? c.m : (int)r.below(c.m + 1);
        if (hide > 0)
            l.set("lose", gen_list(r, c.k + c.m, hide));
        if (c.capi && r.chance(0.4))
            l.set("dst", (int64_t)r.below(c.k + c.m));
    }
    if (r.chance(0.3))
        l.set("atend", 0);
}

std::unique_ptr<ICode> op_open(const CodeCfg& c, Outcome& o)
{
    std::unique_ptr<ICode> p;
    o = call([&] {
        p = make_code(c);
        return p != nullptr;
    });
    return p;
}

} // namespace sim
