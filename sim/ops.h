// One encode or decode operation, executed on a given instance through any of
// the C++ interfaces and judged against the reference model.
#ifndef SIM_OPS_H
#define SIM_OPS_H
#include "util.h"

namespace sim {

struct Op {
    bool dec = false;
    std::string route;      // h: word streams, v: packet streams, b: blocks
    const Object* o = nullptr;
    std::vector<bool> use;  // decode: fragments handed over, per node
    unsigned avail = 0;
    StreamPlan plan;        // delivery of every stream
    bool at_end = true;
    int dst = -1;           // C interface: rebuild this node instead of decoding
};
struct OpResult {
    Outcome out;
    std::vector<Bytes> bytes; // fragments or restored chunks
    std::vector<Marks> marks; // encode
    bool touched = false;     // decode: something was written
    std::string bounds;       // damage around caller blocks
};
// "op dec=1 route=v obj=0 lose=1,2 chunk=7"
Op op_from(const Line& l, const Model& md, const CodeCfg& cf, const Object& o);
OpResult op_run(ICode& code, const Model& md, const Op& op);
// "" when the result is what it must be
std::string op_judge(const Model& md, const Op& op, const OpResult& r);
// number of transforms the operation performs
uint64_t op_packets(const CodeCfg& cf, const Op& op);
void gen_op(Rng& r, Line& l, const CodeCfg& c, int obj, double pfew);
// builds the instance; null and an explanation when that throws
std::unique_ptr<ICode> op_open(const CodeCfg& c, Outcome& o);

} // namespace sim
#endif
