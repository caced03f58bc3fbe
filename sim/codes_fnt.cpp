#include "fec_rs_fnt.h"
#include "codes.h"
namespace sim {
ICode* make_fnt(const CodeCfg& c)
{
    using namespace quadiron::fec;
    FecType t = c.sys ? FecType::SYSTEMATIC : FecType::NON_SYSTEMATIC;
    if (c.tb == 16 && c.w == 1)
        return wrap<RsFnt<uint16_t>>(c, t, c.w, c.k, c.m, (size_t)c.pkt);
    if (c.tb == 32 && c.w <= 2)
        return wrap<RsFnt<uint32_t>>(c, t, c.w, c.k, c.m, (size_t)c.pkt);
    if (c.tb == 64 && c.w <= 2)
        return wrap<RsFnt<uint64_t>>(c, t, c.w, c.k, c.m, (size_t)c.pkt);
    return nullptr;
}
} // namespace sim
