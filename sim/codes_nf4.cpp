#include "fec_rs_nf4.h"
#include "codes.h"
namespace sim {
ICode* make_nf4(const CodeCfg& c)
{
    using namespace quadiron::fec;
    if (c.tb == 32 && c.w == 2)
        return wrap<RsNf4<uint32_t>>(c, c.w, c.k, c.m, (size_t)c.pkt);
    if (c.tb == 64 && c.w <= 4)
        return wrap<RsNf4<uint64_t>>(c, c.w, c.k, c.m, (size_t)c.pkt);
    if (c.tb == 128)
        return wrap<RsNf4<__uint128_t>>(c, c.w, c.k, c.m, (size_t)c.pkt);
    return nullptr;
}
} // namespace sim
