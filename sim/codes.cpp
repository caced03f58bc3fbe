#include <algorithm>
#include "codes.h"
namespace sim {
CodeCfg CodeCfg::from(const Line& l)
{
    CodeCfg c;
    c.kind = l.str("kind", "fnt");
    c.tb = (int)l.num("T", 32);
    c.w = (int)l.num("w", 1);
    c.k = (int)l.num("k", 2);
    c.m = (int)l.num("m", 2);
    c.sys = l.num("sys", 0) != 0;
    c.pkt = std::max(1, (int)l.num("pkt", 8)); // packets have at least one word
    c.capi = l.num("capi") != 0;
    return c;
}
void CodeCfg::to(Line& l) const
{
    l.set("kind", kind).set("T", tb).set("w", w).set("k", k).set("m", m);
    l.set("sys", sys ? 1 : 0).set("pkt", pkt);
    if (capi)
        l.set("capi", 1);
}
std::string CodeCfg::text() const
{
    Line l("code");
    to(l);
    return l.text().substr(5);
}
std::unique_ptr<ICode> make_code(const CodeCfg& c)
{
    ICode* p = nullptr;
    if (c.capi)
        p = make_capi(c);
    else if (c.kind == "fnt")
        p = make_fnt(c);
    else if (c.kind == "nf4")
        p = make_nf4(c);
    else if (c.kind == "gfp")
        p = make_gfp(c);
    else if (c.kind == "gf2nv" || c.kind == "gf2nc")
        p = make_gf2n(c);
    else if (c.kind == "gf2nfft")
        p = make_gf2nfft(c);
    else if (c.kind == "gf2nadd")
        p = make_gf2nadd(c);
    return std::unique_ptr<ICode>(p);
}
} // namespace sim
