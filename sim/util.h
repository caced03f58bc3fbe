// Shared pieces of the worlds: configuration generators and stream bundles.
#ifndef SIM_UTIL_H
#define SIM_UTIL_H
#include "codes.h"
#include "core.h"
#include "model.h"
#include <set>

namespace sim {

struct GenOpt {
    std::string kinds = "";   // restrict to this kind ("" = any)
    bool small = false;       // small shapes only (per-step worlds)
    bool vertical_only = false;
    bool allow_big = true;
    bool capi = false;        // also through the C interface
};
// deep: larger shapes, longer objects, more operations
extern bool g_deep;
CodeCfg gen_code(Rng& r, const GenOpt& o);
// another instance able to read what `c` wrote: same code, other element type
// and packet size
CodeCfg gen_sibling(Rng& r, const CodeCfg& c);
// another code that could share internal state with c
CodeCfg gen_neighbour(Rng& r, const CodeCfg& c);
size_t gen_words(Rng& r, const CodeCfg& c, size_t cap);
std::string gen_pat(Rng& r);
void gen_crafts(Rng& r, Scenario& s, const CodeCfg& c, int obj, size_t words, int n);
std::string gen_list(Rng& r, int n, int count); // distinct indexes "1,4"
void gen_delivery(Rng& r, Line& l);
std::vector<int> parse_list(const std::string& s);
std::string list_text(const std::vector<int>& v);

// data of an object line plus its craft lines
struct Object {
    int id = 0;
    size_t words = 0;
    std::vector<Bytes> data;
    Encoded truth; // from the model
};
Object build_object(const Scenario& s, const Model& md, const Line& l);

PropsVec to_props(const std::vector<Marks>& m);
Marks from_props(const quadiron::Properties& p);
std::string marks_text(const Marks& m, size_t max = 6);
Marks marks_below(const Marks& m, size_t limit);
uint64_t hash_bytes(const Bytes& b);

// headers of the C interface
uint32_t c_be(const uint8_t* p);
void c_put_be(uint8_t* p, uint32_t v);
size_t meta_size(size_t block);
Bytes header(const Marks& m, size_t meta); // empty when they do not fit
bool parse_header(const Bytes& frag, size_t meta, std::set<size_t>& locs);
// does the interface have room for the marks of this object?
bool storable(const CodeCfg& c, const Object& o);

// a set of simulated input streams; null entries allowed
struct InSet {
    std::vector<std::unique_ptr<SimIn>> buf;
    std::vector<std::unique_ptr<std::istream>> st;
    std::vector<std::istream*> ptr;
    void add(const Bytes* src, const StreamPlan& p, int id);
    size_t size() const { return ptr.size(); }
};
struct OutSet {
    std::vector<std::unique_ptr<SimOut>> buf;
    std::vector<std::unique_ptr<std::ostream>> st;
    std::vector<std::ostream*> ptr;
    void add(bool wanted, const StreamPlan& p, int id);
};
// what a library call did
struct Outcome {
    bool returned = false; // no exception
    bool ok = false;
    bool stream_fault = false; // our own exception came back
    bool bad_alloc = false;
    std::string what;
};
Outcome call(const std::function<bool()>& f);

} // namespace sim
#endif
