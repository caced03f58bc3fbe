// Deterministic-simulation core: PRNG, scenario text, event log, simulated
// clock, allocator seam, parked-thread scheduler, byte-stream seams, guarded
// caller memory.  Everything nondeterministic the library can observe passes
// through one of these.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <utility>
#include <vector>

namespace sim {

typedef unsigned __int128 u128;
typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    // the seed is scrambled: neighbouring seeds must not give shifted copies of
    // one stream
    explicit Rng(uint64_t seed) : s(seed + 0x1234567)
    {
        s = (s ^ (s >> 32)) * 0xD6E8FEB86659FD93ull;
        s = (s ^ (s >> 32)) * 0xD6E8FEB86659FD93ull;
        s ^= s >> 32;
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below(b - a + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- scenario
struct Line {
    std::string verb;
    std::vector<std::pair<std::string, std::string>> kv;
    Line() {}
    explicit Line(const std::string& v) : verb(v) {}
    const std::string* find(const std::string& k) const;
    bool has(const std::string& k) const { return find(k) != nullptr; }
    std::string str(const std::string& k, const std::string& d = "") const;
    int64_t num(const std::string& k, int64_t d = 0) const;
    Line& set(const std::string& k, const std::string& v);
    Line& set(const std::string& k, int64_t v);
    std::string text() const;
};
struct Scenario {
    std::vector<Line> lines;
    static Scenario parse(const std::string& text);
    std::string text() const;
    const Line* first(const std::string& verb) const;
    Line& add(const std::string& verb)
    {
        lines.emplace_back(verb);
        return lines.back();
    }
};

// ---------------------------------------------------------------- run state
struct Run {
    uint64_t hash = 0xcbf29ce484222325ull; // event-log hash
    uint64_t events = 0;
    uint64_t now_us = 1000000;             // simulated clock
    uint64_t state_sig = 0;                // rough state signature
    std::map<std::string, uint64_t> faults; // injected (i.e. fired) faults
    std::map<std::string, uint64_t> probes; // rare conditions reached
    bool verbose = false;
    // violation class -> first explanation, in order of appearance
    std::vector<std::pair<std::string, std::string>> violations;
    bool bad() const { return !violations.empty(); }
    void violate(const std::string& cls, const std::string& msg);
    void ev(const char* kind, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
    void fault(const char* kind, uint64_t n = 1);
    void probe(const char* kind, uint64_t n = 1);
};
extern Run* g_run;

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- allocator
// operator new/delete are replaced in this binary.  Allocations made while
// `lib_depth > 0` on the running task belong to the library: they are counted,
// filled with a scenario-chosen byte and can be made to fail.
struct AllocState {
    uint64_t count = 0;     // library allocations so far
    uint64_t fail_at = 0;   // fail the allocation with this ordinal (1-based)
    uint64_t fail_for = 1;  // ... and this many consecutive ones
    uint64_t failed = 0;
    uint64_t live = 0;      // library allocations not yet freed
    uint64_t live_bytes = 0;
    uint64_t biggest = 0;
    uint64_t peak = 0;
    uint64_t cap = 0;       // 0: none; else refuse to go above (bytes)
    uint8_t fill = 0xA5;
    bool fill_random = false;
    uint64_t bad_free = 0;  // free of something not live (double free)
};
extern AllocState g_alloc;
extern thread_local int lib_depth;
struct LibScope {
    LibScope() { ++lib_depth; }
    ~LibScope() { --lib_depth; }
};
struct SeamScope {
    int saved;
    SeamScope() : saved(lib_depth) { lib_depth = 0; }
    ~SeamScope() { lib_depth = saved; }
};
void alloc_reset();

// ---------------------------------------------------------------- clock
// gettimeofday() of this process reads the simulated clock.
struct ClockState {
    uint64_t calls = 0;
    std::map<uint64_t, int64_t> jumps; // at call #n: clock steps by delta us
    int64_t skew = 0;
    uint64_t per_call_us = 0;          // simulated cost added at every call
};
extern ClockState g_clock;

// ---------------------------------------------------------------- scheduler
// Real threads, parked and released one at a time.  Who runs next is decided
// only by the scenario (preempt lines) and the discrete-event rules.
class Sched {
  public:
    struct Preempt { uint64_t step; int to; };
    void reset();
    int add(std::function<void()> body);
    void set_preempts(std::vector<Preempt> p);
    // preemptions placed at the n-th early visit of a basic block by a task:
    // rarely executed code is reached as often as hot loops
    void set_block_preempts(std::vector<Preempt> p);
    // preemptions placed at the n-th access to memory that is shared between
    // tasks: static storage, or a heap block another task allocated
    void set_shared_preempts(std::vector<Preempt> p);
    void visit(uintptr_t pc);   // a basic block of the library is entered
    void access(uintptr_t addr, uintptr_t pc); // library code touches memory
    uint64_t shared_accesses() const { return shared_; }
    uint64_t early_visits() const { return early_; }
    void run();                 // runs all tasks to completion
    bool active() const { return active_; }
    int current() const { return cur_; }
    void point(uint32_t kind);  // possible preemption point
    void sleep(uint64_t us);    // discrete-event wait of the running task
    void yield_other();         // give up the token (spin lock style)
    uint64_t steps() const { return steps_; }
    uint64_t switches() const { return switches_; }
    uint64_t sig() const { return sig_; }
    uint64_t fired() const { return fired_; }
    int no_preempt = 0;
    ~Sched();
  private:
    struct Task;
    std::vector<std::unique_ptr<Task>> tasks_;
    std::vector<Preempt> pre_;
    std::vector<Preempt> bpre_;
    std::vector<Preempt> spre_;
    size_t next_pre_ = 0, next_bpre_ = 0, next_spre_ = 0;
    uint64_t next_step_ = ~0ull, next_block_ = ~0ull, early_ = 0, slice_ = 0;
    uint64_t next_shared_ = ~0ull, shared_ = 0;
    void arm();
    void preempt(int to, uint32_t kind);
    uint64_t steps_ = 0, switches_ = 0, sig_ = 0, fired_ = 0;
    int cur_ = -1;
    bool active_ = false;
    int pick_next(int after);
    void switch_to(int id);
    void park(int id);
    friend struct TaskMain;
};
extern Sched g_sched;

// ---------------------------------------------------------------- streams
struct StreamFault : std::runtime_error {
    explicit StreamFault(const std::string& s) : std::runtime_error(s) {}
};
// How a simulated stream behaves.
struct StreamPlan {
    uint64_t chunk = 0;      // bytes delivered/accepted per seam call (0: all)
    uint64_t jitter = 0;     // seed for varying chunk sizes (0: fixed)
    uint64_t delay_us = 0;   // simulated latency per seam call
    int64_t fail_at = -1;    // byte offset of the fault, -1 none
    int fail_kind = 0;       // 1 EOF/short, 2 throws, 3 throws & mask rethrows
    int stall_every = 0;     // extra stall each n calls
    static StreamPlan from(const Line& l, const std::string& prefix);
};
class SimIn : public std::streambuf {
  public:
    SimIn(const Bytes& src, const StreamPlan& p, int id);
    uint64_t delivered() const { return pos_; }
    uint64_t calls() const { return calls_; }
    const StreamPlan& plan() const { return p_; }
    bool fired = false;
  protected:
    int_type underflow() override;
    std::streamsize xsgetn(char* s, std::streamsize n) override;
  private:
    const Bytes& src_;
    StreamPlan p_;
    int id_;
    uint64_t pos_ = 0, calls_ = 0, eofs_ = 0;
    Bytes chunk_;
    Rng rng_;
    bool refill();
};
class SimOut : public std::streambuf {
  public:
    SimOut(const StreamPlan& p, int id);
    Bytes data; // what reached the far side
    bool fired = false;
    uint64_t calls() const { return calls_; }
  protected:
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int_type overflow(int_type c) override;
    int sync() override { return 0; }
  private:
    StreamPlan p_;
    int id_;
    uint64_t calls_ = 0;
    Rng rng_;
};
extern uint64_t g_stream_call_cap; // liveness bound: seam calls per run
extern uint64_t g_stream_calls;

// ---------------------------------------------------------------- guarded memory
// Caller-owned memory whose end (or begin) abuts an inaccessible page.
class Guarded {
  public:
    Guarded() {}
    Guarded(size_t n, uint64_t fill_seed, bool at_end = true, size_t align = 4);
    ~Guarded();
    Guarded(Guarded&& o) noexcept { *this = std::move(o); }
    Guarded& operator=(Guarded&& o) noexcept;
    Guarded(const Guarded&) = delete;
    Guarded& operator=(const Guarded&) = delete;
    uint8_t* p() const { return p_; }
    size_t size() const { return n_; }
    void drop();
    bool slack_ok() const; // canary bytes around [p, p+n) intact
    bool valid() const { return p_ != nullptr; }
    void freeze(bool ro) const; // make read-only / read-write again
  private:
    uint8_t* map_ = nullptr;
    size_t map_len_ = 0;
    uint8_t* p_ = nullptr;
    size_t n_ = 0;
};

// ---------------------------------------------------------------- worlds
struct World {
    const char* name;
    // seed + profile -> scenario (pure function)
    Scenario (*gen)(uint64_t seed, const std::string& profile);
    // executes a scenario; violations are recorded in g_run
    void (*exec)(const Scenario&);
};
const std::vector<World>& worlds();
const char* flavour();

std::string hex(const Bytes& b, size_t max = 48);
std::string diff_desc(const Bytes& want, const Bytes& got);

} // namespace sim
#endif
