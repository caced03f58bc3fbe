#include "core.h"
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#endif
#include <unordered_map>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>

namespace sim {

Run* g_run = nullptr;
AllocState g_alloc;
thread_local int lib_depth = 0;
ClockState g_clock;
Sched g_sched;
uint64_t g_stream_call_cap = 0;
uint64_t g_stream_calls = 0;

uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 27);
}

std::string fmt(const char* f, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// ------------------------------------------------------------ scenario
const std::string* Line::find(const std::string& k) const
{
    for (auto& p : kv)
        if (p.first == k)
            return &p.second;
    return nullptr;
}
std::string Line::str(const std::string& k, const std::string& d) const
{
    auto* s = find(k);
    return s ? *s : d;
}
int64_t Line::num(const std::string& k, int64_t d) const
{
    auto* s = find(k);
    return s ? (int64_t)strtoll(s->c_str(), nullptr, 0) : d;
}
Line& Line::set(const std::string& k, const std::string& v)
{
    for (auto& p : kv)
        if (p.first == k) {
            p.second = v;
            return *this;
        }
    kv.emplace_back(k, v);
    return *this;
}
Line& Line::set(const std::string& k, int64_t v)
{
    return set(k, fmt("%lld", (long long)v));
}
std::string Line::text() const
{
    std::string s = verb;
    for (auto& p : kv)
        s += " " + p.first + "=" + p.second;
    return s;
}
Scenario Scenario::parse(const std::string& text)
{
    Scenario sc;
    size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        if (e == std::string::npos)
            e = text.size();
        std::string l = text.substr(i, e - i);
        i = e + 1;
        if (l.empty() || l[0] == '#')
            continue;
        Line line;
        size_t p = 0;
        bool first = true;
        while (p < l.size()) {
            size_t q = l.find(' ', p);
            if (q == std::string::npos)
                q = l.size();
            std::string tok = l.substr(p, q - p);
            p = q + 1;
            if (tok.empty())
                continue;
            if (first) {
                line.verb = tok;
                first = false;
            } else {
                size_t eq = tok.find('=');
                if (eq == std::string::npos)
                    line.kv.emplace_back(tok, "1");
                else
                    line.kv.emplace_back(tok.substr(0, eq), tok.substr(eq + 1));
            }
        }
        if (!first)
            sc.lines.push_back(line);
    }
    return sc;
}
std::string Scenario::text() const
{
    std::string s;
    for (auto& l : lines)
        s += l.text() + "\n";
    return s;
}
const Line* Scenario::first(const std::string& verb) const
{
    for (auto& l : lines)
        if (l.verb == verb)
            return &l;
    return nullptr;
}

// ------------------------------------------------------------ run
void Run::violate(const std::string& cls, const std::string& msg)
{
    ev("VIOLATION");
    if (verbose)
        fprintf(stderr, "  !! %s: %s\n", cls.c_str(), msg.c_str());
    for (auto& v : violations)
        if (v.first == cls)
            return;
    violations.emplace_back(cls, msg);
}
void Run::ev(const char* kind, uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t h = hash;
    for (const char* p = kind; *p; ++p)
        h = (h ^ (uint8_t)*p) * 0x100000001b3ull;
    h = mix(mix(mix(h, a), b), c);
    hash = h;
    ++events;
    if (verbose)
        fprintf(
            stderr,
            "  t=%llu #%llu task%d %s %llu %llu %llu\n",
            (unsigned long long)now_us,
            (unsigned long long)events,
            g_sched.current(),
            kind,
            (unsigned long long)a,
            (unsigned long long)b,
            (unsigned long long)c);
}
void Run::fault(const char* kind, uint64_t n)
{
    faults[kind] += n;
}
void Run::probe(const char* kind, uint64_t n)
{
    probes[kind] += n;
}

// ------------------------------------------------------------ allocator
// Open-addressing pointer set for live library allocations.
namespace {
struct PtrTab {
    uintptr_t* t = nullptr;
    size_t cap = 0, used = 0, live = 0;
    static size_t h(uintptr_t p)
    {
        return (p >> 4) * 0x9E3779B97F4A7C15ull >> 20;
    }
    void grow()
    {
        size_t ncap = cap ? cap * 2 : 1 << 14;
        if (live * 4 < cap)
            ncap = cap; // just purge tombstones
        uintptr_t* nt = (uintptr_t*)calloc(ncap, sizeof(uintptr_t));
        uintptr_t* ot = t;
        size_t oc = cap;
        t = nt;
        cap = ncap;
        used = live = 0;
        for (size_t i = 0; i < oc; ++i)
            if (ot[i] > 1)
                insert(ot[i]);
        free(ot);
    }
    void insert(uintptr_t p)
    {
        if (used * 2 >= cap)
            grow();
        size_t i = h(p) & (cap - 1);
        while (t[i] > 1)
            i = (i + 1) & (cap - 1);
        if (t[i] == 0)
            ++used;
        t[i] = p;
        ++live;
    }
    bool erase(uintptr_t p)
    {
        if (!cap)
            return false;
        size_t i = h(p) & (cap - 1);
        while (t[i]) {
            if (t[i] == p) {
                t[i] = 1;
                --live;
                return true;
            }
            i = (i + 1) & (cap - 1);
        }
        return false;
    }
    void clear()
    {
        if (t)
            memset(t, 0, cap * sizeof(uintptr_t));
        used = live = 0;
    }
} g_tab;
} // namespace

void alloc_reset()
{
    g_tab.clear();
    g_alloc = AllocState();
}

// Which task allocated the heap memory at an address (flavours that see every
// memory access only): one byte per 16 bytes, in chunks per 64 KiB.
#ifdef SIM_TRACE_MEM
static std::unordered_map<uintptr_t, std::vector<uint8_t>> g_owner;
static uintptr_t g_owner_page = ~(uintptr_t)0;
static uint8_t* g_owner_chunk = nullptr;
static uint8_t* owner_chunk(uintptr_t page, bool make)
{
    if (page == g_owner_page)
        return g_owner_chunk;
    auto it = g_owner.find(page);
    if (it == g_owner.end()) {
        if (!make)
            return nullptr;
        it = g_owner.emplace(page, std::vector<uint8_t>(4096)).first;
    }
    g_owner_page = page;
    g_owner_chunk = it->second.data();
    return g_owner_chunk;
}
static void owner_set(void* p, size_t n, uint8_t who)
{
    for (uintptr_t a = (uintptr_t)p & ~(uintptr_t)15; a < (uintptr_t)p + n; a += 16)
        if (uint8_t* c = owner_chunk(a >> 16, who != 0))
            c[(a >> 4) & 4095] = who;
}
static uint8_t owner_of(uintptr_t a)
{
    uint8_t* c = owner_chunk(a >> 16, false);
    return c ? c[(a >> 4) & 4095] : 0;
}
static void owner_reset()
{
    g_owner.clear();
    g_owner_page = ~(uintptr_t)0;
}
#else
static void owner_set(void*, size_t, uint8_t) {}
static uint8_t owner_of(uintptr_t)
{
    return 0;
}
static void owner_reset() {}
#endif

static void* do_alloc(size_t n)
{
    if (lib_depth <= 0)
        return malloc(n ? n : 1);
    SeamScope ss;
    AllocState& a = g_alloc;
    ++a.count;
    if (a.fail_at && a.count >= a.fail_at && a.count < a.fail_at + a.fail_for) {
        ++a.failed;
        if (g_run) {
            g_run->fault("alloc_failure");
            g_run->ev("alloc-fail", a.count);
        }
        return nullptr;
    }
    if (n > (1ull << 32) || (a.cap && a.live_bytes + n > a.cap)) {
        ++a.failed;
        if (g_run)
            g_run->fault("alloc_refused_over_budget");
        return nullptr;
    }
#ifdef __SANITIZE_ADDRESS__
    void* p = malloc(n ? n : 1);
#else
    void* p = malloc(n + 24); // trailing canary, see check_tail
#endif
    if (!p)
        return nullptr;
#ifndef __SANITIZE_ADDRESS__
    {
        uint8_t* b = (uint8_t*)p;
        size_t u = malloc_usable_size(p);
        memset(b + n, 0xA5, u - n - 8);
        uint64_t v = n ^ 0x5a5a5a5a00000000ull;
        memcpy(b + u - 8, &v, 8);
    }
#endif
    memset(p, a.fill, n);
    if (a.fill_random) {
        uint64_t s = mix(a.count, 77) | 1;
        uint8_t* b = (uint8_t*)p;
        for (size_t i = 0; i < n; ++i) {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            b[i] = (uint8_t)s;
        }
    }
    g_tab.insert((uintptr_t)p);
    ++a.live;
#ifdef __SANITIZE_ADDRESS__
    a.live_bytes += malloc_usable_size(p);
#else
    a.live_bytes += n;
#endif
    if (a.live_bytes > a.peak)
        a.peak = a.live_bytes;
    if (n > a.biggest)
        a.biggest = n;
    if (g_sched.active()) {
        owner_set(p, n, (uint8_t)(g_sched.current() + 1));
        g_sched.point(1);
    }
    return p;
}
// every seam block ends with a canary and its size: a write past its end is
// seen when the block is freed
static size_t check_tail(const void* p)
{
    const uint8_t* b = (const uint8_t*)p;
    size_t u = malloc_usable_size((void*)p);
    uint64_t v;
    memcpy(&v, b + u - 8, 8);
    size_t n = v ^ 0x5a5a5a5a00000000ull;
    bool ok = n <= u - 24 && u - n < 4096 + 64;
    const size_t size = ok ? n : u;
    for (size_t i = ok ? n : u; ok && i < u - 8; ++i)
        ok = b[i] == 0xA5;
    if (ok)
        return size;
    SeamScope ss;
    if (g_run)
        g_run->violate("bounds", "the library wrote past the end of one of its own heap blocks");
    return size;
}
static void do_free(void* p)
{
    if (!p)
        return;
    if (g_tab.live && g_tab.erase((uintptr_t)p)) {
        --g_alloc.live;
        size_t u = malloc_usable_size(p);
#ifdef __SANITIZE_ADDRESS__
        g_alloc.live_bytes -= u;
#else
        g_alloc.live_bytes -= check_tail(p); // sizes as requested: deterministic
        memset(p, 0xDD, u);
        owner_set(p, u, 0);
#endif
    }
    free(p);
}

// ------------------------------------------------------------ scheduler
struct Sched::Task {
    std::function<void()> body;
    pthread_t th;
    sem_t sem;
    int id = 0;
    bool done = false;
    uint64_t wake = 0; // simulated time at which it can run again
    uint8_t seen[1 << 18] = {}; // early visits per basic block
};
struct TaskMain {
    static void* main(void* arg)
    {
        auto* t = (Sched::Task*)arg;
        g_sched.park(t->id);
        t->body();
        t->done = true;
        int nx = g_sched.pick_next(t->id);
        if (nx >= 0)
            g_sched.switch_to(nx);
        else
            sem_post((sem_t*)g_main_sem);
        return nullptr;
    }
    static void* g_main_sem;
};
static sem_t main_sem;
void* TaskMain::g_main_sem = &main_sem;

Sched::~Sched() {}
void Sched::reset()
{
    tasks_.clear();
    pre_.clear();
    bpre_.clear();
    spre_.clear();
    next_pre_ = next_bpre_ = next_spre_ = 0;
    next_step_ = next_block_ = next_shared_ = ~0ull;
    early_ = slice_ = shared_ = 0;
    owner_reset();
    steps_ = switches_ = sig_ = fired_ = 0;
    cur_ = -1;
    active_ = false;
    no_preempt = 0;
}
int Sched::add(std::function<void()> body)
{
    tasks_.emplace_back(new Task);
    Task& t = *tasks_.back();
    t.body = std::move(body);
    t.id = (int)tasks_.size() - 1;
    sem_init(&t.sem, 0, 0);
    return t.id;
}
void Sched::set_preempts(std::vector<Preempt> p)
{
    pre_ = std::move(p);
    next_pre_ = 0;
    arm();
}
void Sched::set_block_preempts(std::vector<Preempt> p)
{
    bpre_ = std::move(p);
    next_bpre_ = 0;
    next_block_ = bpre_.empty() ? ~0ull : bpre_[0].step;
}
void Sched::set_shared_preempts(std::vector<Preempt> p)
{
    spre_ = std::move(p);
    next_spre_ = 0;
    next_shared_ = spre_.empty() ? ~0ull : spre_[0].step;
}
// A task that spins without ever reaching a seam is not allowed to starve the
// others: after this many steps the token moves on.
static const uint64_t FAIR_SLICE = 60000000;
void Sched::arm()
{
    next_step_ = slice_ + FAIR_SLICE;
    if (next_pre_ < pre_.size() && pre_[next_pre_].step < next_step_)
        next_step_ = pre_[next_pre_].step;
}
void Sched::park(int id)
{
    while (sem_wait(&tasks_[id]->sem) != 0) {
    }
}
int Sched::pick_next(int after)
{
    int n = (int)tasks_.size();
    int best = -1;
    for (int d = 1; d <= n; ++d) {
        int i = (after + d) % n;
        if (tasks_[i]->done)
            continue;
        if (tasks_[i]->wake <= g_run->now_us)
            return i;
        if (best < 0 || tasks_[i]->wake < tasks_[best]->wake)
            best = i;
    }
    if (best >= 0) // nothing runnable: jump the clock to the next event
        g_run->now_us = tasks_[best]->wake;
    return best;
}
void Sched::switch_to(int id)
{
    int from = cur_;
    slice_ = steps_;
    arm();
    if (id == from && !tasks_[id]->done)
        return;
    ++switches_;
    sig_ = mix(mix(sig_, (uint64_t)id + 1), steps_);
    if (g_run)
        g_run->ev("switch", from, id, steps_);
    cur_ = id;
    sem_post(&tasks_[id]->sem);
    if (from >= 0 && !tasks_[from]->done)
        park(from);
}
void Sched::run()
{
    if (tasks_.empty())
        return;
    sem_init(&main_sem, 0, 0);
    active_ = true;
    steps_ = 0;
    for (auto& t : tasks_)
        pthread_create(&t->th, nullptr, TaskMain::main, t.get());
    cur_ = 0;
    sem_post(&tasks_[0]->sem);
    while (sem_wait(&main_sem) != 0) {
    }
    for (auto& t : tasks_)
        pthread_join(t->th, nullptr);
    active_ = false;
    cur_ = -1;
}
void Sched::point(uint32_t kind)
{
    if (!active_ || no_preempt)
        return;
    if (++steps_ < next_step_)
        return;
    SeamScope ss;
    int to = -1;
    while (next_pre_ < pre_.size() && pre_[next_pre_].step <= steps_) {
        to = pre_[next_pre_].to;
        ++next_pre_;
    }
    if (to < 0 && steps_ >= slice_ + FAIR_SLICE) {
        slice_ = steps_;
        arm();
        for (int d = 1; d < (int)tasks_.size(); ++d) {
            int i = (cur_ + d) % (int)tasks_.size();
            if (!tasks_[i]->done && tasks_[i]->wake <= g_run->now_us) {
                switch_to(i);
                return;
            }
        }
        return;
    }
    arm();
    preempt(to, kind);
}
void Sched::preempt(int to, uint32_t kind)
{
    if (to < 0 || to >= (int)tasks_.size() || to == cur_ || tasks_[to]->done)
        return;
    ++fired_;
    g_run->fault("preemption");
    g_run->ev("preempt", kind, steps_);
    // a sleeping task that is chosen is woken by its timer now
    if (tasks_[to]->wake > g_run->now_us)
        g_run->now_us = tasks_[to]->wake;
    switch_to(to);
}
extern "C" char __ehdr_start;
void Sched::visit(uintptr_t pc)
{
    uint32_t off = (uint32_t)(pc - (uintptr_t)&__ehdr_start);
    uint8_t& v = tasks_[cur_]->seen[(off * 2654435761u) >> 14];
    if (v < 3) {
        ++v;
        if (++early_ >= next_block_ && !no_preempt) {
            SeamScope ss;
            int to = -1;
            while (next_bpre_ < bpre_.size() && bpre_[next_bpre_].step <= early_)
                to = bpre_[next_bpre_++].to;
            next_block_ = next_bpre_ < bpre_.size() ? bpre_[next_bpre_].step : ~0ull;
            if (to >= 0)
                g_run->probe("preempted_at_early_visit");
            preempt(to, 5);
        }
    }
    point(4);
}
extern "C" char __data_start, _end;
void Sched::access(uintptr_t addr, uintptr_t pc)
{
    bool is_static = addr >= (uintptr_t)&__data_start && addr < (uintptr_t)&_end;
    bool shared = is_static;
    if (!shared) {
        uint8_t o = owner_of(addr);
        shared = o && o != cur_ + 1;
    }
    if (shared && ++shared_ >= next_shared_ && !no_preempt) {
        SeamScope ss;
        int to = -1;
        while (next_spre_ < spre_.size() && spre_[next_spre_].step <= shared_)
            to = spre_[next_spre_++].to;
        next_shared_ = next_spre_ < spre_.size() ? spre_[next_spre_].step : ~0ull;
        if (to >= 0)
            g_run->probe("preempted_at_shared_access");
        preempt(to, 6);
    }
    visit(pc);
}
void Sched::sleep(uint64_t us)
{
    if (!active_) {
        g_run->now_us += us;
        return;
    }
    SeamScope ss;
    tasks_[cur_]->wake = g_run->now_us + us;
    int me = cur_;
    int nx = pick_next(me);
    if (nx != me)
        switch_to(nx);
}
void Sched::yield_other()
{
    SeamScope ss;
    int nx = pick_next(cur_);
    if (nx != cur_)
        switch_to(nx);
}

// ------------------------------------------------------------ streams
StreamPlan StreamPlan::from(const Line& l, const std::string& px)
{
    StreamPlan p;
    p.chunk = l.num(px + "chunk", 0);
    p.jitter = l.num(px + "jit", 0);
    p.delay_us = l.num(px + "delay", 0);
    p.fail_at = l.num(px + "failat", -1);
    p.fail_kind = (int)l.num(px + "failkind", 0);
    p.stall_every = (int)l.num(px + "stall", 0);
    return p;
}
struct LivenessStop {};
static void seam_call(const StreamPlan& p, uint64_t calls)
{
    ++g_stream_calls;
    if (g_stream_call_cap && g_stream_calls > g_stream_call_cap) {
        // bounded progress violated: report and stop the process; the
        // orchestrator turns this exit status into a violation
        g_run->violate("liveness", "operation keeps calling its streams");
        fprintf(stdout, "HANG stream calls exceeded\n");
        fflush(stdout);
        _exit(75);
    }
    uint64_t d = p.delay_us;
    if (p.stall_every && calls % p.stall_every == 0) {
        d += 50000;
        g_run->fault("stream_stall");
    }
    if (d)
        g_sched.sleep(d);
    g_sched.point(2);
}
SimIn::SimIn(const Bytes& src, const StreamPlan& p, int id)
    : src_(src), p_(p), id_(id), rng_(p.jitter + 1)
{
}
bool SimIn::refill()
{
    SeamScope ss;
    ++calls_;
    seam_call(p_, calls_);
    uint64_t lim = src_.size();
    bool failing = false;
    if (p_.fail_kind && p_.fail_at >= 0 && (uint64_t)p_.fail_at < lim) {
        lim = p_.fail_at;
        failing = true;
    }
    if (pos_ >= lim) {
        if (failing && !fired) {
            fired = true;
            g_run->fault(p_.fail_kind == 1 ? "stream_truncated_early" : "stream_read_error");
        }
        g_run->ev("eof", id_, pos_);
        if (failing && p_.fail_kind >= 2)
            throw StreamFault("simulated read error");
        return false;
    }
    uint64_t n = p_.chunk ? p_.chunk : lim - pos_;
    if (p_.chunk && p_.jitter)
        n = 1 + rng_.below(p_.chunk * 2);
    if (n > lim - pos_)
        n = lim - pos_;
    if (p_.chunk && n < lim - pos_)
        g_run->fault("short_read");
    chunk_.assign(src_.begin() + pos_, src_.begin() + pos_ + n);
    pos_ += n;
    setg((char*)chunk_.data(), (char*)chunk_.data(), (char*)chunk_.data() + n);
    g_run->ev("recv", id_, pos_, n);
    return true;
}
SimIn::int_type SimIn::underflow()
{
    if (gptr() < egptr())
        return traits_type::to_int_type(*gptr());
    if (!refill())
        return traits_type::eof();
    return traits_type::to_int_type(*gptr());
}
std::streamsize SimIn::xsgetn(char* s, std::streamsize n)
{
    std::streamsize got = 0;
    while (got < n) {
        if (gptr() >= egptr()) {
            if (!refill())
                break;
        }
        std::streamsize c = std::min<std::streamsize>(n - got, egptr() - gptr());
        memcpy(s + got, gptr(), c);
        gbump((int)c);
        got += c;
    }
    return got;
}
SimOut::SimOut(const StreamPlan& p, int id) : p_(p), id_(id), rng_(p.jitter + 7)
{
}
std::streamsize SimOut::xsputn(const char* s, std::streamsize n)
{
    SeamScope ss;
    std::streamsize done = 0;
    while (done < n) {
        ++calls_;
        seam_call(p_, calls_);
        uint64_t c = p_.chunk ? p_.chunk : (uint64_t)(n - done);
        if (p_.chunk && p_.jitter)
            c = 1 + rng_.below(p_.chunk * 2);
        if (c > (uint64_t)(n - done))
            c = n - done;
        if (p_.fail_kind && p_.fail_at >= 0
            && data.size() + c > (uint64_t)p_.fail_at) {
            uint64_t ok = (uint64_t)p_.fail_at > data.size()
                              ? p_.fail_at - data.size()
                              : 0;
            data.insert(data.end(), s + done, s + done + ok);
            done += ok;
            if (!fired)
                g_run->fault(p_.fail_kind == 1 ? "sink_disk_full" : "sink_write_error");
            fired = true;
            g_run->ev("sink-fail", id_, data.size());
            if (p_.fail_kind >= 2)
                throw StreamFault("simulated write error");
            return done;
        }
        data.insert(data.end(), s + done, s + done + c);
        done += c;
        g_run->ev("send", id_, data.size(), c);
    }
    return done;
}
SimOut::int_type SimOut::overflow(int_type c)
{
    if (traits_type::eq_int_type(c, traits_type::eof()))
        return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
}

// ------------------------------------------------------------ guarded memory
static const size_t PG = 4096;
// under AddressSanitizer even reads just outside the buffer are reported
static void shade(const uint8_t* lo, const uint8_t* p, size_t n, const uint8_t* hi, bool on)
{
#ifdef __SANITIZE_ADDRESS__
    auto f = on ? __asan_poison_memory_region : __asan_unpoison_memory_region;
    f((void*)lo, p - lo);
    f((void*)(p + n), hi - (p + n));
#else
    (void)lo, (void)p, (void)n, (void)hi, (void)on;
#endif
}
Guarded::Guarded(size_t n, uint64_t fill_seed, bool at_end, size_t align)
{
    size_t body = ((n + 64 + PG - 1) / PG) * PG;
    map_len_ = body + 2 * PG;
    map_ = (uint8_t*)mmap(
        nullptr, map_len_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (map_ == MAP_FAILED)
        abort();
    n_ = n;
    uint8_t* lo = map_ + PG;
    if (at_end) {
        uintptr_t e = (uintptr_t)lo + body - n;
        e -= e % align;
        p_ = (uint8_t*)e;
    } else {
        p_ = lo;
    }
    memset(lo, 0xC7, body);
    uint64_t s = mix(fill_seed, 99) | 1;
    for (size_t i = 0; i < n; ++i) {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        p_[i] = (uint8_t)s;
    }
    mprotect(map_, PG, PROT_NONE);
    mprotect(map_ + PG + body, PG, PROT_NONE);
    shade(lo, p_, n_, lo + body, true);
}
Guarded::~Guarded()
{
    drop();
}
void Guarded::drop()
{
    if (!map_)
        return;
    shade(map_ + PG, p_, n_, map_ + map_len_ - PG, false);
    munmap(map_, map_len_);
    map_ = nullptr;
}
Guarded& Guarded::operator=(Guarded&& o) noexcept
{
    if (this != &o) {
        drop();
        map_ = o.map_;
        map_len_ = o.map_len_;
        p_ = o.p_;
        n_ = o.n_;
        o.map_ = nullptr;
        o.p_ = nullptr;
        o.n_ = 0;
    }
    return *this;
}
bool Guarded::slack_ok() const
{
    if (!map_)
        return true;
    const uint8_t* lo = map_ + PG;
    const uint8_t* hi = map_ + map_len_ - PG;
    shade(lo, p_, n_, hi, false);
    bool ok = true;
    for (const uint8_t* q = lo; q < p_ && ok; ++q)
        ok = *q == 0xC7;
    for (const uint8_t* q = p_ + n_; q < hi && ok; ++q)
        ok = *q == 0xC7;
    shade(lo, p_, n_, hi, true);
    return ok;
}
void Guarded::freeze(bool ro) const
{
    if (map_)
        mprotect(
            map_ + PG, map_len_ - 2 * PG, ro ? PROT_READ : (PROT_READ | PROT_WRITE));
}

std::string hex(const Bytes& b, size_t max)
{
    std::string s;
    for (size_t i = 0; i < b.size() && i < max; ++i)
        s += fmt("%02x", b[i]);
    if (b.size() > max)
        s += "..";
    return s;
}
std::string diff_desc(const Bytes& want, const Bytes& got)
{
    if (want.size() != got.size())
        return fmt("length %zu, expected %zu", got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (want[i] != got[i]) {
            size_t cnt = 0;
            for (size_t j = i; j < want.size(); ++j)
                cnt += want[j] != got[j];
            return fmt(
                "byte %zu is %02x, expected %02x (%zu of %zu bytes differ)",
                i,
                got[i],
                want[i],
                cnt,
                want.size());
        }
    return "equal";
}

} // namespace sim

// ------------------------------------------------------------ interposition
void* operator new(size_t n)
{
    void* p = sim::do_alloc(n);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return sim::do_alloc(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return sim::do_alloc(n);
}
void operator delete(void* p) noexcept
{
    sim::do_free(p);
}
void operator delete[](void* p) noexcept
{
    sim::do_free(p);
}
void operator delete(void* p, size_t) noexcept
{
    sim::do_free(p);
}
void operator delete[](void* p, size_t) noexcept
{
    sim::do_free(p);
}

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    using namespace sim;
    SeamScope ss;
    uint64_t t;
    if (g_run) {
        ClockState& c = g_clock;
        ++c.calls;
        auto it = c.jumps.find(c.calls);
        if (it != c.jumps.end()) {
            c.skew += it->second;
            g_run->fault(it->second < 0 ? "clock_step_back" : "clock_jump");
        }
        g_run->now_us += c.per_call_us;
        t = g_run->now_us + c.skew;
        if (g_sched.active())
            g_sched.point(3);
    } else {
        t = 0;
    }
    if (tv) {
        tv->tv_sec = (int64_t)t / 1000000;
        tv->tv_usec = (int64_t)t % 1000000;
        if (tv->tv_usec < 0) {
            tv->tv_usec += 1000000;
            tv->tv_sec -= 1;
        }
    }
    return 0;
}

// Other clocks a library could read: monotonic ones ignore steps.
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!sim::g_run || sim::lib_depth <= 0)
        return (int)syscall(SYS_clock_gettime, id, ts);
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    uint64_t t = (uint64_t)tv.tv_sec * 1000000 + tv.tv_usec;
    if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)
        t -= sim::g_clock.skew;
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = t % 1000000 * 1000;
    return 0;
}

// Function-local statics: no preemption while one is being initialised (a
// parked initialiser would block the next task for real).
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(uint64_t* g)
{
    if (*(volatile uint8_t*)g)
        return 0;
    ++sim::g_sched.no_preempt;
    return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g) noexcept
{
    *(volatile uint8_t*)g = 1;
    --sim::g_sched.no_preempt;
}
extern "C" void __cxa_guard_abort(uint64_t* g) noexcept
{
    *(volatile uint8_t*)g = 0;
    --sim::g_sched.no_preempt;
}
} // namespace __cxxabiv1

// A contended mutex hands the token on instead of blocking for real.
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    typedef int (*fn)(pthread_mutex_t*);
    static fn real = nullptr;
    if (!real)
        real = (fn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!sim::g_sched.active())
        return real(m);
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY)
            return r;
        sim::g_sched.yield_other();
    }
}

template <typename F>
static F real_fn(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    static auto real = real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    if (!sim::g_sched.active())
        return real(m);
    int r;
    while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY)
        sim::g_sched.yield_other();
    return r;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    static auto real = real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    if (!sim::g_sched.active())
        return real(m);
    int r;
    while ((r = pthread_rwlock_trywrlock(m)) == EBUSY)
        sim::g_sched.yield_other();
    return r;
}
extern "C" int pthread_spin_lock(pthread_spinlock_t* m) noexcept
{
    static auto real = real_fn<int (*)(pthread_spinlock_t*)>("pthread_spin_lock");
    if (!sim::g_sched.active())
        return real(m);
    int r;
    while ((r = pthread_spin_trylock(m)) == EBUSY)
        sim::g_sched.yield_other();
    return r;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto real =
        real_fn<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!sim::g_sched.active())
        return real(c, m);
    pthread_mutex_unlock(m); // a spurious wake-up after the others ran
    sim::g_sched.yield_other();
    return pthread_mutex_lock(m);
}
extern "C" int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    static auto real = real_fn<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    struct Quiet { // as for function-local statics
        Quiet() { ++sim::g_sched.no_preempt; }
        ~Quiet() { --sim::g_sched.no_preempt; }
    };
    if (!sim::g_sched.active())
        return real(o, fn);
    Quiet q;
    return real(o, fn);
}

#ifdef SIM_TRACE_PC
// -fsanitize-coverage=trace-pc: every basic block of library code is a
// possible preemption point.
extern "C" void __sanitizer_cov_trace_pc()
{
    if (sim::lib_depth > 0 && sim::g_sched.active())
        sim::g_sched.visit((uintptr_t)__builtin_return_address(0));
}
#endif

#ifdef SIM_TRACE_MEM
// The library is compiled with -fsanitize=thread and linked against these
// instead of the race detector's run time: every memory access of library
// code is a possible preemption point, and atomics are plain operations
// (one task runs at a time).
#define ACCESS(a) \
    do { \
        if (sim::lib_depth > 0 && sim::g_sched.active()) \
            sim::g_sched.access((uintptr_t)(a), (uintptr_t)__builtin_return_address(0)); \
    } while (0)
#define RW(n) \
    extern "C" void __tsan_read##n(void* a) { ACCESS(a); } \
    extern "C" void __tsan_write##n(void* a) { ACCESS(a); } \
    extern "C" void __tsan_unaligned_read##n(void* a) { ACCESS(a); } \
    extern "C" void __tsan_unaligned_write##n(void* a) { ACCESS(a); } \
    extern "C" void __tsan_volatile_read##n(void* a) { ACCESS(a); } \
    extern "C" void __tsan_volatile_write##n(void* a) { ACCESS(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void** a, void*) { ACCESS(a); }
extern "C" void __tsan_vptr_read(void** a) { ACCESS(a); }
extern "C" void __tsan_read_range(void* a, size_t) { ACCESS(a); }
extern "C" void __tsan_write_range(void* a, size_t) { ACCESS(a); }
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
#define FETCH(bits, T, name, op) \
    extern "C" T __tsan_atomic##bits##_fetch_##name(volatile T* a, T v, int) \
    { \
        ACCESS(a); \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST); \
    }
#define ATOMIC(bits, T) \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int) \
    { \
        ACCESS(a); \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    } \
    extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int) \
    { \
        ACCESS(a); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) \
    { \
        ACCESS(a); \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    FETCH(bits, T, add, add) \
    FETCH(bits, T, sub, sub) \
    FETCH(bits, T, and, and) \
    FETCH(bits, T, or, or) \
    FETCH(bits, T, xor, xor) \
    FETCH(bits, T, nand, nand) \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_strong( \
        volatile T* a, T* e, T v, int, int) \
    { \
        ACCESS(a); \
        return __atomic_compare_exchange_n( \
            a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_weak( \
        volatile T* a, T* e, T v, int, int) \
    { \
        ACCESS(a); \
        return __atomic_compare_exchange_n( \
            a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val( \
        volatile T* a, T e, T v, int, int) \
    { \
        ACCESS(a); \
        __atomic_compare_exchange_n( \
            a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return e; \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
#endif
