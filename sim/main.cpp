// sim gen   --world W --profile P --seed N          print the scenario
// sim run   --scenario FILE [-v]                    execute one scenario
// sim batch --world W --profile P --seed0 N --stride S --count C --secs T
//           (a profile that ends in + generates larger runs)
//           --status FILE --hashes FILE             many seeds
//           --isolate 1                             each in a process of its own
//                                                   (always for profile fresh)
#include "core.h"
#include "model.h"
#include "util.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {
World world_cluster();
World world_capi();
World world_conc();
World world_alloc();
World world_mem();
World world_clock();
World world_props();
World world_cache();
const std::vector<World>& worlds()
{
    static std::vector<World> w = {SIM_WORLDS};
    return w;
}
const char* flavour()
{
    return SIM_FLAVOUR;
}
} // namespace sim
using namespace sim;

static double mono()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void on_alarm(int)
{
    static const char m[] = "HANG wall-clock watchdog\n";
    if (write(1, m, sizeof m - 1) < 0) {
    }
    _exit(76);
}
static void run_one(const World& w, const Scenario& s, Run& run, bool verbose)
{
    run = Run();
    run.verbose = verbose;
    alloc_reset();
    g_clock = ClockState();
    g_sched.reset();
    g_stream_calls = 0;
    g_stream_call_cap = 20000000;
    model_trim();
    g_run = &run;
    w.exec(s);
    run.ev("end", g_alloc.count, g_clock.calls, g_sched.steps());
    g_run = nullptr;
}
// Memory that the library keeps for later (a table built on first use) is not
// a leak: only what grows again when the same run is repeated counts.
static void confirm_memory(const World& w, const Scenario& s, Run& run)
{
    auto mem = [](const std::pair<std::string, std::string>& v) {
        return v.first == "leak" || v.first == "memory";
    };
    if (std::none_of(run.violations.begin(), run.violations.end(), mem))
        return;
    Run again;
    run_one(w, s, again, false);
    run_one(w, s, again, false);
    if (std::none_of(again.violations.begin(), again.violations.end(), mem))
        run.violations.erase(
            std::remove_if(run.violations.begin(), run.violations.end(), mem),
            run.violations.end());
}
// What the batch keeps of one run.
struct Res {
    uint64_t hash = 0, events = 0, sim_us = 0, steps = 0, switches = 0;
    std::map<std::string, uint64_t> faults, probes;
    std::vector<std::pair<std::string, std::string>> violations;
};
static Res summary(const Run& run)
{
    Res r;
    r.hash = run.hash;
    r.events = run.events;
    r.sim_us = run.now_us - 1000000;
    r.steps = g_sched.steps();
    r.switches = g_sched.switches();
    r.faults = {run.faults.begin(), run.faults.end()};
    r.probes = {run.probes.begin(), run.probes.end()};
    r.violations = {run.violations.begin(), run.violations.end()};
    return r;
}
// One run in a child process: the library's static state is as a program that
// has just started finds it, so first uses are raced in every run.
static Res run_isolated(const World& w, const Scenario& s, int limit)
{
    int fd[2];
    fflush(stdout);
    if (pipe(fd) != 0)
        _exit(2);
    pid_t pid = fork();
    if (pid < 0)
        _exit(2);
    if (!pid) {
        close(fd[0]);
        Run run;
        alarm(limit);
        run_one(w, s, run, false);
        Res r = summary(run);
        confirm_memory(w, s, run);
        alarm(0);
        r.violations = {run.violations.begin(), run.violations.end()};
        std::ostringstream o;
        o << "R " << r.hash << " " << r.events << " " << r.sim_us << " " << r.steps << " "
          << r.switches << "\n";
        for (auto& f : r.faults)
            o << "F " << f.second << " " << f.first << "\n";
        for (auto& f : r.probes)
            o << "P " << f.second << " " << f.first << "\n";
        for (auto& v : r.violations) {
            std::string m = v.second;
            std::replace(m.begin(), m.end(), '\n', ' ');
            o << "V " << v.first << " " << m << "\n";
        }
        std::string t = o.str();
        for (size_t at = 0; at < t.size();) {
            ssize_t n = write(fd[1], t.data() + at, t.size() - at);
            if (n <= 0)
                _exit(2);
            at += (size_t)n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string t;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
        t.append(buf, (size_t)n);
    close(fd[0]);
    int st = 0;
    if (waitpid(pid, &st, 0) != pid)
        _exit(2);
    if (WIFSIGNALED(st)) { // end the same way
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
    }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 2);
    Res r;
    std::istringstream in(t);
    std::string l;
    while (std::getline(in, l)) {
        std::istringstream x(l.substr(1));
        std::string name;
        uint64_t n = 0;
        if (l[0] == 'R')
            x >> r.hash >> r.events >> r.sim_us >> r.steps >> r.switches;
        else if (l[0] == 'V') {
            std::string c, m;
            x >> c;
            std::getline(x >> std::ws, m);
            r.violations.emplace_back(c, m);
        } else {
            x >> n >> name;
            (l[0] == 'F' ? r.faults : r.probes)[name] = n;
        }
    }
    return r;
}
static const World* find(const std::string& n)
{
    for (auto& w : worlds())
        if (n == w.name)
            return &w;
    return nullptr;
}
struct Status {
    volatile uint64_t seed, runs, done;
};

int main(int argc, char** argv)
{
    if (argc < 2)
        return 2;
    std::string mode = argv[1];
    std::map<std::string, std::string> a;
    bool verbose = false;
    for (int i = 2; i < argc; ++i) {
        std::string x = argv[i];
        if (x == "-v")
            verbose = true;
        else if (x.substr(0, 2) == "--" && i + 1 < argc)
            a[x.substr(2)] = argv[++i];
    }
    if (!a["profile"].empty() && a["profile"].back() == '+') { // deep
        a["profile"].pop_back();
        g_deep = true;
    }
    signal(SIGALRM, on_alarm);
    int limit = a.count("limit") ? atoi(a["limit"].c_str()) : 60;
    if (mode == "gen") {
        const World* w = find(a["world"]);
        if (!w)
            return 2;
        Scenario s = w->gen(strtoull(a["seed"].c_str(), 0, 10), a["profile"]);
        std::cout << "world name=" << w->name << "\n" << s.text();
        return 0;
    }
    if (mode == "run") {
        std::ifstream f(a["scenario"]);
        std::stringstream ss;
        ss << f.rdbuf();
        Scenario all = Scenario::parse(ss.str());
        // a file may hold several runs, executed one after the other in this
        // process
        std::vector<Scenario> seq;
        for (auto& l : all.lines) {
            if (l.verb == "world" || seq.empty())
                seq.emplace_back();
            seq.back().lines.push_back(l);
        }
        uint64_t hash = 0, events = 0;
        bool bad = false;
        for (auto& s : seq) {
            const Line* wl = s.first("world");
            const World* w = find(wl ? wl->str("name") : a["world"]);
            if (!w)
                return 2;
            Run run;
            alarm(limit);
            run_one(*w, s, run, verbose);
            confirm_memory(*w, s, run);
            alarm(0);
            for (auto& v : run.violations)
                printf("CLASS %s\nMSG %s\n", v.first.c_str(), v.second.c_str());
            hash = mix(hash, run.hash);
            events += run.events;
            bad = bad || run.bad();
            fflush(stdout);
        }
        printf("HASH %016llx events %llu\n", (unsigned long long)hash, (unsigned long long)events);
        fflush(stdout);
        _exit(bad ? 3 : 0);
    }
    if (mode != "batch")
        return 2;
    const World* w = find(a["world"]);
    if (!w)
        return 2;
    uint64_t seed0 = strtoull(a["seed0"].c_str(), 0, 10);
    uint64_t stride = strtoull(a["stride"].c_str(), 0, 10);
    uint64_t count = strtoull(a["count"].c_str(), 0, 10);
    double secs = atof(a["secs"].c_str());
    uint64_t twice = a.count("twice") ? strtoull(a["twice"].c_str(), 0, 10) : 0;
    const bool isolate = a.count("isolate") || a["profile"] == "fresh";
    Status local = {0, 0, 0};
    Status* st = &local;
    if (a.count("status")) {
        int fd = open(a["status"].c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0)
            return 2;
        st = (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    std::map<std::string, uint64_t> faults, probes, runs_with_fault;
    std::unordered_set<uint64_t> hashes;
    uint64_t runs = 0, events = 0, sim_us = 0, nontrivial = 0, steps = 0, switches = 0, nviol = 0;
    std::ofstream hs;
    if (a.count("seedhash"))
        hs.open(a["seedhash"]);
    double t0 = mono();
    for (uint64_t i = 0; i < count; ++i) {
        if (secs > 0 && mono() - t0 > secs)
            break;
        uint64_t seed = seed0 + i * stride;
        st->seed = seed;
        st->runs = runs;
        Scenario s = w->gen(seed, a["profile"]);
        Res run;
        if (isolate)
            run = run_isolated(*w, s, limit);
        else {
            Run one;
            alarm(limit);
            run_one(*w, s, one, false);
            run = summary(one);
            confirm_memory(*w, s, one);
            alarm(0);
            run.violations = {one.violations.begin(), one.violations.end()};
        }
        ++runs;
        if (twice && i % twice == 0) {
            bool same;
            if (isolate)
                same = run_isolated(*w, s, limit).hash == run.hash;
            else {
                Run r2, r3;
                run_one(*w, s, r2, false);
                // a table built on first use makes the first run differ
                if (r2.hash != run.hash)
                    run_one(*w, s, r3, false);
                same = r2.hash == run.hash || r2.hash == r3.hash;
            }
            if (!same) {
                printf("NONDET %llu\n", (unsigned long long)seed);
                fflush(stdout);
            }
        }
        if (hs.is_open())
            hs << seed << " " << run.hash << "\n";
        events += run.events;
        sim_us += run.sim_us;
        steps += run.steps;
        switches += run.switches;
        uint64_t f = 0;
        for (auto& p : run.faults) {
            faults[p.first] += p.second;
            runs_with_fault[p.first]++;
            f += p.second;
        }
        for (auto& p : run.probes)
            probes[p.first] += p.second;
        if (hashes.insert(run.hash).second && (f || !run.probes.empty()))
            ++nontrivial;
        for (auto& v : run.violations) {
            printf("VIOL %llu %s %s\n", (unsigned long long)seed, v.first.c_str(), v.second.c_str());
            fflush(stdout);
            ++nviol;
        }
        if (nviol > 40)
            break;
    }
    st->done = 1;
    printf("SUMMARY runs %llu distinct %zu nontrivial %llu events %llu sim_us %llu steps %llu switches %llu secs %.3f\n",
           (unsigned long long)runs, hashes.size(), (unsigned long long)nontrivial,
           (unsigned long long)events, (unsigned long long)sim_us,
           (unsigned long long)steps, (unsigned long long)switches, mono() - t0);
    for (auto& p : faults)
        printf("FAULT %s %llu %llu\n", p.first.c_str(), (unsigned long long)p.second,
               (unsigned long long)runs_with_fault[p.first]);
    for (auto& p : probes)
        printf("PROBE %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    if (a.count("hashes")) {
        std::ofstream o(a["hashes"], std::ios::binary);
        for (uint64_t h : hashes)
            o.write((const char*)&h, 8);
    }
    fflush(stdout);
    _exit(0);
}
