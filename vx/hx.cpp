#include "hx.hpp"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace hx
{
namespace
{
struct Shared
{
    volatile long prog_idx;
    volatile int  sched;
    volatile long len;
    volatile int  running;
    volatile long runs;
    volatile long steps;
    char          buf[1 << 20];
};
Shared* sh = nullptr;
// what happened in a run irrespective of the order (sig1), and in order but without the calls (sig2)
size_t sig1 = 0, sig2 = 0;
} // namespace
extern "C" void __gcov_dump() __attribute__((weak));
extern "C" void __gcov_reset() __attribute__((weak));
static void leave() { if (__gcov_dump) __gcov_dump(); _exit(0); }

void log_raw(const std::string& s)
{
    vx::note_event();
    long n = sh->len;
    if (n + long(s.size()) + 2 >= long(sizeof(sh->buf))) return;
    if (n > 0) sh->buf[n++] = ',';
    std::memcpy(sh->buf + n, s.data(), s.size());
    sh->len = n + long(s.size());
    if (s.compare(0, 6, "[\"call") != 0)
    {
        size_t h = std::hash<std::string>{}(s);
        sig1 += h * 0x9e3779b97f4a7c15ull;
        sig2 = (sig2 ^ h) * 0x100000001b3ull;
    }
}

static Det body(World* w, int c)
{
    for (const Op& op : w->prog->ops)
    {
        if (op.c != c) continue;
        while (op.phase > w->cur_phase) { GateAw g{*w, c, {}}; co_await g; }
        if (w->skip(c, op)) continue;
        Res r;
        if (w->one_at_a_time()) w->turn.take();
        if (w->own_log(op)) { w->pending.insert(c); co_await w->exec(c, op, r); w->pending.erase(c); if (w->one_at_a_time()) w->turn.give(); continue; }
        vx::stamp st;
        st.set();
        log("call", c, op.op, op.a, op.b);
        w->pending.insert(c);
        vx::point();
        bool exc = false;
        try { co_await w->exec(c, op, r); } catch (const std::exception& e) { exc = true; } catch (...) { exc = true; }
        if (exc) { r.s = "exc"; }
        vx::point();
        w->pending.erase(c);
        if (w->one_at_a_time()) w->turn.give();
        log("ret", c, op.op, r.s, r.v, (r.vis && st.seen()) ? 1 : 0);
    }
}

static std::string run_one(const Program& p, int k, World* (*make)(const Program&), void (*tune)(const Program&, vx::Config&))
{
    vx::Config cfg;
    cfg.seed     = p.base + uint64_t(k) * 7919 + 1;
    uint64_t h   = cfg.seed * 0x9e3779b97f4a7c15ull;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    cfg.policy   = int(h % 4); if (cfg.policy == 3) cfg.policy = 1;
    cfg.sticky   = 2 + int((h >> 8) % 24);
    cfg.pct_depth = 1 + int((h >> 16) % 5);
    cfg.pct_len  = 40 << ((h >> 24) % 5);
    cfg.weak_fail = ((h >> 32) % 3) ? 12 : 0;
    cfg.spurious = ((h >> 36) % 2) ? 8 : 0;
    cfg.post     = (h >> 40) % 2;
    if (tune) tune(p, cfg);
    return vx::run(cfg, [&]() {
        World* w = make(p);
        w->prog  = &p;
        w->start(p);
        std::set<int> started;
        for (int ph = 0; ph < p.phases; ++ph)
        {
            w->cur_phase = ph;
            std::vector<std::pair<int, std::coroutine_handle<>>> todo;
            std::set<int> want;
            for (auto& op : p.ops) if (op.phase == ph) want.insert(op.c);
            for (int c : want)
            {
                if (!started.count(c)) { started.insert(c); todo.emplace_back(c, body(w, c).h); }
                else if (auto it = w->gated.find(c); it != w->gated.end()) { todo.emplace_back(c, it->second); w->gated.erase(it); }
            }
            int nf = int(todo.size());
            std::vector<std::vector<std::coroutine_handle<>>> lists(static_cast<size_t>(nf));
            bool spread = vx::rnd(4) != 0;
            for (int i = 0; i < nf; ++i) lists[spread ? size_t(i) : vx::rnd(size_t(nf))].push_back(todo[size_t(i)].second);
            for (auto& l : lists)
                if (!l.empty())
                {
                    vx::thread t([l]() { for (auto h : l) { h.resume(); vx::point(); } });
                    t.detach();
                }
            w->before_quiesce(ph);
            vx::quiesce();
            if (w->log_q())
            {
                std::vector<int> pd(w->pending.begin(), w->pending.end());
                log("q", pd);
            }
            w->after_quiesce(ph);
        }
        w->finishing = true;
        w->finish();
    });
}

static std::vector<Program> load(const char* fn)
{
    std::vector<Program> v;
    std::ifstream        in(fn);
    std::string          line;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        // id nsched base npar par... : ops ; "/" separates phases; op = c.name.a.b
        std::istringstream is(line);
        Program p; int np;
        is >> p.id >> p.nsched >> p.base >> np;
        for (int i = 0; i < np; ++i) { int x; is >> x; p.par.push_back(x); }
        std::string t; is >> t; // ":"
        int ph = 0;
        while (is >> t)
        {
            if (t == "/") { ++ph; continue; }
            Op o; o.phase = ph;
            std::replace(t.begin(), t.end(), '.', ' ');
            std::istringstream os(t);
            os >> o.c >> o.op >> o.a >> o.b;
            p.ncoro = std::max(p.ncoro, o.c);
            p.ops.push_back(o);
        }
        p.phases = ph + 1;
        v.push_back(p);
    }
    return v;
}

int harness_main(int argc, char** argv, World* (*make)(const Program&), void (*tune)(const Program&, vx::Config&))
{
    // usage: prog progfile outfile budget_seconds [fork_each] [only_sched]
    if (argc < 4) return 2;
    auto   progs  = load(argv[1]);
    double budget = std::atof(argv[3]);
    bool   fork_each = argc > 4 && std::atoi(argv[4]);
    int    only   = argc > 5 ? std::atoi(argv[5]) : -1;
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int ofd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&]() { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    // round robin over schedules so that a cut by the budget is fair to all programs
    int maxs = 0;
    for (auto& p : progs) maxs = std::max(maxs, p.nsched);
    long pi = 0; int k = only >= 0 ? only : 0;
    if (only >= 0) maxs = only + 1;
    long total = 0, crashes = 0;
    signal(SIGPIPE, SIG_IGN);
    while (k < maxs && left() > 0)
    {
        sh->prog_idx = pi; sh->sched = k; sh->len = 0; sh->running = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            std::string out;
            auto flush = [&]() { size_t o = 0; while (o < out.size()) { ssize_t n = write(ofd, out.data() + o, out.size() - o); if (n <= 0) break; o += size_t(n); } out.clear(); };
            long i = pi; int kk = k, bads = 0;
            std::unordered_set<size_t> seen, seen1, seen2; std::map<long, int> emitted, novel;
            const int cap = getenv("VX_CAP") ? std::atoi(getenv("VX_CAP")) : 1000000;
            for (; kk < maxs; ++kk)
            {
                for (; i < long(progs.size()); ++i)
                {
                    if (kk >= progs[size_t(i)].nsched && only < 0) continue;
                    if (left() <= 0) { flush(); sh->prog_idx = 0; sh->sched = maxs; leave(); }
                    sh->prog_idx = i; sh->sched = kk; sh->len = 0; sh->running = 1; sig1 = sig2 = 0;
                    alarm(20);
                    std::string why = run_one(progs[size_t(i)], kk, make, tune);
                    alarm(0);
                    sh->running = 0;
                    ++sh->runs;
                    log("end", why);
                    size_t hsh = std::hash<std::string_view>{}(std::string_view(sh->buf, size_t(sh->len))) ^ (size_t(progs[size_t(i)].id) * 0x9e3779b97f4a7c15ull);
                    bool bad = why != "ok";
                    // traces with an outcome not seen before are kept beyond the cap of the program
                    bool take = only >= 0;
                    if (!take && seen.insert(hsh).second)
                    {
                        const size_t m = size_t(progs[size_t(i)].id) * 0x9e3779b97f4a7c15ull;
                        bool n1 = seen1.insert(sig1 ^ m).second, n2 = seen2.insert(sig2 ^ m).second;
                        if (bad) take = true;
                        else if (n1 && novel[i] < 4 * cap) { take = true; ++novel[i]; }
                        else if (emitted[i] < (n2 ? cap : cap / 2)) { take = true; ++emitted[i]; }
                    }
                    if (take)
                    out += "{\"p\":" + std::to_string(progs[size_t(i)].id) + ",\"k\":" + std::to_string(kk) + ",\"ev\":[" + std::string(sh->buf, size_t(sh->len)) + "]}\n";
                    if (out.size() > 3000 || fork_each) flush();
                    if (bad && ++bads >= 40) { flush(); sh->prog_idx = i + 1; sh->sched = kk; leave(); }   // what they leave behind adds up
                    if (fork_each) { sh->prog_idx = i + 1; sh->sched = kk; leave(); }
                }
                i = 0;
            }
            flush();
            sh->prog_idx = 0; sh->sched = maxs;
            leave();
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (sh->running)
        {
            // died in the middle of a run: complete its trace
            std::string cause = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "sig" + std::to_string(WTERMSIG(st))) : "asan";
            std::string evs(sh->buf, size_t(sh->len));
            if (!evs.empty()) evs += ',';
            evs += "[\"end\",\"crash-" + cause + "\"]";
            std::string o = "{\"p\":" + std::to_string(progs[size_t(sh->prog_idx)].id) + ",\"k\":" + std::to_string(sh->sched) + ",\"ev\":[" + evs + "]}\n";
            if (write(ofd, o.data(), o.size()) < 0) return 2;
            ++sh->runs;
            ++crashes;
            pi = sh->prog_idx + 1; k = sh->sched;
            if (crashes > 40) break;
        }
        else { pi = sh->prog_idx; k = sh->sched; }
        if (pi >= long(progs.size())) { pi = 0; ++k; }
        total = sh->runs;
    }
    std::cout << "RUNS " << sh->runs << " CRASHES " << crashes << " SCHED " << k << "/" << maxs << std::endl;
    (void)total;
    return 0;
}
} // namespace hx
