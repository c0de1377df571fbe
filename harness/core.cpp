#include "core.hpp"
#include <algorithm>
#include <cxxabi.h>
#include <exception>
#include <pthread.h>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace vh
{
    static const size_t STACK = 256 * 1024;
    static const size_t EH = sizeof(void*) + sizeof(unsigned int);

    Sim& Sim::get() { static Sim s; return s; }

    const std::string& Sim::self() const { return cur_ ? cur_->name : main_name_; }

    void Sim::trampoline()
    {
        Sim& s(get());
        Coro* me(s.cur_);
        try { me->body(); }
        catch (const std::exception& e) { s.fail(std::string("exception:") + e.what()); }
        catch (...) { s.fail("exception"); }
        me->finished = true;
        s.schedule();
        abort();
    }

    Coro* Sim::spawn(const std::string& name, std::function<void()> body, bool background, std::function<bool()> when)
    {
        coros_.emplace_back(new Coro);
        Coro* c(coros_.back().get());
        c->name = name; c->body = body; c->background = background; c->wait = when;
        c->index = (int)coros_.size();
        if (stack_pool_.empty()) c->stack = new std::vector<char>(STACK);
        else { c->stack = stack_pool_.back(); stack_pool_.pop_back(); }
        memset(c->eh, 0, sizeof c->eh);
        getcontext(&c->ctx);
        c->ctx.uc_stack.ss_sp = c->stack->data();
        c->ctx.uc_stack.ss_size = c->stack->size();
        c->ctx.uc_link = nullptr;
        makecontext(&c->ctx, (void (*)())trampoline, 0);
        return c;
    }

    int Sim::choose(int n, int cls, bool free)
    {
        if (n <= 1) return 0;
        Choice c = { n, 0, cls, free };
        size_t i(choices_.size());
        if (i < script_.size())
        {
            c.chosen = script_[i];
            if (c.chosen >= n) c.chosen = 0;
        }
        else if (random_)
        {
            uint64_t r(next_rand() >> 11);
            if (free) c.chosen = int(r % (unsigned)n);
            else if (left_.b[cls] > 0)
            {
                // take a deviation with moderate probability
                unsigned p(cls == C_SCHED ? 4 : 8);
                if (r % p == 0) c.chosen = 1 + int((r / p) % (unsigned)(n - 1));
            }
        }
        if (!free && c.chosen) left_.b[cls]--;
        choices_.push_back(c);
        return c.chosen;
    }

    void Sim::log(const Event& e)
    {
        std::string k(e.key());
        auto it(event_ids.find(k));
        int id;
        if (it == event_ids.end())
        {
            id = (int)events.size();
            events.push_back(k);
            event_ids.emplace(k, id);
        }
        else id = it->second;
        trace_.push_back(id);
        if (trace_.size() > max_steps)
        {
            trace_.resize(200);
            fail("livelock");
        }
    }

    void Sim::log(const std::string& k, const std::string& f, std::vector<long> a, std::vector<std::string> s)
    {
        log(Event{ self(), k, f, std::move(a), std::move(s) });
    }

    void Sim::switch_to(Coro* c)
    {
        Coro* prev(cur_);
        if (prev == c) return;
        unsigned char* g((unsigned char*)__cxxabiv1::__cxa_get_globals());
        if (prev) memcpy(prev->eh, g, EH);
        cur_ = c;
        c->started = true;
        memcpy(g, c->eh, EH);
        if (prev) swapcontext(&prev->ctx, &c->ctx);
        else swapcontext(&main_ctx_, &c->ctx);
        // resumed
        if (cur_ && cur_ != prev) { /* unreachable by construction */ }
    }

    void Sim::schedule()
    {
        if (++steps_ > max_steps * 4) fail("livelock");
        std::vector<Coro*> run;
        bool cur_runnable(cur_ && !cur_->finished && (!cur_->wait || cur_->wait()));
        if (cur_runnable) run.push_back(cur_);
        for (auto& c : coros_)
        {
            if (c.get() == cur_ || c->finished) continue;
            if (c->wait && !c->wait()) continue;
            run.push_back(c.get());
        }
        size_t regular(run.size());
        if (regular && spurious_ > 0)
            for (auto& c : coros_)
                if (!c->finished && c->wait && c->spurious && !c->wait()) run.push_back(c.get());
        if (!free_switch_ && cur_)
        {
            // round robin
            int b(cur_->index), n((int)coros_.size() + 1);
            std::sort(run.begin() + cur_runnable, run.begin() + (long)regular, [b, n](Coro* x, Coro* y) { return (x->index - b + n) % n < (y->index - b + n) % n; });
        }
        if (run.empty())
        {
            bool pending(false);
            std::string who;
            for (auto& c : coros_)
                if (!c->finished && !c->background) { pending = true; who += c->name + ","; }
            if (pending) fail("deadlock:" + who);
            // all done: back to main
            unsigned char* g((unsigned char*)__cxxabiv1::__cxa_get_globals());
            memset(g, 0, EH);
            cur_ = nullptr;
            setcontext(&main_ctx_);
        }
        int pick(0);
        if (run.size() > 1)
        {
            if (cur_runnable && offer_) pick = choose((int)run.size(), C_SCHED, true);
            else if (cur_runnable) pick = preempt_ ? choose((int)run.size(), C_SCHED) : 0;
            else pick = choose((int)run.size(), C_SCHED, free_switch_);
        }
        offer_ = false;
        Coro* c(run[(size_t)pick]);
        if ((size_t)pick >= regular) { --spurious_; c->spurious(); }
        c->wait = nullptr;
        switch_to(c);
    }

    void Sim::yield()
    {
        if (!cur_) return;
        schedule();
    }

    void Sim::offer()
    {
        if (!cur_) return;
        offer_ = true;
        schedule();
    }

    void Sim::block(std::function<bool()> until)
    {
        if (!cur_) { if (!until()) fail("deadlock:main"); return; }
        if (until()) return;
        cur_->wait = until;
        schedule();
    }

    void Sim::fail(const std::string& what)
    {
        std::string clean;
        for (char c : what) clean += (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) ? '_' : c;
        Event e{ self(), "fail", "fail", {}, { clean } };
        std::string k(e.key());
        auto it(event_ids.find(k));
        if (it == event_ids.end()) { event_ids.emplace(k, (int)events.size()); events.push_back(k); it = event_ids.find(k); }
        trace_.push_back(it->second);
        failed_ = true;
        unsigned char* g((unsigned char*)__cxxabiv1::__cxa_get_globals());
        memset(g, 0, EH);
        cur_ = nullptr;
        setcontext(&main_ctx_);
        abort();
    }

    void Sim::stop()
    {
        stopped_ = true;
        unsigned char* g((unsigned char*)__cxxabiv1::__cxa_get_globals());
        memset(g, 0, EH);
        cur_ = nullptr;
        setcontext(&main_ctx_);
        abort();
    }

    static bool fatal_signal = false;
    static void on_signal(int sig)
    {
        if (sig != SIGVTALRM) fatal_signal = true;
        Sim::get().fail(sig == SIGVTALRM ? "hang" : "signal:" + std::to_string(sig));
    }
    void install_signals()
    {
        static char alt[64 * 1024];
        stack_t ss; memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt; ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM }) sigaction(s, &sa, nullptr);
    }
    static void arm(long sec)
    {
        struct itimerval tv; memset(&tv, 0, sizeof tv);
        tv.it_value.tv_sec = sec;
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    }

    bool Sim::run_once(const std::function<void(Sim&)>& scenario,
                       const std::vector<int>& script, const Budget& budget)
    {
        choices_.clear(); trace_.clear(); script_ = script;
        budget_ = left_ = budget; failed_ = stopped_ = false; preempt_ = free_switch_ = true; steps_ = spurious_ = 0; unlock_points_ = false;
        cur_ = nullptr;
        arm(10);
        volatile bool first = true;
        getcontext(&main_ctx_);
        if (first)
        {
            first = false;
            scenario(*this);
            schedule(); // returns here when all coroutines are done
        }
        if (!failed_ && !stopped_)
        {
            // a failure in here comes back to the top
            cur_ = nullptr;
            while (!deleters_.empty())
            {
                auto d(deleters_.back());
                deleters_.pop_back();
                d();
            }
        }
        bool ok(!failed_);
        for (auto& c : coros_)
        {
            stack_pool_.push_back(c->stack);
        }
        deleters_.clear();
        coros_.clear();
        cur_ = nullptr;
        return ok;
    }

    // ------------------------------------------------------- mutex / cond
    static char main_owner;
    static void* me()
    {
        Coro* c(Sim::get().current());
        return c ? (void*)c : (void*)&main_owner;
    }
    bool co_mutex::owned_by_me() const { return owner_ == me(); }

    void co_mutex::lock()
    {
        if (bypass) return;
        Sim& s(Sim::get());
        if (owner_ == me()) s.fail(std::string("self-deadlock:") + name);
        if (!quiet) s.yield();
        while (owner_) s.block([this]() { return owner_ == nullptr; });
        owner_ = me();
    }
    void co_mutex::unlock()
    {
        if (bypass) return;
        Sim& s(Sim::get());
        if (owner_ != me()) s.fail(std::string("unlock-not-owner:") + name);
        if (on_unlock) on_unlock();
        owner_ = nullptr;
        if (s.unlock_points() && !quiet && !waiting) s.yield();
    }
    void co_cond::notify_one()
    {
        for (auto& w : waiters_) if (!w->signalled) { w->signalled = true; break; }
    }
    void co_cond::notify_all() { for (auto& w : waiters_) w->signalled = true; }
    void co_cond::wait(wsrep::unique_lock<wsrep::mutex>& lock)
    {
        Sim& s(Sim::get());
        co_mutex* m(static_cast<co_mutex*>(lock.mutex()));
        auto w(std::make_shared<W>(W{ false }));
        waiters_.push_back(w);
        m->waiting = true;
        m->unlock();
        m->waiting = false;
        if (s.current()) s.current()->spurious = [w]() { w->signalled = true; };
        s.block([w]() { return w->signalled; });
        if (s.current()) s.current()->spurious = nullptr;
        for (auto i(waiters_.begin()); i != waiters_.end(); ++i)
            if (*i == w) { waiters_.erase(i); break; }
        if (m->owner_) s.block([m]() { return m->owner_ == nullptr; });
        m->owner_ = me();
    }

    // --------------------------------------------------------- explorer
    void Trie::add(const std::vector<int>& trace)
    {
        int n(0);
        for (int e : trace)
        {
            auto it(kids_[(size_t)n].find(e));
            if (it == kids_[(size_t)n].end())
            {
                int m((int)kids_.size());
                kids_[(size_t)n].emplace(e, m);
                kids_.emplace_back();
                n = m;
            }
            else n = it->second;
        }
    }

    void Trie::write(const std::string& path, const std::vector<std::string>& events, Stats& st)
    {
        size_t n(kids_.size());
        std::vector<int> canon(n);
        std::map<std::vector<std::pair<int, int>>, int> reg;
        std::vector<std::vector<std::pair<int, int>>> out;
        for (size_t i = n; i-- > 0;)
        {
            std::vector<std::pair<int, int>> sig;
            for (auto& k : kids_[i]) sig.emplace_back(k.first, canon[(size_t)k.second]);
            auto it(reg.find(sig));
            if (it == reg.end())
            {
                int id((int)out.size());
                reg.emplace(sig, id);
                out.push_back(sig);
                canon[i] = id;
            }
            else canon[i] = it->second;
        }
        st.nodes = n; st.min_nodes = out.size();
        FILE* f(fopen(path.c_str(), "w"));
        if (!f) { perror(path.c_str()); exit(3); }
        fprintf(f, "{\"root\":%d,\"ev\":[", canon[0] + 1);
        for (size_t i = 0; i < events.size(); ++i) fprintf(f, "%s%s", i ? ",\n" : "", events[i].c_str());
        fprintf(f, "],\n\"kids\":[");
        for (size_t i = 0; i < out.size(); ++i)
        {
            fprintf(f, "%s[", i ? ",\n" : "");
            for (size_t j = 0; j < out[i].size(); ++j)
                fprintf(f, "%s[%d,%d]", j ? "," : "", out[i][j].first + 1, out[i][j].second + 1);
            st.edges += out[i].size();
            fprintf(f, "]");
        }
        fprintf(f, "]}\n");
        fclose(f);
    }

    // remembers the run when it is the one looked for
    static bool matches(ExploreOptions& opt, const Sim& s)
    {
        if (opt.find.empty() || s.trace().size() < opt.find.size()
            || !std::equal(opt.find.begin(), opt.find.end(), s.trace().begin())) return false;
        opt.found.clear();
        for (auto& c : s.choices()) opt.found.push_back(c.chosen);
        return true;
    }

    void explore(const std::function<void(Sim&)>& scenario,
                 ExploreOptions& opt, Trie& trie, Stats& stats)
    {
        Sim& s(Sim::get());
        // Best first: executions with fewer preemptions and faults first,
        // in a seeded random order among equals.  A pending execution is the
        // list of its nondefault choices.
        typedef std::vector<uint32_t> Sparse; // position << 8 | value
        std::vector<std::vector<Sparse>> todo(1);
        todo[0].push_back(Sparse());
        uint64_t rng(opt.seed * 6364136223846793005ULL + 1442695040888963407ULL);
        auto next_rng = [&rng]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
        for (size_t b = 0; b < todo.size(); ++b)
        {
            while (!todo[b].empty())
            {
                if (stats.runs >= opt.max_runs) { stats.complete = false; return; }
                std::swap(todo[b][next_rng() % todo[b].size()], todo[b].back());
                Sparse dev(std::move(todo[b].back()));
                todo[b].pop_back();
                std::vector<int> script;
                for (uint32_t d : dev)
                {
                    script.resize((d >> 8) + 1, 0);
                    script[d >> 8] = (int)(d & 255);
                }
                if (!s.run_once(scenario, script, opt.budget)) stats.failures++;
                stats.runs++; stats.events += s.trace().size();
                trie.add(s.trace());
                if (matches(opt, s)) return;
                if (stats.failures > 200 || fatal_signal) { stats.complete = false; return; }
                const std::vector<Choice> ch(s.choices());
                int left[N_CLASSES];
                for (int k = 0; k < N_CLASSES; ++k) left[k] = opt.budget.b[k];
                for (size_t i = 0; i < ch.size(); ++i)
                {
                    if (i < script.size())
                    {
                        if (!ch[i].free && ch[i].chosen) left[ch[i].cls]--;
                        continue;
                    }
                    if (!ch[i].free && left[ch[i].cls] <= 0) continue;
                    size_t nb(ch[i].free ? b : b + 1);
                    if (todo.size() <= nb) todo.resize(nb + 1);
                    if (todo[nb].size() > 3000000) { stats.complete = false; continue; }
                    for (int v = 1; v < ch[i].n; ++v)
                    {
                        todo[nb].push_back(dev);
                        todo[nb].back().push_back(uint32_t(i << 8 | (size_t)v));
                    }
                }
            }
            stats.bound = b;
        }
    }
}

// ---------------------------------------------------------------------
// Interposed libc: asserts become failures of the run, time is virtual,
// thread identity is the coroutine.
extern "C"
{
    void __assert_fail(const char* expr, const char* file, unsigned line, const char* func)
    {
        (void)line;
        const char* b(strrchr(file, '/'));
        vh::Sim::get().fail(std::string("assert:") + (b ? b + 1 : file) + ":" + expr
                            + ":" + (func ? func : ""));
        abort();
    }

    pthread_t pthread_self(void)
    {
        vh::Coro* c(vh::Sim::get().current());
        return (pthread_t)(1000 + (c ? c->index : 0));
    }

    long vh_virtual_us = 1000000; // virtual clock in microseconds
    int clock_gettime(clockid_t, struct timespec* ts)
    {
        ts->tv_sec = vh_virtual_us / 1000000;
        ts->tv_nsec = (vh_virtual_us % 1000000) * 1000;
        return 0;
    }
    int usleep(useconds_t us) { vh_virtual_us += (long)us; return 0; }
    int nanosleep(const struct timespec* r, struct timespec*)
    { vh_virtual_us += r->tv_sec * 1000000 + r->tv_nsec / 1000; return 0; }
    int clock_nanosleep(clockid_t, int, const struct timespec* r, struct timespec*)
    { vh_virtual_us += r->tv_sec * 1000000 + r->tv_nsec / 1000; return 0; }
}
