// Deterministic execution core of the conformance harness.
//
// Every "thread" of a scenario is a coroutine (ucontext) and the only
// source of nondeterminism is choose(): which coroutine runs next at a
// yield point, and what each environment callback answers.  explore()
// enumerates all choice sequences within per-class budgets (stateless
// model checking of the real code), or draws random ones.
//
// The recorded event sequences are merged into a minimal acyclic automaton
// which TLC validates against the TLA+ specification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <ucontext.h>

#include "wsrep/mutex.hpp"
#include "wsrep/condition_variable.hpp"
#include "wsrep/lock.hpp"

namespace vh
{
    // ------------------------------------------------------------ choices
    enum ChoiceClass { C_SCHED = 0, C_FAULT = 1, C_PROG = 2, N_CLASSES = 3 };

    struct Choice
    {
        int n;        // number of options
        int chosen;
        int cls;
        bool free;    // non-default options cost nothing
    };

    struct Budget { int b[N_CLASSES]; };

    // --------------------------------------------------------- coroutines
    struct Coro
    {
        std::string name;
        std::function<void()> body;
        ucontext_t ctx;
        std::vector<char>* stack = nullptr;
        bool started = false;
        bool finished = false;
        // blocked on: nonnull -> predicate must hold to be runnable
        std::function<bool()> wait;
        std::function<void()> spurious; // nonnull in a condition wait: wake up without a signal
        bool background = false; // need not finish (daemon)
        int index = 0;
        unsigned char eh[32];
    };

    struct Event
    {
        std::string t, k, f;
        std::vector<long> a;
        std::vector<std::string> s;
        std::string key() const
        {
            std::string r = "{\"t\":\"" + t + "\",\"k\":\"" + k + "\",\"f\":\"" + f + "\",\"a\":[";
            for (size_t i = 0; i < a.size(); ++i) { if (i) r += ","; r += std::to_string(a[i]); }
            r += "],\"s\":[";
            for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += "\"" + s[i] + "\""; }
            r += "]}";
            return r;
        }
    };

    class Sim
    {
    public:
        static Sim& get();

        // --- run control
        // Execute scenario once with the given script of choices.
        // Returns false if execution ended in a failure event.
        bool run_once(const std::function<void(Sim&)>& scenario,
                      const std::vector<int>& script, const Budget& budget);
        const std::vector<Choice>& choices() const { return choices_; }
        const std::vector<int>& trace() const { return trace_; }

        // --- scenario API
        Coro* spawn(const std::string& name, std::function<void()> body,
                    bool background = false, std::function<bool()> when = nullptr);
        int choose(int n, int cls, bool free = false);
        bool fault() { return choose(2, C_FAULT) == 1; }
        int prog(int n) { return choose(n, C_PROG, true); }
        void log(const Event&);
        void log(const std::string& k, const std::string& f,
                 std::vector<long> a = {}, std::vector<std::string> s = {});
        void yield();                 // preemption point
        void offer();                 // free choice of who goes on
        void block(std::function<bool()> until); // wait until predicate
        const std::string& self() const;
        Coro* current() { return cur_; }
        [[noreturn]] void fail(const std::string& what);
        [[noreturn]] void stop();     // end of the process, not a failure
        void preemption(bool on) { preempt_ = on; }
        // spurious wakeups of condition waits allowed in a run
        void spurious(int n) { spurious_ = n; }
        // preemption points also after the release of a mutex
        void unlock_points(bool on) { unlock_points_ = on; }
        bool unlock_points() const { return unlock_points_; }
        // delay bounding: choosing who runs next costs also after blocking
        void delay_bounded(bool on) { free_switch_ = !on; }

        // --- random mode
        void random(uint64_t seed) { random_ = true; rng_ = seed * 6364136223846793005ULL + 1442695040888963407ULL; }
        bool is_random() const { return random_; }
        uint64_t next_rand()
        {
            rng_ ^= rng_ << 13; rng_ ^= rng_ >> 7; rng_ ^= rng_ << 17;
            return rng_;
        }

        // --- event table
        std::vector<std::string> events;
        std::unordered_map<std::string, int> event_ids;
        size_t max_steps = 20000;

        // objects owned by the run
        template <class T> T* keep(T* p)
        {
            deleters_.push_back([p]() { delete p; });
            return p;
        }
    private:
        void switch_to(Coro*);
        void schedule();              // pick next coroutine and switch
        static void trampoline();
        std::vector<std::unique_ptr<Coro>> coros_;
        Coro* cur_ = nullptr;
        bool offer_ = false;
        ucontext_t main_ctx_;
        std::vector<std::vector<char>*> stack_pool_;
        std::vector<Choice> choices_;
        std::vector<int> script_;
        Budget budget_, left_;
        std::vector<int> trace_;
        bool failed_ = false, stopped_ = false;
        bool preempt_ = true, free_switch_ = true, unlock_points_ = false;
        int spurious_ = 0;
        bool random_ = false;
        uint64_t rng_ = 88172645463325252ULL;
        size_t steps_ = 0;
        std::string main_name_ = "main";
        std::vector<std::function<void()>> deleters_;
    };

    // ------------------------------------------------------- mutex / cond
    class co_mutex : public wsrep::mutex
    {
    public:
        void lock() override;
        void unlock() override;
        void* native() override { return this; }
        bool owned() const { return owner_ != nullptr; }
        bool owned_by_me() const;
        // called with the mutex still held, just before it is released
        std::function<void()> on_unlock;
        const char* name = "";
        bool quiet = false;       // no preemption point
        bool waiting = false;     // released by a condition wait
        bool bypass = false;      // observe without locking
    private:
        friend class co_cond;
        void* owner_ = nullptr;
    };

    class co_cond : public wsrep::condition_variable
    {
    public:
        void notify_one() override;
        void notify_all() override;
        void wait(wsrep::unique_lock<wsrep::mutex>& lock) override;
    private:
        struct W { bool signalled; };
        std::deque<std::shared_ptr<W>> waiters_;
    };

    // --------------------------------------------------------- explorer
    struct Stats
    {
        size_t runs = 0, failures = 0, events = 0;
        bool complete = true; long bound = -1; // deviations up to which exploration is exhaustive
        size_t nodes = 0, min_nodes = 0, edges = 0;
    };

    class Trie
    {
    public:
        Trie() { kids_.emplace_back(); }
        void add(const std::vector<int>& trace);
        size_t size() const { return kids_.size(); }
        // minimise and write: {"ev":[...],"kids":[[ [ev,child].. ]..]}
        void write(const std::string& path, const std::vector<std::string>& events,
                   Stats& st);
    private:
        std::vector<std::map<int, int>> kids_;
    };

    struct ExploreOptions
    {
        Budget budget = {{1, 1, 0}};
        size_t max_runs = 200000;
        uint64_t seed = 1;
        std::vector<int> find;    // stop at a run whose trace starts with this
        std::vector<int> found;   // its script
    };

    void install_signals();
    void explore(const std::function<void(Sim&)>& scenario,
                 ExploreOptions& opt, Trie& trie, Stats& stats);
}
