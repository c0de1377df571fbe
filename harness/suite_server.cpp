// The node's life cycle (Server.tla): the provider's callbacks, the thread
// which initializes the DBMS, state transfers, waiters and disconnects.
#include "world.hpp"
#include "wsrep/reporter.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace wsrep;
namespace vh
{
    struct Busy // a background thread must not hang in the middle of a call
    {
        Coro* c;
        Busy(Sim& s) : c(s.current()) { c->background = false; }
        ~Busy() { c->background = true; }
    };
    struct Node
    {
        World& w; Sim& sim;
        Hps* h = nullptr;
        bool up = false, sstreq = false, sstdone = false, discd = false, donor = false, over = false;
        int sstret = 0;
        long vseq = 4, vs = 1;
        Node(World& w_) : w(w_), sim(w_.sim) { }
        int call(const char* f, std::vector<long> a, std::vector<std::string> s, std::function<int()> g)
        {
            w.log("call", f, a, s);
            int r(0);
            try { r = g(); } catch (const wsrep::runtime_error&) { r = 99; }
            w.log("ret", f, { r });
            return r;
        }
        enum server_state::state st() const { return w.peek(); }
        bool st_in(std::initializer_list<enum server_state::state> l) const { for (auto x : l) if (st() == x) return true; return st() == server_state::s_disconnecting; }
        int view(enum wsrep::view::status s, long seq, int own)
        {
            std::vector<std::string> m;
            if (own >= 0) m = { "1", "2" };
            wsrep::view v(w.view(s, seq, ++vs, m, own));
            return call("on_view", { seq }, { s == wsrep::view::primary ? "primary" : own < 0 ? "final" : "non" },
                        [&] { w.server->on_view(v, h); return 0; });
        }
        int sync() { return call("on_sync", {}, {}, [&] { w.server->on_sync(); return 0; }); }
        int disconnect() { discd = true; return call("disconnect", {}, {}, [&] { return w.server->disconnect(); }); }
        int wait(enum server_state::state s)
        {
            return call("wait", {}, { to_string(s) }, [&] { return w.server->wait_until_state(s); });
        }
        // primary views until the node has caught up
        bool primary()
        {
            bool first(true);
            do
            {
                long s(!first || sim.prog(2) ? ++vseq : vseq);
                first = false;
                if (view(wsrep::view::primary, s, 0)) return false;
            }
            while (st_in({ server_state::s_joiner, server_state::s_initialized, server_state::s_initializing }) && vseq < 6);
            return true;
        }
        void provider()
        {
            if (!w.c("sbi")) call("initialized", {}, {}, [&] { w.server->initialized(); return 0; });
            if (call("connect", {}, {}, [&] { return w.server->connect("c", "local", "", false) != 0; })) { over = true; return; }
            conn = true;
            do
            {
                call("on_connect", { 5 }, {}, [&] { w.server->on_connect(w.view(wsrep::view::primary, 5, vs, { "1", "2" }, 0)); return 0; });
                up = true;
                bool ok(true);
                int k(sim.prog(w.c("sbi") && !w.c("noseed") ? 3 : 2));
                if (k == 1)
                {
                    call("prepare_for_sst", {}, {}, [&] { w.server->prepare_for_sst(); return 0; });
                    sstreq = true;
                    sim.block([this] { return sstdone; });
                    sstreq = sstdone = false;
                    ok = !sstret;
                }
                else if (k == 2 && !synced) { sync(); synced = true; }
                ok = ok && primary();
                for (long i = 0; ok && i < w.c("evs", 2); ++i) ok = event();
                if (!discd) disconnect();
                donor = false;
                view(sim.prog(2) ? wsrep::view::disconnected : wsrep::view::non_primary, -1, -1);
                discd = false;
                vseq = 4;
            }
            while (++life <= w.c("lives", 0) && w.c("disc") == 0);
            over = true;
        }
        bool synced = false, conn = false;
        long life = 0;
        bool event()
        {
            switch (sim.prog(4))
            {
            case 0: if (!donor && st_in({ server_state::s_joined, server_state::s_synced })) { sync(); synced = true; } return true;
            case 1: return !st_in({ server_state::s_joined, server_state::s_synced, server_state::s_donor }) || view(wsrep::view::primary, ++vseq, 0) == 0;
            case 2:
                if (!st_in({ server_state::s_joined, server_state::s_synced, server_state::s_donor })) return true;
                view(wsrep::view::non_primary, vseq, 0);
                return primary();
            case 3:
                if (donor || !st_in({ server_state::s_joined, server_state::s_synced })) return true;
                {
                    bool bypass(w.c("bypass") && sim.prog(2));
                    if (!call("start_sst", { bypass }, {}, [&] { return w.server->start_sst("r", gtid(w.group, seqno(6)), bypass); })) donor = true;
                }
                return true;
            }
            return true;
        }
        void initializer()
        {
            while (wait(server_state::s_initializing))
            {
                sim.block([this] { return over || st() != server_state::s_disconnecting; });
                if (over) return;
            }
            call("initialized", {}, {}, [&] { w.server->initialized(); return 0; });
        }
        void sst()
        {
            for (;;)
            {
                sim.block([this] { return sstreq; });
                Busy b(sim);
                int err(w.pick("f_ssterr", { 0, 1 }));
                Session* s(w.sessions["sst"]);
                sstret = call("sst_received", { err }, {}, [&] { return w.server->sst_received(s->svc, err); });
                sstreq = false;
                sstret = sstret || err;
                sstdone = true;
            }
        }
        void sender()
        {
            for (;;)
            {
                sim.block([this] { return donor; });
                Busy b(sim);
                int err(w.pick("f_ssterr", { 0, 1 }));
                call("sst_sent", { err }, {}, [&] { w.server->sst_sent(gtid(w.group, seqno(6)), err); return 0; });
                donor = false;
            }
        }
        void waiter()
        {
            static const enum server_state::state t[] = { server_state::s_joined, server_state::s_synced, server_state::s_connected,
                server_state::s_disconnected, server_state::s_donor, server_state::s_initialized, server_state::s_joiner, server_state::s_initializing, server_state::s_disconnecting };
            wait(t[sim.prog((int)w.c("targets", 4))]);
        }
    };
    // a status reporter which is told the announced states
    struct Watch
    {
        co_mutex mx; std::string dir; std::unique_ptr<reporter> r;
        Watch() 
        {
            const char* t(getenv("VH_SCRATCH"));
            dir = std::string(t ? t : "/tmp") + "/vh-srv." + std::to_string(getpid());
            mx.quiet = true;
            mkdir(dir.c_str(), 0700); r.reset(new reporter(mx, dir + "/report", 2));
        }
        ~Watch() { r.reset(); ::unlink((dir + "/report").c_str()); rmdir(dir.c_str()); }
    };
    void server_suite(World& w, Sim& sim)
    {
        if (w.c("rep"))
        {
            Watch* k(sim.keep(new Watch()));
            w.on_state = [k](enum server_state::state s) { k->r->report_state(s); };
        }
        Node* n(sim.keep(new Node(w)));
        { Quiet q(w); n->h = new Hps(w, "a"); }
        n->h->quiet = true;
        w.session("sst", 77, client_state::m_local, false);
        w.cfg["srvseg"] = 1;
        w.logging = true;
        sim.spawn("p", [n] { n->provider(); });
        sim.spawn("x", [n] { n->sst(); }, true, [n] { return n->sstreq; });
        sim.spawn("y", [n] { n->sender(); }, true, [n] { return n->donor; });
        if (w.c("sbi")) sim.spawn("m", [n] { n->initializer(); }, true);
        for (long i = 0; i < w.c("waiters", 1); ++i) sim.spawn("w" + std::to_string(i + 1), [n] { n->waiter(); }, true);
        if (w.c("disc")) sim.spawn("d", [n] { if (!n->over) n->disconnect(); }, true, [n] { return n->up || (n->w.c("early") && n->conn); });
    }
}
