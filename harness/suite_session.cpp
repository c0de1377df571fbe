// Sessions running transactions against conflict aborts, background
// rollbacks, streaming and external transactions (Session.tla).
#include "world.hpp"
using namespace wsrep;
namespace vh
{
    struct Prog
    {
        World& w; Sim& sim; Session& s;
        long& next_trx;
        Prog(World& w_, Session& s_, long& next) : w(w_), sim(w_.sim), s(s_), next_trx(next) { }
        bool in(std::initializer_list<const char*> l) const
        { for (auto x : l) if (s.ts() == x) return true; return false; }

        // consecutive transactions use different keys
        int key(long r) const { return int(r % 3) + 1 + 3 * int(((long)s.tx().id().get() % 2)); }
        // between two calls of the client anybody else may go on
        void pause() { if (w.c("coarse")) sim.offer(); else sim.yield(); }
        void rollback() { s.before_rollback(); s.after_rollback(); }
        // the DBMS may roll back right away or leave it to after_statement
        void on_error()
        {
            if (!s.tx().active()) return;
            if (in({ "must_abort", "cert_failed", "must_replay" })) { if (sim.prog(2)) rollback(); }
            else if (in({ "executing", "preparing", "aborting" })) rollback();
        }
        // the DBMS may notice the abort before it calls the library again
        bool noticed()
        {
            if (!w.c("kill")) return false;
            pause();
            if (!in({ "must_abort" }) || !sim.prog(2)) return false;
            rollback();
            return true;
        }
        // settings changed in the middle of a transaction
        void settings()
        {
            std::vector<std::pair<const char*, std::vector<long> > > o;
            long m(w.c("cfg"));
            if (m & 1) o.push_back({ "pa_unsafe", {} });
            if (m & 2) o.push_back({ "implicit_deps", {} });
            if (m & 4) o.push_back({ "sr_off", {} });
            if (m & 8) o.push_back({ "sr_params", { w.c("unit2"), w.c("size2", 2) } });
            if (m & 16) o.push_back({ "enable_sr", { w.c("unit2"), w.c("size2", 2) } });
            int i(sim.prog((int)o.size() + 1));
            if (!i) return;
            auto c(o[(size_t)i - 1]);
            std::string f(c.first);
            s.api(c.first, c.second, [&] {
                if (f == "pa_unsafe") s.cs.mark_transaction_pa_unsafe();
                else if (f == "implicit_deps") const_cast<wsrep::transaction&>(s.cs.transaction()).implicit_deps(true);
                else if (f == "sr_off") s.cs.disable_streaming();
                else
                {
                    auto u((enum streaming_context::fragment_unit)c.second[0]);
                    size_t z((size_t)c.second[1]);
                    if (f == "sr_params") s.cs.streaming_params(u, z);
                    else return s.cs.enable_streaming(u, z);
                }
                return 0; });
        }
        int commit(bool twopc)
        {
            int err(0);
            if (twopc)
            {
                err = s.before_prepare();
                if (!err && noticed()) return 1;
                err = err || s.after_prepare();
                if (!err && noticed()) return 1;
            }
            err = err || s.before_commit();
            if (!err && w.c("yield_commit", 1)) pause();
            err = err || s.ordered_commit();
            err = err || s.after_commit();
            if (err) on_error();
            return err;
        }
        // ------------------------------------------- external transactions
        static wsrep::xid xid_of(long t) { std::string n(std::to_string(t)); return wsrep::xid(1, (long)n.size(), 0, n.c_str()); }
        void xaf(bool e, bool p, bool r)
        {
            s.api("xaf", { e, p, r }, [&] { s.xa_explicit = e; s.xa_prepared = p; s.xa_rollback = r; return 0; });
        }
        bool flagged() const { return s.xa_explicit || s.xa_prepared || s.xa_rollback; }
        void xa_error()
        {
            if (!s.tx().active()) return;
            if (!s.xa_prepared && in({ "must_abort", "cert_failed", "must_replay" })) { if (sim.prog(2)) rollback(); }
            else if (in({ "executing", "preparing", "aborting" })) rollback();
        }
        void xa_commit()
        {
            int err(s.before_commit());
            if (!err && w.c("yield_commit", 1)) pause();
            err = err || s.ordered_commit();
            err = err || s.after_commit();
            if (!err) { xaf(0, 0, 0); return; }
            if (!s.xa_prepared && in({ "prepared" })) { xaf(1, 1, 0); return; }
            xa_error();
        }
        void xa_rollback() { rollback(); xaf(0, 0, 1); }
        void xa_detach()
        {
            long t((long)s.tx().id().get());
            s.api("xa_detach", {}, [this] { s.cs.xa_detach(); return 0; });
            s.standby.insert(t);
            xaf(0, 0, 0);
        }
        void xa_body()
        {
            int err(0);
            if (!s.tx().active())
            {
                s.bytes = 0;
                if (w.c("maynot") && sim.prog(2)) return;
                if (s.start(next_trx++)) return;
                long mine((long)s.tx().id().get()), t(0);
                for (long i : s.standby) if (!t && w.server->find_streaming_applier(xid_of(i))) t = i;
                if (t && sim.prog(2)) t = 0;
                long x(t ? t : mine);
                s.api("assign_xid", { x }, [&] { s.cs.assign_xid(xid_of(x)); return 0; });
                if (t)
                {
                    pause();
                    bool rb(sim.prog(2));
                    err = s.api(rb ? "rollback_by_xid" : "commit_by_xid", { t }, [&] {
                        return rb ? s.cs.rollback_by_xid(xid_of(t)) : s.cs.commit_by_xid(xid_of(t)); });
                    if (!err) s.standby.erase(t);
                    else xa_error();
                    return;
                }
                xaf(1, 0, 0);
                if (w.c("unit", -1) >= 0)
                    s.api("enable_sr", { w.c("unit"), w.c("size", 1) }, [this] {
                        return s.cs.enable_streaming((enum streaming_context::fragment_unit)w.c("unit"), (size_t)w.c("size", 1)); });
            }
            if (s.xa_prepared)
            {
                pause();
                switch (sim.prog(3))
                {
                case 0: xa_commit(); break;
                case 1: xa_rollback(); break;
                case 2: xa_detach(); break;
                }
                return;
            }
            long maxrows(w.c("rows", 0));
            for (long r = 0; !err && r < maxrows; ++r)
            {
                if (!w.c("full") && sim.prog(2)) break;
                if (w.c("keys", 1)) err = s.append_key(key(r));
                pause();
                if (!err) err = s.after_row(1);
            }
            if (!err && maxrows == 0 && w.c("keys", 1)) err = s.append_key(key(0));
            if (err) { xa_error(); return; }
            pause();
            // prepare, one phase commit, leave open, roll back
            long menu(w.c("menu", 15));
            std::vector<int> o;
            for (int i = 0; i < 4; ++i) if (menu & (1 << i)) o.push_back(i);
            switch (o[(size_t)sim.prog((int)o.size())])
            {
            case 0:
                err = s.before_prepare();
                if (!err) { pause(); err = s.after_prepare(); }
                if (err) xa_error(); else xaf(1, 1, 0);
                break;
            case 1: xa_commit(); break;
            case 2: break;
            case 3: xa_rollback(); break;
            }
        }
        void xa_command()
        {
            int err(s.before_command(false));
            if (err && s.tx().active() && in({ "aborted" }))
            {
                // rolled back already, the client has to end it
                xaf(0, 0, 1);
                s.after_statement();
                if (!s.tx().active() && flagged()) xaf(0, 0, 0);
            }
            else if (!err)
            {
                if (!s.tx().active() && flagged()) xaf(0, 0, 0);
                err = s.before_statement();
                if (!err)
                {
                    xa_body();
                    s.after_statement();
                    if (!s.tx().active() && flagged()) xaf(0, 0, 0);
                }
            }
            s.before_result();
            pause();
            s.after_result();
        }
        // one statement body
        void body()
        {
            int err(0);
            if (!s.tx().active())
            {
                s.bytes = 0;
                if (w.c("maynot") && sim.prog(2)) return;
                if (s.start(next_trx++)) return;
                if (w.c("unit", -1) >= 0 && !w.c("late_sr"))
                    s.api("enable_sr", { w.c("unit"), w.c("size", 1) }, [this] {
                        return s.cs.enable_streaming((enum streaming_context::fragment_unit)w.c("unit"), (size_t)w.c("size", 1)); });
            }
            if (w.c("cfg")) settings();
            long maxrows(w.c("rows", 0));
            for (long r = 0; !err && r < maxrows; ++r)
            {
                if (!w.c("full") && sim.prog(2)) break;
                if (noticed()) return;
                if (w.c("keys", 1)) err = s.append_key(key(r));
                pause();
                if (!err) err = s.after_row((size_t)(w.c("zero") && sim.prog(2) ? 0 : 1 + sim.prog((int)w.c("nbytes", 1))));
            }
            if (!err && maxrows == 0 && w.c("keys", 1)) err = s.append_key(key(0));
            if (err) { on_error(); return; }
            if (noticed()) return;
            pause();
            // what next: leave open, commit 1pc, commit 2pc, rollback
            static const long menu_all = 15;
            long menu(w.c("menu", menu_all));
            std::vector<int> o;
            for (int i = 0; i < 4; ++i) if (menu & (1 << i)) o.push_back(i);
            switch (o[(size_t)sim.prog((int)o.size())])
            {
            case 0: commit(false); break;
            case 1: break;
            case 2: commit(true); break;
            case 3: rollback(); break;
            }
        }
        void command()
        {
            bool keep(w.c("keep") && sim.prog(2));
            int err(s.before_command(keep));
            if (!err && !keep)
            {
                err = s.before_statement();
                if (!err) body();
                s.after_statement();
            }
            s.before_result();
            pause();
            s.after_result();
        }
        // flush the queue of rollback events; who has a streaming applier?
        void probe()
        {
            if (!w.c("probe")) return;
            s.api("on_sync", {}, [this] { w.server->on_sync(); return 0; });
            s.api("probe", {}, [this] {
                int m(0);
                for (long i = 1; i < next_trx; ++i)
                    if (w.server->find_streaming_applier(w.own, transaction_id((unsigned long long)i))) m |= 1 << (i - 1);
                return m; });
        }
        void run()
        {
            for (long l = 0; l < w.c("lives", 1); ++l) life();
        }
        // the session may be used again after it was closed
        void life()
        {
            s.open();
            for (long i = 0; i < w.c("cmds", 2); ++i)
            {
                if (w.c("xa")) xa_command(); else command();
                pause();
                probe();
            }
            if (w.c("close", 1) || s.tx().active())
            {
                s.close();
                if (s.tx().active() && s.xa_prepared) { pause(); xa_detach(); }
                probe();
                s.cleanup();
            }
        }
    };

    static void rollbacker(World& w, Sim& sim)
    {
        for (;;)
        {
            sim.block([&w] { return !w.rollback_queue.empty(); });
            auto q(w.rollback_queue.front());
            w.rollback_queue.erase(w.rollback_queue.begin());
            Session& s(*q.first);
            sim.yield();
            s.api("acquire", {}, [&s] { s.cs.store_globals(); return 0; });
            if (s.ts() == "must_replay") s.api("xa_replay", {}, [&s] { s.cs.xa_replay(); return 0; });
            else { s.before_rollback(); s.after_rollback(); }
            s.api("rollback_complete", {}, [&s] { s.cs.sync_rollback_complete(); return 0; });
        }
    }

    static void session_suite(World& w, Sim& sim)
    {
        w.bring_up();
        std::vector<Session*> ss;
        for (long i = 1; i <= w.c("sess", 1); ++i) ss.push_back(w.session("s" + std::to_string(i), i, client_state::m_local, true));
        std::shared_ptr<long> next(new long(1));
        if (w.c("xrem"))
        {
            // a transaction of another node was prepared here
            Hps* h(new Hps(w, "hx"));
            --w.hps_count;
            std::string save(w.ctx);
            h->s->cs.store_globals();
            ws_meta m(gtid(w.group, seqno(1)), stid(id("2"), transaction_id(1), client_id(1)), seqno(0), 1);
            h->quiet = true;
            h->s->cs.start_transaction(ws_handle(transaction_id(1), (void*)1), m);
            h->s->cs.fragment_applied(seqno(1));
            h->s->cs.assign_xid(Prog::xid_of(1));
            h->s->cs.restore_xid(Prog::xid_of(1));
            h->s->cs.after_applying();
            w.ctx = save;
            w.server->start_streaming_applier(id("2"), transaction_id(1), h);
            for (Session* s : ss) s->standby.insert(1);
            *next = 2;
        }
        w.logging = true;
        if (w.c("coarse")) sim.preemption(false);
        World* wp(&w);
        for (Session* s : ss) sim.spawn(s->name, [wp, s, next]() { Prog p(*wp, *s, *next); p.run(); });
        for (long i = 0; i < w.c("bfs", 1); ++i)
            sim.spawn("b" + std::to_string(i + 1), [wp, ss]() {
                bool to(wp->c("to") == 2 || (wp->c("to") == 1 && wp->sim.prog(2)));
                ss[ss.size() > 1 ? (size_t)wp->sim.prog((int)ss.size()) : 0]->bf_abort(to, 100);
            });
        // a primary view of the same members: the group was partitioned
        if (w.c("view")) sim.spawn("v", [wp]() {
            World& q(*wp);
            Hps h(q, "v");
            --q.hps_count;
            q.log("call", "on_view", { 7 }, { "v" });
            q.server->on_view(q.view(wsrep::view::primary, 7, 7, { "1", "2" }, 0), &h);
            q.log("ret", "on_view", { 0 }, { "v" });
        });
        if (w.c("rollbacker", 1)) sim.spawn("r", [wp]() { rollbacker(*wp, wp->sim); }, true);
    }

    void apply_suite(World& w, Sim& sim);
    void server_suite(World& w, Sim& sim);
    void pause_suite(World& w, Sim& sim);
    void toi_suite(World& w, Sim& sim);
    void reporter_suite(World& w, Sim& sim);
    void cluster_suite(World& w, Sim& sim);
    Suite find_suite(const std::string& n)
    {
        if (n == "apply") return apply_suite;
        if (n == "server") return server_suite;
        if (n == "pause") return pause_suite;
        if (n == "reporter") return reporter_suite;
        if (n == "cluster") return cluster_suite;
        if (n == "toi") return toi_suite;
        if (n == "session") return session_suite;
        return nullptr;
    }
}
