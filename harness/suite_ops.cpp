// Pausing and desyncing the node (Pause.tla), total order isolation,
// non-blocking operations and causal reads of a session (Toi.tla).
#include "world.hpp"
using namespace wsrep;

extern "C" long vh_virtual_us; // virtual clock, see core.cpp
namespace vh
{
    // ------------------------------------------------------------- pause
    struct User
    {
        World& w; Sim& sim; Session* s; std::vector<Coro*>& all;
        long call(const char* f, std::function<long()> g)
        {
            w.log("call", f);
            long r(0);
            try { r = g(); } catch (const wsrep::runtime_error&) { r = 99; }
            w.log("ret", f, { r, w.server->desynced_on_pause() }, { to_c_string(s->cs.mode()) });
            return r;
        }
        static long sn(const seqno& q) { return q.is_undefined() ? 0 : (long)q.get(); }
        long pause() { return call("pause", [&] { return sn(w.server->pause()); }); }
        // while the provider could not be resumed others may wait for ever
        void lost() { for (Coro* c : all) c->background = true; }
        void resume() { if (call("resume", [&] { w.server->resume(); return 0; })) lost(); }
        long desync() { return call("desync", [&] { return w.server->desync(); }); }
        void resync() { call("resync", [&] { w.server->resync(); return 0; }); }
        void run()
        {
            // (a node whose provider cannot be resumed has to be restarted)
            for (long i = 0; i < w.c("ops", 1) && !all[0]->background; ++i)
            {
                long m(w.c("menu", 31)); std::vector<int> k;
                for (int b = 0; b < 5; ++b) if (m & (1 << b)) k.push_back(b);
                switch (k[(size_t)sim.prog((int)k.size())])
                {
                case 0: if (pause()) resume(); break;
                case 1: if (!desync()) resync(); break;
                case 2:
                    if (call("desync_and_pause", [&] { return sn(w.server->desync_and_pause()); }) % 99)
                    {
                        call("resume_and_resync", [&] { w.server->resume_and_resync(); return 0; });
                        if (!w.server->pause_seqno().is_undefined()) lost();
                    }
                    break;
                case 3:
                    if (!call("begin_rsu", [&] { return s->cs.begin_rsu(1); }))
                        if (call("end_rsu", [&] { return s->cs.end_rsu(); })) lost();
                    break;
                case 4:
                    if (!desync())
                    {
                        if (pause()) resume();
                        resync();
                    }
                    break;
                }
            }
        }
    };
    void pause_suite(World& w, Sim& sim)
    {
        w.bring_up();
        w.smx.on_unlock = nullptr;
        World* wp(&w);
        auto all(sim.keep(new std::vector<Coro*>));
        std::vector<Session*> ss;
        for (long i = 0; i < w.c("users", 2); ++i)
        {
            std::string n("u" + std::to_string(i + 1));
            Session* s(w.session(n, i + 1, client_state::m_local, false));
            ss.push_back(s);
            s->cs.open(client_id((unsigned long long)s->cid));
            s->cs.before_command();
        }
        w.logging = true;
        for (Session* s : ss)
            all->push_back(sim.spawn(s->name, [wp, s, all]() { User u{ *wp, wp->sim, s, *all }; u.run(); }));
    }

    // --------------------------------------------------------------- toi
    struct Toi
    {
        World& w; Sim& sim; Session& s; Session& h;
        bool deadline;
        static long sn(const seqno& q) { return q.is_undefined() ? 0 : (long)q.get(); }
        int call(Session& x, const char* f, std::vector<long> a, std::function<int()> g)
        {
            w.log("call", f, a, { x.name });
            int r(g());
            const client_state& c(x.cs);
            w.log("ret", f, { r, c.in_toi(), sn(c.toi_meta().seqno()), sn(c.last_written_gtid().seqno()), sn(c.sync_wait_gtid().seqno()) },
                  { to_c_string(c.mode()), to_c_string(c.toi_mode()), ename(c.current_error()), pname(c.current_error_status()) });
            return r;
        }
        std::chrono::time_point<wsrep::clock> until()
        {
            vh_virtual_us += 1000000;
            w.toi_deadline = deadline = sim.prog(2); w.toi_tries = 0;
            return deadline ? wsrep::clock::now() + std::chrono::seconds(1000) : std::chrono::time_point<wsrep::clock>();
        }
        key_array keys() { key k(key::exclusive); k.append_key_part("c", 1); k.append_key_part("1", 1); return key_array(1, k); }
        mutable_buffer err() { mutable_buffer b; if (sim.prog(2)) b.push_back("e", "e" + 1); return b; }
        void toi()
        {
            auto t(until());
            if (!call(s, "enter_toi", { deadline }, [&] { return s.cs.enter_toi_local(keys(), const_buffer("q", 1), t); }))
            {
                mutable_buffer e(err());
                call(s, "leave_toi", { (long)e.size() }, [&] { return s.cs.leave_toi_local(e); });
            }
        }
        void phase2()
        {
            auto t(until());
            if (!call(s, "nbo_begin2", { deadline }, [&] { return s.cs.begin_nbo_phase_two(keys(), t); }))
            {
                mutable_buffer e(err());
                call(s, "nbo_end2", { (long)e.size() }, [&] { return s.cs.end_nbo_phase_two(e); });
            }
        }
        void run()
        {
            for (long i = 0; i < w.c("ops", 2); ++i)
            {
                long m(w.c("menu", 63)); std::vector<int> k;
                for (int b = 0; b < 8; ++b) if (m & (1 << b)) k.push_back(b);
                if (i && sim.prog(2)) break;
                call(s, "command", {}, [&] { return s.cs.before_command(); });
                switch (k[(size_t)sim.prog((int)k.size())])
                {
                case 0: toi(); break;
                case 1:
                {
                    auto t(until());
                    if (!call(s, "nbo_begin1", { deadline }, [&] { return s.cs.begin_nbo_phase_one(keys(), const_buffer("q", 1), t); }))
                    {
                        mutable_buffer e(err());
                        call(s, "nbo_end1", { (long)e.size() }, [&] { return s.cs.end_nbo_phase_one(e); });
                        phase2();
                    }
                    break;
                }
                case 2: // the applying side of a non-blocking operation
                    w.provider->last_seqno++;
                    call(s, "nbo_mode", { w.provider->last_seqno }, [&] {
                        return s.cs.enter_nbo_mode(ws_meta(gtid(w.group, seqno(w.provider->last_seqno)),
                                                           stid(id("x"), transaction_id(3), client_id(3)), seqno(0), provider::flag::start_transaction | provider::flag::isolation)); });
                    phase2();
                    break;
                case 3: // an applier applies a total order isolated operation
                {
                    long q(++w.provider->last_seqno);
                    call(h, "hp_enter", { q }, [&] {
                        h.cs.enter_toi_mode(ws_meta(gtid(w.group, seqno(q)), stid(id("x"), transaction_id(3), client_id(3)), seqno(0), 0)); return 0; });
                    call(h, "hp_leave", {}, [&] { h.cs.leave_toi_mode(); return 0; });
                    break;
                }
                case 4: call(s, "sync_wait", { 7 }, [&] { return s.cs.sync_wait(7); }); break;
                case 5: // an ordinary transaction in between
                {
                    long q(w.provider->last_seqno + 1);
                    call(s, "trx", { q }, [&] {
                        Quiet z(w); w.toi_intr = false;
                        s.cs.before_statement();
                        s.cs.start_transaction(transaction_id((unsigned long long)(50 + i)));
                        key k(key::exclusive); k.append_key_part("c", 1); k.append_key_part("1", 1);
                        int r(s.cs.append_key(k) || s.cs.before_commit() || s.cs.ordered_commit() || s.cs.after_commit());
                        s.cs.after_statement();
                        return r; });
                    break;
                }
                case 7: // reads in a transaction which goes on over commands
                    call(s, "begin", {}, [&] {
                        Quiet z(w);
                        return s.cs.before_statement() || s.cs.start_transaction(transaction_id((unsigned long long)(50 + i))); });
                    call(s, "sync_wait", { 7 }, [&] { return s.cs.sync_wait(7); });
                    if (sim.prog(2)) call(s, "sync_wait", { 7 }, [&] { return s.cs.sync_wait(7); });
                    call(s, "result", {}, [&] { s.cs.after_statement(); s.cs.after_command_before_result(); return 0; });
                    call(s, "finish", {}, [&] { s.cs.after_command_after_result(); return 0; });
                    call(s, "command", {}, [&] { return s.cs.before_command(); });
                    if (sim.prog(2)) call(s, "sync_wait", { 7 }, [&] { return s.cs.sync_wait(7); });
                    call(s, "end", {}, [&] {
                        Quiet z(w);
                        return s.cs.before_statement() || s.cs.before_rollback() || s.cs.after_rollback() || s.cs.after_statement(); });
                    break;
                case 6:
                    call(s, "reopen", {}, [&] {
                        s.cs.after_command_before_result(); s.cs.after_command_after_result();
                        s.cs.close(); s.cs.cleanup(); s.cs.open(client_id(1)); return s.cs.before_command(); });
                    break;
                }
                call(s, "result", {}, [&] { s.cs.after_command_before_result(); return 0; });
                call(s, "finish", {}, [&] { s.cs.after_command_after_result(); return 0; });
            }
        }
    };
    void toi_suite(World& w, Sim& sim)
    {
        w.bring_up();
        vh_virtual_us = 1000000;
        Session* s(w.session("s1", 1, client_state::m_local, false));
        Session* h(w.session("h1", 9, client_state::m_high_priority, false));
        for (Session* x : { s, h }) x->cs.open(client_id((unsigned long long)x->cid));
        h->cs.before_command();
        World* wp(&w);
        w.toi_late = [] { vh_virtual_us += 2000000000L; };
        w.logging = true;
        w.provider->last_seqno = 10;
        sim.spawn("s1", [wp, s, h]() { Toi t{ *wp, wp->sim, *s, *h, false }; t.run(); });
    }
}
