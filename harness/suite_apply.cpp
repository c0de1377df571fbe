// An applier thread receiving write sets, views and reconnections
// (Apply.tla).  The high priority services behave like a DBMS: they run
// real high priority client states through start, commit and rollback.
#include "world.hpp"
using namespace wsrep;
namespace vh
{
    struct Frags { std::map<std::pair<long, long>, std::vector<long>> f; std::map<std::string, Session*> live; };
    struct RHps : Hps
    {
        Frags& fr;
        bool broken = false;
        RHps(World& w_, const std::string& n, Frags& f) : Hps(w_, n), fr(f) { fr.live[n] = s; w.by_cs[&s->cs] = s; }
        ~RHps() override { fr.live.erase(name); w.by_cs.erase(&s->cs); }
        // an operation in a wrong execution context shows in the name
        std::string nm() const { return w.ctx == name ? name : name + "!" + w.ctx; }
        void st()
        {
            const wsrep::transaction& t(s->tx());
            w.log("hp", "st", { t.active() ? long(t.id().get()) : 0, t.certified(),
                t.ws_meta().seqno().is_undefined() ? 0 : long(t.ws_meta().seqno().get()),
                (long)t.streaming_context().fragments_certified(), (long)t.streaming_context().fragments().size() },
                { name, s->ts() });
        }
        int ask2(const char* f, std::vector<long> a, bool can_fail = true, bool any_ctx = false)
        {
            int r(can_fail ? w.pick("f_hps", { 0, 1 }) : 0);
            a.push_back(r);
            w.log("cb", f, a, { any_ctx ? name : nm() });
            return r;
        }
        static long sid(const ws_meta& m) { return m.server_id().is_undefined() ? 0 : atol(((const char*)m.server_id().data())); }
        static std::vector<long> mt(const ws_handle& h, const ws_meta& m)
        {
            return { h.transaction_id().is_undefined() ? 0 : long(h.transaction_id().get()), h.opaque() ? long(h.opaque()) : 0,
                     sid(m), m.transaction_id().is_undefined() ? 0 : long(m.transaction_id().get()),
                     m.seqno().is_undefined() ? 0 : long(m.seqno().get()) };
        }
        int start_transaction(const ws_handle& h, const ws_meta& m) override
        {
            if (ask2("h.start", mt(h, m), started || name == "a", true)) return 1;
            started = true;
            s->cs.store_globals();
            int r(s->cs.start_transaction(h, m));
            st();
            return r;
        }
        int next_fragment(const ws_meta& m) override
        {
            ask2("h.next", mt(ws_handle(), m), false, true);
            s->cs.store_globals();
            s->cs.next_fragment(m);
            st();
            return 0;
        }
        int adopt_transaction(const wsrep::transaction& t) override
        {
            bool prepared(t.state() == transaction::s_prepared);
            if (ask2("h.adopt", { long(t.id().get()), (long)t.streaming_context().fragments().size(), prepared })) return 1;
            s->cs.store_globals();
            s->cs.adopt_transaction(t);
            if (prepared) s->cs.restore_xid(t.xid());
            st();
            return 0;
        }
        int apply_write_set(const ws_meta& m, const const_buffer& d, mutable_buffer& err) override
        {
            int r(w.pick("f_apply", { 0, 1, 2 }));
            std::vector<long> a(mt(ws_handle(), m));
            a.push_back(m.flags()); a.push_back((long)d.size()); a.push_back(r);
            w.log("cb", "h.apply", a, { nm() });
            if (r == 1) { const char e[] = "err"; err.push_back(e, e + 3); }
            if (r) return 1;
            s->cs.store_globals();
            if (!(m.flags() & provider::flag::commit)) s->cs.fragment_applied(m.seqno());
            if (m.flags() & provider::flag::prepare)
            {
                s->cs.assign_xid(wsrep::xid(1, 3, 1, "xid"));
                if (s->cs.before_prepare() || s->cs.after_prepare()) return 1;
            }
            st();
            return 0;
        }
        int do_commit(const ws_handle& h, const ws_meta& m)
        {
            s->cs.store_globals();
            if (!s->tx().active()) return 0;
            s->cs.prepare_for_ordering(h, m, true);
            int r(0);
            if (m.seqno().is_undefined()) { s->cs.before_rollback(); s->cs.after_rollback(); }
            else
            {
                if (w.c("hp2pc") && !s->tx().is_xa()) r = s->cs.before_prepare() || s->cs.after_prepare();
                r = r || s->cs.before_commit();
                if (!r && w.on_order) w.on_order();
                r = r || s->cs.ordered_commit() || s->cs.after_commit();
            }
            st();
            return r;
        }
        int append_fragment_and_commit(const ws_handle& h, const ws_meta& m, const const_buffer& d, const xid& x) override
        {
            std::vector<long> a(mt(h, m));
            a.push_back(m.flags()); a.push_back((long)d.size()); a.push_back(!x.is_null());
            if (ask2("h.append", a)) return 1;
            s->cs.store_globals();
            s->cs.start_transaction(h, m);
            int r(do_commit(h, m));
            if (!r) fr.f[std::make_pair(sid(m), long(m.transaction_id().get()))].push_back(long(m.seqno().get()));
            return r;
        }
        int remove_fragments(const ws_meta& m) override
        {
            int r(ask2("h.rmf", mt(ws_handle(), m)));
            if (!r) fr.f.erase(std::make_pair(sid(m), long(m.transaction_id().get())));
            return r;
        }
        int commit(const ws_handle& h, const ws_meta& m) override
        {
            if (ask2("h.commit", mt(h, m))) return 1;
            return do_commit(h, m);
        }
        int rollback(const ws_handle& h, const ws_meta& m) override
        {
            if (ask2("h.rollback", mt(h, m), w.c("f_hrb"))) { broken = true; return 1; }
            s->cs.store_globals();
            if (!s->tx().active()) return 0;
            s->cs.prepare_for_ordering(h, m, false);
            int r(s->cs.before_rollback() || s->cs.after_rollback());
            st();
            return r;
        }
        int toi(const char* f, const ws_meta& m, mutable_buffer& err)
        {
            int r(w.pick("f_apply", { 0, 1, 2 }));
            std::vector<long> a(mt(ws_handle(), m));
            a.push_back(m.flags()); a.push_back(r);
            w.log("cb", f, a, { nm() });
            if (r == 1) { const char e[] = "err"; err.push_back(e, e + 3); }
            return r != 0;
        }
        int apply_toi(const ws_meta& m, const const_buffer&, mutable_buffer& err) override
        {
            s->cs.store_globals();
            s->cs.enter_toi_mode(m);
            int r(toi("h.toi", m, err));
            w.log("hp", "toi", { s->cs.mode() == client_state::m_toi, long(s->cs.toi_meta().seqno().get()) }, { name });
            s->cs.leave_toi_mode();
            w.log("hp", "toi", { s->cs.mode() == client_state::m_toi, s->cs.toi_meta().seqno().is_undefined() ? 0 : 1 }, { name });
            return r;
        }
        int apply_nbo_begin(const ws_meta& m, const const_buffer&, mutable_buffer& err) override { return toi("h.nbo", m, err); }
        void after_apply() override
        {
            w.log("cb", "h.after", {}, { nm() });
            if (broken) return; // could not be rolled back: the node is about to stop
            s->cs.store_globals();
            s->cs.after_applying();
            st();
        }
        int log_dummy_write_set(const ws_handle& h, const ws_meta& m, mutable_buffer& e) override
        {
            std::vector<long> a(mt(h, m));
            a.push_back((long)e.size());
            return ask2("h.dummy", a);
        }
        void adopt_apply_error(mutable_buffer& e) override
        {
            w.log("cb", "h.err", { (long)e.size() }, { nm() });
            s->cs.adopt_apply_error(e);
        }
    };

    struct Applier
    {
        World& w; Sim& sim; Frags& fr;
        RHps* a;
        long seq = 10, fresh = 40;
        std::map<long, int> started; // by transaction: 1 started, 2 prepared, 3 ended
        std::vector<std::string> members;
        Applier(World& w_, Frags& f, RHps* a_) : w(w_), sim(w_.sim), fr(f), a(a_) { members = { "1", "2", "3" }; }
        int apply(long sid, long tid, int flags)
        {
            ++seq;
            long op(5000 + seq);
            w.provider->trx[tid].opaque = op;
            ws_handle h(transaction_id((unsigned long long)tid), (void*)op);
            ws_meta m(gtid(w.group, seqno(seq)), stid(id(std::to_string(sid)), transaction_id((unsigned long long)tid), client_id(9)),
                      seqno(seq - 1), flags);
            w.log("call", "on_apply", { flags, sid, tid, seq });
            static const char d[] = "data";
            int r(w.server->on_apply(*a, h, m, const_buffer(d, 4)));
            w.log("ret", "on_apply", { r });
            if (r) sim.stop(); // the node is inconsistent
            return r;
        }
        std::vector<long> mem() const { std::vector<long> r; for (auto& x : members) r.push_back(atol(x.c_str())); return r; }
        void view(enum wsrep::view::status st, int own)
        {
            std::vector<long> m(mem());
            m.insert(m.begin(), own);
            wsrep::view v(w.view(st, seq, ++vs, members, own));
            w.log("call", "on_view", m, { st == wsrep::view::primary ? "primary" : st == wsrep::view::non_primary ? "non" : "disc" });
            w.server->on_view(v, a);
            w.log("ret", "on_view");
        }
        long vs = 1;
        void step()
        {
            std::vector<int> o;
            long menu(w.c("menu", 0x7fff));
            for (int i = 0; i < 20; ++i)
            {
                if (!(menu & (1 << i))) continue;
                o.push_back(i);
            }
            int k(o[(size_t)sim.prog((int)o.size())]);
            long tid(w.c("two") && sim.prog(2) ? 31 : 21), sid(tid / 10);
            int& stt(started[tid]);
            static const int fl[] = { 3, 1, 0, 2, 4, 16, 128, 11, 9, 10, 5, 18, 0, 0, 0, 0,
                                      512, 528, 513, 530 };
            switch (k)
            {
            case 0: { long f(++fresh); apply(2, f, 3); break; }
            case 1: if (stt) return; stt = 1; apply(sid, tid, 1); break;
            case 18: if (stt) return; stt = 1; apply(sid, tid, fl[k]); break;
            case 2: case 5: case 16: case 17: if (stt > 1) return; apply(sid, tid, fl[k]); break;
            case 6: if (stt > 1) return; stt = 2; apply(sid, tid, fl[k]); break;
            case 3: case 4: case 11: case 19: if (stt > 2) return; stt = 3; apply(sid, tid, fl[k]); break;
            case 7: case 8: case 9: apply(2, 0, fl[k]); break;
            case 10: apply(2, ++fresh, 5); break;
            case 12: // a node leaves
                if (members.size() < 2) return;
                members.pop_back();
                view(wsrep::view::primary, 0);
                break;
            case 13: // partition: non-primary, then the same primary view again
                view(wsrep::view::non_primary, 0);
                view(wsrep::view::primary, 0);
                break;
            case 15: // brute force abort of a streaming applier
            {
                Hps* h(static_cast<Hps*>(w.server->find_streaming_applier(id(std::to_string(sid)), transaction_id((unsigned long long)tid))));
                if (!h || stt != 1) return;
                w.provider->trx[tid].entered = false;
                if (!h->s->bf_abort(sim.prog(2), 100)) return;
                std::string save(w.ctx);
                w.ctx = h->name;
                h->rollback(ws_handle(), ws_meta());
                h->after_apply();
                w.ctx = save;
                w.ssvc.release_high_priority_service(h);
                break;
            }
            case 14: // leave the group and come back, possibly with state transfer
            {
                w.log("call", "disconnect");
                w.server->disconnect();
                w.log("ret", "disconnect");
                auto keep(members);
                members.clear();
                view(sim.prog(2) ? wsrep::view::disconnected : wsrep::view::non_primary, -1);
                members = keep;
                if (sim.prog(2) && members.size() > 2) members.pop_back();
                w.server->connect("c", "local", "", false);
                w.server->on_connect(w.view(wsrep::view::primary, seq, vs, members, 0));
                if (sim.prog(2))
                {
                    w.server->prepare_for_sst();
                    Session* s(w.sessions["sst"]);
                    w.log("call", "sst_received");
                    w.server->sst_received(s->svc, 0);
                    w.log("ret", "sst_received");
                }
                view(wsrep::view::primary, 0);
                break;
            }
            }
        }
        void run() { for (long i = 0; i < w.c("ops", 3); ++i) step(); }
    };

    void apply_suite(World& w, Sim& sim)
    {
        World* wp(&w);
        Frags* fr(sim.keep(new Frags));
        w.make_hps = [wp, fr](const std::string& n) { return new RHps(*wp, n, *fr); };
        w.bring_up();
        w.session("sst", 77, client_state::m_local, false);
        RHps* a(new RHps(w, "a", *fr));
        w.hps_count = 0;
        w.recover_impl = [wp, fr]() {
            // the DBMS recovers what its streaming log holds
            for (auto& f : fr->f)
            {
                Hps* h(static_cast<Hps*>(wp->ssvc.streaming_applier_service(*(high_priority_service*)nullptr)));
                std::string save(wp->ctx);
                h->store_globals();
                ws_meta m(gtid(wp->group, seqno(f.second[0])), stid(id(std::to_string(f.first.first)),
                          transaction_id((unsigned long long)f.first.second), client_id()), seqno(f.second[0] - 1), 1);
                static_cast<RHps*>(h)->start_transaction(ws_handle(transaction_id((unsigned long long)f.first.second), (void*)1), m);
                for (long s : f.second) h->s->cs.fragment_applied(seqno(s));
                h->after_apply();
                wp->server->start_streaming_applier(id(std::to_string(f.first.first)), transaction_id((unsigned long long)f.first.second), h);
                wp->ctx = save;
            }
        };
        w.on_removed = [fr](long tid) {
            for (auto i(fr->f.begin()); i != fr->f.end();) if (i->first.second == tid) i = fr->f.erase(i); else ++i;
        };
        w.background_impl = [](unique_lock<mutex>&, Session&) { };
        if (w.c("bfp")) w.on_order = [wp, fr]() {
            Session* s(fr->live[wp->ctx]);
            if (s->tx().is_streaming() && wp->sim.prog(2)) s->bf_abort(false, 100);
        };
        w.ctx = "a";
        w.cfg["hp"] = 1;
        w.logging = true;
        sim.spawn("a", [wp, fr, a]() { Applier p(*wp, *fr, a); p.run(); });
    }
}
