#include "world.hpp"
#include "wsrep/logger.hpp"
#include "wsrep/key.hpp"

using namespace wsrep;
namespace vh
{
    static long sq(const wsrep::seqno& s) { return s.is_undefined() ? 0 : (long)s.get(); }
    static long tid(const wsrep::transaction_id& t) { return t.is_undefined() ? 0 : (long)t.get(); }

    // ------------------------------------------------------ provider
    int Provider::start_transaction(ws_handle& h)
    {
        long t(id(h));
        trx[t] = Trx();
        trx[t].opaque = t * 16 + 1;
        h = ws_handle(h.transaction_id(), (void*)trx[t].opaque);
        w.log("cb", "start", { t });
        return 0;
    }
    enum provider::status Provider::assign_read_view(ws_handle& h, const gtid*)
    {
        int r(w.pick("f_view", { success, error_not_allowed }));
        w.log("cb", "readview", { id(h), hok(h) }, { pname(r) });
        return (enum status)r;
    }
    int Provider::append_key(ws_handle& h, const key& k)
    {
        if (w.logging && !w.c("noykey", 1)) w.sim.yield();
        int r(w.pick("f_key", { 0, 1 }));
        long kn(0);
        if (k.size() > 1) kn = *(const char*)k.key_parts()[1].data() - '0';
        w.log("cb", "key", { id(h), kn, (long)k.type(), hok(h), r });
        return r;
    }
    enum provider::status Provider::append_data(ws_handle& h, const const_buffer& b)
    {
        int r(w.pick("f_data", { success, error_unknown }));
        w.log("cb", "data", { id(h), hok(h), (long)b.size() }, { pname(r) });
        return (enum status)r;
    }
    enum provider::status Provider::certify(client_id cid, ws_handle& h, int fl, ws_meta& m, const seq_cb_t* cb)
    {
        if (w.logging) w.sim.yield();
        long t(id(h));
        Trx& x(trx[t]);
        bool commit(fl & flag::commit);
        // a write set which ends another (prepared) transaction by its id
        long other(m.transaction_id().is_undefined() || tid(m.transaction_id()) == tid(h.transaction_id()) ? 0 : tid(m.transaction_id()));
        if (other && m.server_id() != (w.c("xrem") && other == 1 ? wsrep::id("2") : w.own)) other = -other;
        struct O { int st; bool ord; };
        std::vector<O> o;
        if (other)
        {
            if (x.bfed) o = { { error_bf_abort, false } };
            else o = { { success, true }, { error_bf_abort, false } };
        }
        else if (commit && w.c("xa"))
        {
            // the write set which commits a prepared transaction conflicts with nothing
            if (x.bfed) o = { { error_bf_abort, true } };
            else o = { { success, true }, { error_bf_abort, true } };
        }
        else if (x.bfed)
        {
            o = { { error_bf_abort, commit }, { error_certification_failed, false } };
            if (commit) o.push_back({ error_certification_failed, true });
        }
        else
        {
            o = { { success, true }, { error_certification_failed, false } };
            if (commit) o.push_back({ error_certification_failed, true });
            o.push_back({ error_bf_abort, commit });
        }
        for (int e : { error_connection_failed, error_size_exceeded, error_warning, error_transaction_missing,
                       error_provider_failed, error_fatal, error_not_implemented, error_not_allowed, error_unknown })
            if (w.c("f_cert", 1) > 1 || e == error_connection_failed || (e == error_size_exceeded && !(commit && w.c("xa")) && !other))
                o.push_back({ e, false });
        int i(0);
        if (w.logging && w.c("f_cert", 1)) i = w.sim.choose((int)o.size(), C_FAULT);
        long sn(0);
        if (o[(size_t)i].ord)
        {
            sn = ++last_seqno;
            x.seqno = sn;
            m = ws_meta(gtid(w.group, seqno(sn)), stid(w.own, h.transaction_id(), cid), seqno(sn - 1), fl);
        }
        if (!other) x.certok = o[(size_t)i].st == success && commit;
        w.log("cb", "certify", { t, fl, sn, hok(h), cb ? 1 : 0, other }, { pname(o[(size_t)i].st) });
        return (enum status)o[(size_t)i].st;
    }
    enum provider::status Provider::bf_abort(seqno bs, transaction_id v, client_service&, seqno& vs)
    {
        long t(tid(v));
        Trx& x(trx[t]);
        std::vector<int> o;
        if (x.entered) o = { error_not_allowed };
        else o = { success, error_not_allowed };
        int r(w.pick("f_bf", o));
        if (r == success) { x.bfed = true; vs = x.seqno ? seqno(x.seqno) : seqno::undefined(); }
        w.log("cb", "bf", { t, sq(bs) }, { pname(r) });
        return (enum status)r;
    }
    enum provider::status Provider::rollback(transaction_id v)
    {
        int r(w.pick("f_rbk", { success, error_connection_failed }));
        w.log("cb", "rbk", { tid(v) }, { pname(r) });
        return (enum status)r;
    }
    enum provider::status Provider::commit_order_enter(const ws_handle& h, const ws_meta& m)
    {
        if (w.logging) w.sim.yield();
        Trx& x(trx[id(h)]);
        int r(success);
        // A certified victim which was aborted before it got its turn is
        // told so, once; rolled back and replayed write sets pass.
        if (x.certok && !x.told)
        {
            if (x.bfed) r = error_bf_abort;
            else r = w.pick("f_coe", { success, error_bf_abort });
        }
        else if (w.c("hp") && !x.told && !(m.flags() & flag::isolation)) r = w.pick("f_hcoe", { success, error_bf_abort });
        if (w.on_order) { x.entered = true; w.on_order(); }
        if (r == success) x.entered = true; else x.told = true;
        w.log("cb", "coe", { id(h), sq(m.seqno()), hok(h) }, { pname(r) });
        return (enum status)r;
    }
    int Provider::commit_order_leave(const ws_handle& h, const ws_meta& m, const mutable_buffer& e)
    {
        int r(w.c("hp") ? w.pick("f_hcol", { 0, 1 }) : 0); // never fails for local transactions, see DESIGN.md
        w.log("cb", "col", { id(h), sq(m.seqno()), hok(h), (long)e.size(), r });
        return r;
    }
    int Provider::release(ws_handle& h)
    {
        int r(0);
        w.log("cb", "rel", { id(h), hok(h), r });
        return r;
    }
    enum provider::status Provider::enter_toi(client_id, const key_array& k, const const_buffer& b, ws_meta& m, int fl)
    {
        if (w.logging) w.sim.yield();
        struct O { int st; bool ord; };
        std::vector<O> o = { { success, true }, { error_certification_failed, false }, { error_certification_failed, true },
            { error_connection_failed, false }, { error_provider_failed, false }, { error_not_allowed, false },
            { error_unknown, false }, { error_size_exceeded, false } };
        int i(w.logging ? w.sim.choose((int)o.size(), C_FAULT, w.c("f_toi", 1) == 3) : 0);
        long in(sq(m.seqno())), late(!w.toi_deadline);
        if (w.toi_late)
        {
            // the deadline may pass, or the session be interrupted, meanwhile
            int r(w.sim.choose(w.toi_deadline ? 3 : 2, i ? C_PROG : C_FAULT, i != 0));
            if (i && ++w.toi_tries > 2 && !r) r = 1;
            w.toi_intr = r == 1;
            if (r == 2) { late = 1; w.toi_late(); }
        }
        long sn(0);
        if (o[(size_t)i].ord)
        {
            sn = ++last_seqno;
            m = ws_meta(gtid(w.group, seqno(sn)), stid(w.own, transaction_id::undefined(), client_id()), seqno(sn - 1), fl);
        }
        else m = ws_meta();
        w.log("cb", "enter_toi", { fl, in, sn, (long)k.size(), (long)b.size(), late, w.toi_intr }, { pname(o[(size_t)i].st) });
        return (enum status)o[(size_t)i].st;
    }
    enum provider::status Provider::leave_toi(client_id, const ws_meta& m, const mutable_buffer& e)
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_ltoi", { success, error_unknown }));
        w.log("cb", "leave_toi", { sq(m.seqno()), (long)e.size() }, { pname(r) });
        return (enum status)r;
    }
    std::pair<gtid, enum provider::status> Provider::causal_read(int timeout) const
    {
        int r(w.pick("f_causal", { success, error_not_implemented, error_transaction_missing, error_connection_failed }));
        gtid g(r == success ? gtid(w.group, seqno(last_seqno ? last_seqno : 1)) : gtid::undefined());
        w.log("cb", "causal", { timeout, sq(g.seqno()) }, { pname(r) });
        return std::make_pair(g, (enum status)r);
    }
    enum provider::status Provider::connect(const std::string&, const std::string&, const std::string&, bool b)
    {
        int r(w.pick("f_conn", { success, error_connection_failed }));
        w.log("cb", "connect", { b }, { pname(r) });
        return (enum status)r;
    }
    int Provider::disconnect()
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_disc", { 0, 1 }));
        w.log("cb", "disconnect", { r });
        return r;
    }
    int Provider::desync()
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_desync", { 0, 1 }));
        w.log("cb", "desync", { r });
        return r;
    }
    int Provider::resync()
    {
        int r(w.pick("f_resync", { 0, 1 }));
        w.log("cb", "resync", { r });
        return r;
    }
    wsrep::seqno Provider::pause()
    {
        w.log("cb", "pausing");
        if (w.logging) w.sim.yield();
        int r(w.pick("f_pause", { 0, 1 }));
        long s(r ? 0 : 7);
        w.log("cb", "pause", { s });
        return r ? seqno::undefined() : seqno(s);
    }
    int Provider::resume()
    {
        int r(w.pick("f_resume", { 0, 1 }));
        w.log("cb", "resume", { r });
        return r;
    }
    enum provider::status Provider::sst_sent(const gtid& g, int e)
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_sstsent", { success, error_unknown }));
        w.log("cb", "sst_sent", { sq(g.seqno()), e }, { pname(r) });
        return (enum status)r;
    }
    enum provider::status Provider::sst_received(const gtid& g, int e)
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_sstrcv", { success, error_unknown }));
        w.log("cb", "sst_received", { sq(g.seqno()), g.is_undefined() ? 0 : 1, e }, { pname(r) });
        return (enum status)r;
    }

    // ------------------------------------------------ client service
    bool ClientService::interrupted(unique_lock<mutex>&) const
    {
        if (w.toi_late) return w.toi_intr;
        int r(w.pick("f_int", { 0, 1 }));
        if (r) w.log("cb", "interrupted", {}, { s->name });
        return r;
    }
    int ClientService::prepare_data_for_replication()
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_pdata", { 0, 1 }));
        w.log("cb", "pdata", { r }, { s->name });
        return r;
    }
    void ClientService::cleanup_transaction() { s->cl++; }
    bool ClientService::statement_allowed_for_streaming() const
    {
        int r(w.pick("f_allow", { 0, 1 }));
        if (r) w.log("cb", "notallowed", {}, { s->name });
        return !r;
    }
    size_t ClientService::bytes_generated() const { return s->bytes; }
    int ClientService::prepare_fragment_for_replication(mutable_buffer& b, size_t& pos)
    {
        if (w.logging) w.sim.yield();
        int r(s->tx().is_xa() ? w.pick("f_pfrag", { 0, 1 }) : w.pick("f_pfrag", { 0, 1, 2 })); // ok, error, empty
        long lp((long)s->tx().streaming_context().log_position());
        long n((long)s->bytes - lp);
        if (n < 0) n = 0;
        if (n == 0 && s->tx().is_xa()) n = 1; // forced prepare fragment is never empty
        if (r == 2) n = 0;
        if (r != 1)
        {
            std::vector<char> d((size_t)n, 'x');
            b.push_back(d.data(), d.data() + d.size());
            pos = s->bytes;
        }
        w.log("cb", "pfrag", { r, n }, { s->name });
        return r == 1;
    }
    int ClientService::remove_fragments()
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_rmf", { 0, 1 }));
        w.log("cb", "rmf", { r }, { s->name });
        return r;
    }
    int ClientService::bf_rollback()
    {
        w.log("cb", "bf_rollback", {}, { s->name });
        if (w.bf_rollback_impl) return w.bf_rollback_impl(*s);
        if (s->ts() == "aborted") return 0; // nothing left to roll back
        int r(s->before_rollback());
        if (!r) r = s->after_rollback();
        return r;
    }
    void ClientService::emergency_shutdown()
    {
        // the process is gone
        w.log("cb", "emergency", {}, { s->name });
        w.sim.stop();
    }
    void ClientService::will_replay() { s->wr++; }
    void ClientService::signal_replayed() { s->sr++; }
    enum provider::status ClientService::replay()
    {
        if (w.logging) w.sim.yield();
        if (w.replay_impl) return w.replay_impl(*s);
        int r(w.c("xa") ? w.pick("f_replay", { provider::success, provider::error_unknown, provider::error_connection_failed })
              : w.pick("f_replay", { provider::success, provider::error_certification_failed, provider::error_unknown, provider::error_connection_failed, provider::error_bf_abort, provider::error_transaction_missing }));
        w.log("cb", "replay", {}, { s->name, pname(r) });
        if (r == provider::success) s->xa_explicit = s->xa_prepared = false; // the external transaction is over
        return (pstat)r;
    }
    enum provider::status ClientService::replay_unordered()
    {
        if (w.logging) w.sim.yield();
        if (w.replay_unordered_impl) return w.replay_unordered_impl(*s);
        int r(w.pick("f_replay", { provider::success, provider::error_unknown, provider::error_connection_failed, provider::error_certification_failed }));
        w.log("cb", "replay_unordered", {}, { s->name, pname(r) });
        s->standby.insert(tid(s->tx().id()));
        return (pstat)r;
    }
    enum provider::status ClientService::commit_by_xid()
    {
        if (w.logging) w.sim.yield();
        if (w.commit_by_xid_impl) return w.commit_by_xid_impl(*s);
        int r(w.pick("f_cbx", { provider::success, provider::error_connection_failed }));
        w.log("cb", "commit_by_xid", {}, { s->name, pname(r) });
        if (r == provider::success) s->standby.erase(tid(s->tx().id()));
        return (pstat)r;
    }
    void ClientService::wait_for_replayers(unique_lock<mutex>& lock)
    {
        if (!w.logging || !w.c("wfr")) return;
        w.log("cb", "wfr", {}, { s->name });
        lock.unlock();
        w.sim.yield();
        lock.lock();
    }
    bool ClientService::is_explicit_xa() { return s->xa_explicit; }
    bool ClientService::is_prepared_xa() { return s->xa_prepared; }
    bool ClientService::is_xa_rollback() { return s->xa_rollback; }

    // ------------------------------------------------------- session
    Session::Session(World& w_, const std::string& n, long cid_, enum wsrep::client_state::mode m, bool lg)
        : w(w_), name(n), cid(cid_), mx(), cv(), svc(w_, this)
        , cs(mx, cv, *w_.server, svc, client_id((unsigned long long)cid_), m), logged(lg)
    {
        mx.name = "client";
        // The fields which the mutex protects and other threads act upon.
        if (logged) mx.on_unlock = [this]() {
            if (!w.logging) return;
            w.log("seg", name, { tx().active() ? tid(tx().id()) : 0, tx().bf_aborted() }, { name, ts(), to_c_string(cs.state()), to_c_string(cs.mode()) });
        };
        else mx.quiet = true;
    }
    std::vector<long> Session::pa() const
    {
        const transaction& t(tx());
        return { t.active() ? tid(t.id()) : 0, t.certified(), sq(t.ws_meta().seqno()),
                 (long)t.streaming_context().fragments_certified(), (long)t.streaming_context().fragments().size(),
                 (long)t.fragments_certified_for_statement(), t.bf_aborted(), wr, sr, cl };
    }
    std::vector<std::string> Session::ps() const
    {
        return { name, ts(), to_c_string(cs.state()), to_c_string(cs.mode()), ename(cs.current_error()),
                 pname(cs.current_error_status()) };
    }
    int Session::api(const char* f, std::vector<long> a, const std::function<int()>& fn)
    {
        if (!logged || !w.logging) return fn();
        w.log("call", f, std::move(a), { name });
        int r(fn());
        std::vector<long> p(pa());
        p.insert(p.begin(), r);
        p.push_back(tx().flags());
        p.push_back(sq(cs.last_written_gtid().seqno()));
        p.push_back((long)tx().streaming_context().log_position());
        p.push_back((long)tx().streaming_context().unit_counter());
        w.log("ret", f, p, ps());
        return r;
    }
    int Session::before_command(bool keep)
    {
        wr = sr = cl = 0;
        return api("before_command", { keep }, [this, keep] { return cs.before_command(keep); });
    }
    int Session::append_key(int k)
    {
        return api("append_key", { k }, [this, k] {
            wsrep::key key(wsrep::key::exclusive);
            static const char digits[] = "0123456789";
            key.append_key_part("t", 1);
            key.append_key_part(digits + k, 1);
            return cs.append_key(key);
        });
    }
    int Session::after_row(size_t n)
    {
        bytes += n;
        return api("after_row", { (long)n }, [this] { return cs.after_row(); });
    }
    int Session::bf_abort(bool to, long sn)
    {
        if (w.logging) w.log("call", to ? "to_bf_abort" : "bf_abort", { sn }, { name });
        int r(to ? cs.total_order_bf_abort(seqno(sn)) : cs.bf_abort(seqno(sn)));
        if (w.logging) w.log("ret", to ? "to_bf_abort" : "bf_abort", { r }, { name });
        return r;
    }

    // ------------------------------------------------------- storage
    int Storage::start_transaction(const ws_handle& h)
    {
        int r(w.pick("f_sto", { 0, 1 }));
        w.log("cb", "sto.start", { Provider::id(h), r });
        return r;
    }
    void Storage::adopt_transaction(const transaction& t) { adopted = tid(t.id()); w.log("cb", "sto.adopt", { adopted }); }
    int Storage::append_fragment(const id& sid, transaction_id t, int fl, const const_buffer& b, const xid& x)
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_sto", { 0, 1 }));
        w.log("cb", "sto.append", { tid(t), fl, (long)b.size(), sid == w.own, !x.is_null(), r });
        return r;
    }
    int Storage::update_fragment_meta(const ws_meta& m)
    {
        int r(w.pick("f_sto", { 0, 1 }));
        w.log("cb", "sto.meta", { tid(m.transaction_id()), sq(m.seqno()), r });
        return r;
    }
    int Storage::remove_fragments()
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_storm", { 0, 1 }));
        w.log("cb", "sto.rmf", { r });
        removed = !r;
        return r;
    }
    int Storage::commit(const ws_handle& h, const ws_meta& m)
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_sto", { 0, 1 }));
        w.log("cb", "sto.commit", { Provider::id(h), sq(m.seqno()), r });
        if (!r && removed && w.on_removed) w.on_removed(adopted);
        return r;
    }
    int Storage::rollback(const ws_handle& h, const ws_meta& m)
    {
        w.log("cb", "sto.rollback", { Provider::id(h), sq(m.seqno()) });
        return 0;
    }

    // ----------------------------------------------------------- hps
    Hps::Hps(World& w_, const std::string& n) : wsrep::high_priority_service(*w_.server), w(w_), name(n)
    {
        Quiet q(w);
        s = new Session(w, n, 1000 + (++w.hps_count), client_state::m_high_priority, false);
        s->cs.open(client_id((unsigned long long)s->cid));
        s->cs.before_command();
        w.hps.push_back(this);
    }
    Hps::~Hps()
    {
        Quiet q(w);
        w.hps.erase(std::find(w.hps.begin(), w.hps.end(), this));
        s->cs.store_globals();
        if (s->tx().active())
        {
            if (s->tx().state() != transaction::s_aborted && s->tx().state() != transaction::s_committed)
            {
                s->cs.before_rollback();
                s->cs.after_rollback();
            }
            s->cs.after_applying();
        }
        s->cs.after_command_before_result();
        s->cs.after_command_after_result();
        s->cs.close();
        s->cs.cleanup();
        w.by_cs.erase(&s->cs);
        delete s;
    }
    int Hps::ask(const char* f, std::vector<long> a, std::vector<std::string> ss, bool can_fail)
    {
        int r(can_fail ? w.pick("f_hps", { 0, 1 }) : 0);
        ss.insert(ss.begin(), name);
        if (can_fail) a.push_back(r);
        w.log("cb", f, a, ss);
        return r;
    }
    static std::vector<long> meta(const ws_handle& h, const ws_meta& m)
    { return { Provider::id(h), tid(m.transaction_id()), sq(m.seqno()) }; }
    int Hps::start_transaction(const ws_handle& h, const ws_meta& m)
    {
        if (ask("h.start", meta(h, m))) return 1;
        Quiet q(w); s->cs.store_globals();
        return s->cs.start_transaction(h, m);
    }
    int Hps::next_fragment(const ws_meta& m)
    {
        ask("h.next", { tid(m.transaction_id()), sq(m.seqno()) }, {}, false);
        Quiet q(w); s->cs.store_globals();
        return s->cs.next_fragment(m);
    }
    int Hps::adopt_transaction(const wsrep::transaction& t)
    {
        if (ask("h.adopt", { tid(t.id()), (long)t.streaming_context().fragments().size(), t.flags(), t.is_xa() })) return 1;
        Quiet q(w); s->cs.store_globals();
        s->cs.adopt_transaction(t);
        // the DBMS knows whether it was prepared
        bool prepared(false);
        for (auto& i : w.sessions) if (i.second->tx().id() == t.id()) prepared = prepared || i.second->xa_prepared;
        if (t.is_xa() && prepared) s->cs.restore_xid(t.xid());
        else if (t.is_xa()) s->cs.assign_xid(t.xid());
        return 0;
    }
    int Hps::apply_write_set(const ws_meta& m, const const_buffer&, mutable_buffer& err)
    {
        // 0 ok, 1 failed with error to vote on, 2 failed without
        int r(w.pick("f_apply", { 0, 1, 2 }));
        w.log("cb", "h.apply", { tid(m.transaction_id()), sq(m.seqno()), m.flags(), r }, { name });
        if (r == 1) { const char e[] = "err"; err.push_back(e, e + 3); }
        if (r) return 1;
        Quiet q(w); s->cs.store_globals();
        if (!(m.flags() & provider::flag::commit)) s->cs.fragment_applied(m.seqno());
        if (m.flags() & provider::flag::prepare)
        {
            s->cs.assign_xid(wsrep::xid(1, 3, 1, "xid"));
            if (s->cs.before_prepare() || s->cs.after_prepare()) return 1;
        }
        return 0;
    }
    int Hps::append_fragment_and_commit(const ws_handle& h, const ws_meta& m, const const_buffer& d, const xid& x)
    {
        std::vector<long> a(meta(h, m));
        a.push_back(m.flags()); a.push_back((long)d.size()); a.push_back(!x.is_null());
        return ask("h.append", a);
    }
    int Hps::remove_fragments(const ws_meta& m)
    { return ask("h.rmf", { tid(m.transaction_id()), sq(m.seqno()) }); }
    int Hps::commit(const ws_handle& h, const ws_meta& m)
    {
        if (ask("h.commit", meta(h, m))) return 1;
        Quiet q(w); s->cs.store_globals();
        if (!s->tx().active()) return 0;
        s->cs.prepare_for_ordering(h, m, true);
        if (m.seqno().is_undefined()) { s->cs.before_rollback(); s->cs.after_rollback(); return 0; }
        return s->cs.before_commit() || s->cs.ordered_commit() || s->cs.after_commit();
    }
    int Hps::rollback(const ws_handle& h, const ws_meta& m)
    {
        ask("h.rollback", meta(h, m), {}, false);
        Quiet q(w); s->cs.store_globals();
        if (!s->tx().active()) return 0;
        s->cs.prepare_for_ordering(h, m, false);
        return s->cs.before_rollback() || s->cs.after_rollback();
    }
    int Hps::apply_toi(const ws_meta& m, const const_buffer&, mutable_buffer& err)
    {
        int r(w.pick("f_apply", { 0, 1, 2 }));
        w.log("cb", "h.toi", { sq(m.seqno()), m.flags(), r }, { name });
        if (r == 1) { const char e[] = "err"; err.push_back(e, e + 3); }
        return r != 0;
    }
    int Hps::apply_nbo_begin(const ws_meta& m, const const_buffer&, mutable_buffer& err)
    {
        int r(w.pick("f_apply", { 0, 1, 2 }));
        w.log("cb", "h.nbo", { sq(m.seqno()), m.flags(), r }, { name });
        if (r == 1) { const char e[] = "err"; err.push_back(e, e + 3); }
        return r != 0;
    }
    void Hps::after_apply()
    {
        ask("h.after", {}, {}, false);
        Quiet q(w); s->cs.store_globals();
        s->cs.after_applying();
    }
    int Hps::log_dummy_write_set(const ws_handle& h, const ws_meta& m, mutable_buffer& e)
    {
        std::vector<long> a(meta(h, m));
        a.push_back((long)e.size());
        return ask("h.dummy", a);
    }
    void Hps::adopt_apply_error(mutable_buffer& e)
    { ask("h.err", { (long)e.size() }, {}, false); }

    void Hps::store_globals() { w.ctx = name; }
    void Hps::reset_globals() { if (w.ctx == name) w.ctx.clear(); }

    // ------------------------------------------------ server service
    wsrep::storage_service* ServerService::storage_service(client_service&)
    { w.log("cb", "sto.new"); return new Storage(w); }
    wsrep::storage_service* ServerService::storage_service(high_priority_service&)
    { w.log("cb", "sto.new"); return new Storage(w); }
    void ServerService::release_storage_service(wsrep::storage_service* s)
    { w.log("cb", "sto.del"); delete s; }
    static high_priority_service* new_hps(World& w)
    {
        std::string n("h" + std::to_string(w.hps_count + 1));
        Hps* h(w.make_hps ? w.make_hps(n) : new Hps(w, n));
        w.log("cb", "hps.new", {}, { h->name });
        return h;
    }
    high_priority_service* ServerService::streaming_applier_service(client_service&) { return new_hps(w); }
    high_priority_service* ServerService::streaming_applier_service(high_priority_service&) { return new_hps(w); }
    void ServerService::release_high_priority_service(high_priority_service* h)
    {
        w.log("cb", "hps.del", {}, { static_cast<Hps*>(h)->name });
        delete h;
    }
    void ServerService::background_rollback(unique_lock<mutex>& lock, client_state& cs)
    {
        Session* s(w.by_cs[&cs]);
        w.log("cb", "bgrb", {}, { s ? s->name : std::string("?") });
        if (w.background_impl && s) w.background_impl(lock, *s);
        else if (s) w.rollback_queue.push_back(std::make_pair(s, tid(cs.transaction().id())));
    }
    void ServerService::bootstrap() { w.log("cb", "bootstrap"); }
    void ServerService::log_view(high_priority_service* h, const view& v)
    { w.log("cb", "log_view", { h != nullptr, sq(v.view_seqno()) }); }
    void ServerService::recover_streaming_appliers(client_service&)
    { w.log("cb", "recover"); if (w.logging) w.sim.yield(); if (w.recover_impl) w.recover_impl(); }
    void ServerService::recover_streaming_appliers(high_priority_service&)
    { w.log("cb", "recover"); if (w.logging) w.sim.yield(); if (w.recover_impl) w.recover_impl(); }
    view ServerService::get_view(client_service&, const id&)
    {
        if (!w.logging || !w.c("srvseg")) return view();
        // none stored; as recovered; ahead of the recovered position; of another history
        int r(w.pick("f_getview", { 1, 0, 2, 3 }));
        w.log("cb", "get_view", { r });
        if (r == 0) return view();
        return wsrep::view(gtid(r == 3 ? id("z") : w.group, seqno(position + (r == 2))), seqno(1), wsrep::view::primary, 0, 0, 1,
                           { wsrep::view::member(id("1"), "1", "") });
    }
    gtid ServerService::get_position(client_service&)
    {
        if (!w.c("srvseg")) return gtid();
        position = w.pick("f_getpos", { 5, 4, 6 });
        w.log("cb", "get_position", { position });
        return gtid(w.group, seqno(position));
    }
    void ServerService::set_position(client_service&, const gtid& g) { w.log("cb", "setpos", { sq(g.seqno()) }); }
    void ServerService::log_state_change(enum server_state::state a, enum server_state::state b)
    { w.log("cb", "state", {}, { to_string(a), to_string(b) }); if (w.on_state) w.on_state(b); }
    bool ServerService::sst_before_init() const { return w.c("sbi", 0); }
    std::string ServerService::sst_request() { w.log("cb", "sst_request"); return "req"; }
    int ServerService::start_sst(const std::string&, const gtid& g, bool b)
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_sst", { 0, 1 }));
        w.log("cb", "start_sst", { sq(g.seqno()), b, r });
        return r;
    }
    int ServerService::wait_committing_transactions(int)
    {
        if (w.logging) w.sim.yield();
        int r(w.pick("f_wct", { 0, 1 }));
        w.log("cb", "waitcommit", { r });
        return r;
    }

    ServerState::ServerState(World& w, co_mutex& m, co_cond& c, wsrep::server_service& s, enum wsrep::server_state::rollback_mode rm)
        : wsrep::server_state(m, c, s, NULL, "node", "", "", "./", gtid::undefined(), 1, rm)
    {
        World* wp(&w);
        set_provider_factory([wp](wsrep::server_state& ss, const std::string&, const std::string&, const provider::services&) {
            wp->provider = new Provider(ss, *wp);
            return std::unique_ptr<wsrep::provider>(wp->provider);
        });
        load_provider("vh", "");
    }

    // --------------------------------------------------------- world
    World::World(Sim& s, const Cfg& c_) : sim(s), cfg(c_), ssvc(*this), group("g"), own("1")
    {
        static bool once(false);
        if (!once) { once = true; wsrep::log::logger_fn([](wsrep::log::level, const char*, const char*) { }); }
        smx.name = "server";
        server.reset(new ServerState(*this, smx, scv, ssvc, c("rm_async") ? server_state::rm_async : server_state::rm_sync));
        smx.on_unlock = [this]() {
            if (!logging) return;
            if (c("srvseg")) log("seg", "srv", {}, { to_string(peek()) });
            else log("seg", "srv");
        };
    }
    World::~World()
    {
        logging = false;
        for (auto& s : sessions) delete s.second;
        server.reset();
    }
    wsrep::view World::view(enum wsrep::view::status st, long sn, long vs, const std::vector<std::string>& members, int own_index)
    {
        std::vector<wsrep::view::member> m;
        for (auto& n : members) m.push_back(wsrep::view::member(wsrep::id(n), n, ""));
        return wsrep::view(gtid(group, seqno(sn)), seqno(vs), st, 0, own_index, 1, m);
    }
    void World::bring_up()
    {
        Quiet q(*this);
        Hps h(*this, "boot");
        std::vector<std::string> m = { "1", "2" };
        server->connect("c", "local", "", false);
        server->initialized();
        server->on_connect(view(wsrep::view::primary, 0, 1, m, 0));
        server->on_view(view(wsrep::view::primary, 0, 1, m, 0), &h);
        server->on_sync();
        hps_count = 0;
    }
    Session* World::session(const std::string& n, long cid, enum wsrep::client_state::mode m, bool lg)
    {
        Session* s(new Session(*this, n, cid, m, lg));
        sessions[n] = s;
        by_cs[&s->cs] = s;
        return s;
    }
}
