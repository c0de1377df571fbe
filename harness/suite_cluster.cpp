// Several nodes, each running the library over one totally ordered and
// deterministically certifying group (Cluster.tla).  Every node has a small
// DBMS: rows with locks, a fragment log, local sessions, an applier, streaming
// appliers, a background rollbacker and replaying.  Conflicts between
// nodes, brute force aborts and replays arise from the schedules alone.
#include "world.hpp"
using namespace wsrep;
namespace vh { namespace cl
{
    struct Node; struct Group; struct Client;

    struct Ws { long seq; int org; long tid; int flags; long keys, rows, seen; bool ok; };

    struct Nop : client_service
    {
        bool interrupted(unique_lock<mutex>&) const override { return false; }
        void reset_globals() override { }
        void store_globals() override { }
        int prepare_data_for_replication() override { return 0; }
        void cleanup_transaction() override { }
        bool statement_allowed_for_streaming() const override { return true; }
        size_t bytes_generated() const override { return 0; }
        int prepare_fragment_for_replication(mutable_buffer&, size_t&) override { return 0; }
        int remove_fragments() override { return 0; }
        int bf_rollback() override { return 0; }
        void emergency_shutdown() override { Sim::get().fail("emergency shutdown"); }
        void will_replay() override { }
        void signal_replayed() override { }
        enum provider::status replay() override { return provider::success; }
        enum provider::status replay_unordered() override { return provider::success; }
        void wait_for_replayers(unique_lock<mutex>&) override { }
        enum provider::status commit_by_xid() override { return provider::success; }
        bool is_explicit_xa() override { return false; }
        bool is_prepared_xa() override { return false; }
        bool is_xa_rollback() override { return false; }
        void debug_sync(const char*) override { }
        void debug_crash(const char*) override { }
        void notify_state_change() override { }
    };

    // who holds row locks, and what it has written
    struct Holder { Node* n; client_state* cs; bool hp; long seq, tid, rows; };

    struct Ltrx { long tid; bool bfed, entered, told, frag; long seq, keys, data; };

    struct Prov : Provider
    {
        Node& n;
        Prov(wsrep::server_state& s, World& w_, Node& n_) : Provider(s, w_), n(n_) { }
        int start_transaction(ws_handle&) override;
        int append_key(ws_handle&, const key&) override;
        enum status append_data(ws_handle&, const const_buffer&) override;
        enum status certify(client_id, ws_handle&, int, ws_meta&, const seq_cb_t*) override;
        enum status bf_abort(seqno, transaction_id, client_service&, seqno&) override;
        enum status rollback(transaction_id) override;
        enum status commit_order_enter(const ws_handle&, const ws_meta&) override;
        int commit_order_leave(const ws_handle&, const ws_meta&, const mutable_buffer&) override;
        int release(ws_handle&) override;
        enum status replay(const ws_handle&, high_priority_service*) override;
        enum status enter_toi(client_id, const key_array&, const const_buffer&, ws_meta&, int) override;
        enum status leave_toi(client_id, const ws_meta&, const mutable_buffer&) override;
        enum status connect(const std::string&, const std::string&, const std::string&, bool) override { return success; }
        Ltrx* local(const ws_handle&);
    };

    struct Srv : server_service
    {
        Node& n;
        Srv(Node& n_) : n(n_) { }
        wsrep::storage_service* storage_service(client_service&) override;
        wsrep::storage_service* storage_service(high_priority_service&) override;
        void release_storage_service(wsrep::storage_service*) override;
        high_priority_service* streaming_applier_service(client_service&) override;
        high_priority_service* streaming_applier_service(high_priority_service&) override;
        void release_high_priority_service(high_priority_service*) override;
        void background_rollback(unique_lock<mutex>&, client_state&) override;
        void bootstrap() override { }
        void log_message(enum log::level, const char*) override { }
        void log_dummy_write_set(client_state&, const ws_meta&) override { }
        void log_view(high_priority_service*, const view&) override { }
        void recover_streaming_appliers(client_service&) override { }
        void recover_streaming_appliers(high_priority_service&) override { }
        wsrep::view get_view(client_service&, const id&) override { return wsrep::view(); }
        gtid get_position(client_service&) override { return gtid(); }
        void set_position(client_service&, const gtid&) override;
        void log_state_change(enum server_state::state, enum server_state::state) override { }
        bool sst_before_init() const override { return false; }
        std::string sst_request() override { return ""; }
        int start_sst(const std::string&, const gtid&, bool) override { return 0; }
        int wait_committing_transactions(int) override { return 0; }
        void debug_sync(const char*) override { }
    };

    struct SrvState : wsrep::server_state
    {
        SrvState(Node&, co_mutex&, co_cond&, Srv&, enum rollback_mode);
    };

    struct Node
    {
        Group& g; int id;
        co_mutex smx; co_cond scv;
        Srv ssvc;
        std::unique_ptr<SrvState> server;
        Prov* prov = nullptr;
        std::map<long, Ltrx> trx;
        std::vector<Client*> clients;
        long pos = 0, replayers = 0, sas = 0, busy = 0;
        std::set<long> autoskip;
        std::map<long, Holder*> locks;
        std::map<long, long> db;
        std::map<long, std::map<long, long>> frags; // tid -> seq -> rows
        std::vector<std::pair<Client*, long>> rbq;
        Node(Group&, int);
        ~Node();
        void log(const char* f, std::vector<long> a);
        void advance();
        bool lock(Holder&, long row, bool to = false);
        void unlock(Holder&);
        void commit(Holder&, long seq);
        wsrep::id nid() const { return wsrep::id(std::to_string(id)); }
    };

    struct Group
    {
        Sim& sim; World& w;
        std::vector<Ws> log;
        std::vector<std::unique_ptr<Node>> nodes;
        wsrep::id gid;
        int running = 0;
        long next_tid = 0;
        bool flush = false;
        Group(Sim& s, World& w_) : sim(s), w(w_), gid("g") { }
        long c(const char* k, long d = 0) const { return w.c(k, d); }
        Ws& order(int org, long tid, int flags, long keys, long rows, long seen);
        long dep(const Ws&) const;
    };

    static long enc(const const_buffer& b) { long v; memcpy(&v, b.data(), sizeof v); return v; }
    // rows 0..7, 256: reference to the table, 512: the whole table
    static long keybits(const key& k)
    {
        if (k.size() == 3) return 256 | 1 << atol((const char*)k.key_parts()[2].data());
        return k.type() == key::exclusive ? 512 : 256;
    }
    static bool conflict(long a, long b) { return (a & b & 255) || ((a & 512) && b) || ((b & 512) && a); }
    static long stid_node(const ws_meta& m) { return atol((const char*)m.server_id().data()); }

    // ------------------------------------------------------------ group
    Ws& Group::order(int org, long tid, int flags, long keys, long rows, long seen)
    {
        Ws x = { long(log.size()) + 1, org, tid, flags, keys, rows, seen, true };
        if (!(flags & provider::flag::rollback))
            for (auto& o : log)
                if (o.seq > seen && o.ok && o.tid != tid && !(flags & provider::flag::isolation) && conflict(o.keys, keys)) x.ok = false;
        log.push_back(x);
        return log.back();
    }
    long Group::dep(const Ws& x) const
    {
        if (!x.ok || (x.flags & (provider::flag::rollback | provider::flag::isolation)) || ((x.flags & provider::flag::commit) && !(x.flags & provider::flag::start_transaction)))
            return x.seq - 1;
        long d(x.seen);
        for (auto& o : log)
            if (o.seq < x.seq && ((o.ok && conflict(o.keys, x.keys)) || o.tid == x.tid || (o.flags & (provider::flag::rollback | provider::flag::isolation)))) d = std::max(d, o.seq);
        return d;
    }

    // ------------------------------------------------------------- node
    Node::Node(Group& g_, int i) : g(g_), id(i), ssvc(*this)
    {
        smx.name = "server"; smx.quiet = !g.c("fine");
        server.reset(new SrvState(*this, smx, scv, ssvc, g.c("rm_async") ? server_state::rm_async : server_state::rm_sync));
    }
    Node::~Node() { server.reset(); }
    SrvState::SrvState(Node& n, co_mutex& m, co_cond& c, Srv& s, enum rollback_mode rm)
        : wsrep::server_state(m, c, s, NULL, "n" + std::to_string(n.id), "", "", "./", gtid::undefined(), 1, rm)
    {
        Node* np(&n);
        set_provider_factory([np](wsrep::server_state& ss, const std::string&, const std::string&, const provider::services&) {
            np->prov = new Prov(ss, np->g.w, *np);
            return std::unique_ptr<wsrep::provider>(np->prov);
        });
        load_provider("vh", "");
    }
    void Node::log(const char* f, std::vector<long> a)
    {
        Event e; e.t = std::to_string(id); e.k = "ev"; e.f = f; e.a = std::move(a);
        g.sim.log(e);
    }
    void Node::advance()
    {
        while (autoskip.count(pos + 1)) { ++pos; log("skip", { pos }); }
    }
    // Row lock. Local sessions wait for it (false: aborted meanwhile), high
    // priority holders abort local ones which are not ordered before them.
    bool Node::lock(Holder& h, long row, bool to)
    {
        for (;;)
        {
            auto i(locks.find(row));
            if (i == locks.end()) { locks[row] = &h; return true; }
            if (i->second == &h) return true;
            Holder* v(i->second);
            long vt(v->tid);
            if (!h.hp)
            {
                g.sim.block([&, row] { return !locks.count(row) || h.cs->transaction().state() != wsrep::transaction::s_executing; });
                if (h.cs->transaction().state() != wsrep::transaction::s_executing) return false;
                continue;
            }
            auto l(trx.find(vt));
            long vs(l == trx.end() ? 0 : l->second.seq);
            if (!v->hp && !(vs && vs < h.seq))
            {
                g.sim.yield();
                if (locks.find(row) == locks.end() || locks[row] != v || v->tid != vt) continue;
                bool r(to ? v->cs->total_order_bf_abort(seqno(h.seq)) : v->cs->bf_abort(seqno(h.seq)));
                log("bf", { vt, h.seq, r });
            }
            g.sim.block([this, row, v, vt] { auto j(locks.find(row)); return j == locks.end() || j->second != v || v->tid != vt; });
        }
    }
    void Node::unlock(Holder& h)
    {
        for (auto i(locks.begin()); i != locks.end(); ) if (i->second == &h) i = locks.erase(i); else ++i;
        h.rows = 0;
    }
    void Node::commit(Holder& h, long seq)
    {
        log("commit", { h.tid, seq, h.rows });
        for (long r = 0; r < 8; ++r) if (h.rows & (1 << r)) db[r] = h.tid;
        unlock(h);
    }

    // --------------------------------------------------------- provider
    static long tidof(const ws_handle& h) { return Provider::id(h); }
    Ltrx* Prov::local(const ws_handle& h)
    {
        auto i(n.trx.find(tidof(h)));
        return i != n.trx.end() && h.opaque() == &i->second ? &i->second : nullptr;
    }
    static Ltrx& mk(Node& n, ws_handle& h)
    {
        long t(tidof(h));
        auto r(n.trx.insert(std::make_pair(t, Ltrx{ t, false, false, false, false, 0, 0, 0 })));
        h = ws_handle(h.transaction_id(), &r.first->second);
        return r.first->second;
    }
    int Prov::start_transaction(ws_handle& h) { mk(n, h); return 0; }
    int Prov::append_key(ws_handle& h, const key& k)
    {
        mk(n, h).keys |= keybits(k);
        return 0;
    }
    enum provider::status Prov::append_data(ws_handle& h, const const_buffer& b) { mk(n, h).data |= enc(b); return success; }
    enum provider::status Prov::certify(client_id cid, ws_handle& h, int fl, ws_meta& m, const seq_cb_t* cb)
    {
        Sim& sim(n.g.sim);
        sim.yield();
        Ltrx& x(mk(n, h));
        bool commit(fl & flag::commit);
        if (x.bfed) { n.log("nocert", { x.tid, fl }); return commit ? error_certification_failed : error_bf_abort; }
        if (n.g.c("f_conn") && sim.choose(2, C_FAULT)) { n.log("nocert", { x.tid, fl }); return error_connection_failed; }
        Ws& ws(n.g.order(n.id, x.tid, fl, x.keys, x.data, n.pos));
        long seq(ws.seq); bool ok(ws.ok);
        x.keys = x.data = 0;
        n.log("cert", { x.tid, seq, fl & 3, ws.keys, ws.rows, ws.seen, ok });
        if (commit) x.seq = seq; else x.frag = true;
        if (cb) cb->fn(cb->ctx);
        sim.yield();
        if (commit || ok) m = ws_meta(gtid(n.g.gid, seqno(seq)), stid(n.nid(), h.transaction_id(), cid), seqno(n.g.dep(n.g.log[size_t(seq - 1)])), fl);
        if (x.bfed)
        {
            if (commit) return error_bf_abort;
            m = ws_meta();
            n.autoskip.insert(seq); n.advance();
            return error_bf_abort;
        }
        if (ok) return success;
        if (!commit) { n.autoskip.insert(seq); n.advance(); }
        return error_certification_failed;
    }
    enum provider::status Prov::bf_abort(seqno bs, transaction_id v, client_service&, seqno& vs)
    {
        auto i(n.trx.find((long)v.get()));
        if (i == n.trx.end()) { ws_handle h(v); mk(n, h); i = n.trx.find((long)v.get()); }
        Ltrx& x(i->second);
        if (x.entered || (x.seq && x.seq < bs.get())) return error_not_allowed;
        x.bfed = true;
        vs = x.seq ? seqno(x.seq) : seqno::undefined();
        return success;
    }
    enum provider::status Prov::rollback(transaction_id t)
    {
        if (n.g.c("f_rbk") && !n.g.flush && n.g.sim.choose(2, C_FAULT)) return error_connection_failed;
        Ws& ws(n.g.order(n.id, (long)t.get(), flag::rollback, 0, 0, n.pos));
        n.log("rbk", { ws.tid, ws.seq });
        return success;
    }
    enum provider::status Prov::commit_order_enter(const ws_handle& h, const ws_meta& m)
    {
        Sim& sim(n.g.sim);
        long seq((long)m.seqno().get());
        Ltrx* x(local(h));
        sim.yield();
        if (x) x->entered = false;
        sim.block([this, seq, x] { return n.pos == seq - 1 || (x && x->bfed && !x->told); });
        if (x && x->bfed && !x->told)
        {
            if (x->seq == seq) { x->told = true; if (n.g.log[size_t(seq - 1)].ok) return error_bf_abort; }
            else { n.autoskip.insert(seq); n.advance(); return error_bf_abort; } // a fragment
            sim.block([this, seq] { return n.pos == seq - 1; });
        }
        if (x) x->entered = x->seq == seq;
        return success;
    }
    int Prov::commit_order_leave(const ws_handle&, const ws_meta& m, const mutable_buffer&)
    {
        long seq((long)m.seqno().get());
        if (n.pos != seq - 1) n.g.sim.fail("commit order left out of turn");
        n.pos = seq;
        n.advance();
        n.g.sim.yield();
        return 0;
    }
    int Prov::release(ws_handle& h)
    {
        Ltrx* x(local(h));
        // streaming goes on with the same handle, unless it has ended
        if (x && (x->seq || x->bfed)) { n.trx.erase(x->tid); h = ws_handle(); }
        return 0;
    }
    enum provider::status Prov::replay(const ws_handle& h, high_priority_service* hps)
    {
        Ltrx* x(local(h));
        if (!x || !x->seq) n.g.sim.fail("replay without order");
        long seq(x->seq);
        n.log("replay", { x->tid, seq });
        n.g.sim.block([this, seq] { return n.pos == seq - 1; });
        Ws ws(n.g.log[size_t(seq - 1)]);
        x->told = true;
        if (!ws.ok) return error_certification_failed; // the session releases its order
        x->told = true;
        ws_meta m(gtid(n.g.gid, seqno(seq)), stid(n.nid(), transaction_id((unsigned long long)ws.tid), client_id()), seqno(seq - 1), ws.flags);
        return n.server->on_apply(*hps, h, m, const_buffer(&ws.rows, sizeof ws.rows)) ? error_fatal : success;
    }
    enum provider::status Prov::enter_toi(client_id cid, const key_array& ks, const const_buffer& b, ws_meta& m, int fl)
    {
        n.g.sim.yield();
        fl |= flag::isolation;
        long keys(0);
        for (auto& k : ks) keys |= keybits(k);
        if (n.g.c("f_conn") && n.g.sim.choose(2, C_FAULT)) { n.log("nocert", { enc(b) >> 8, fl }); m = ws_meta(); return error_connection_failed; }
        Ws& ws(n.g.order(n.id, enc(b) >> 8, fl, keys, enc(b) & 255, n.pos));
        long seq(ws.seq); bool ok(ws.ok);
        n.log("cert", { ws.tid, seq, 7, ws.keys, ws.rows, ws.seen, ok });
        n.g.sim.yield();
        n.g.sim.block([this, seq] { return n.pos == seq - 1; });
        if (!ok) { n.pos = seq; n.log("skip", { seq }); n.advance(); m = ws_meta(); return error_certification_failed; }
        m = ws_meta(gtid(n.g.gid, seqno(seq)), stid(n.nid(), transaction_id::undefined(), cid), seqno(seq - 1), fl);
        return success;
    }
    enum provider::status Prov::leave_toi(client_id, const ws_meta& m, const mutable_buffer&)
    {
        long seq((long)m.seqno().get());
        if (n.pos != seq - 1) n.g.sim.fail("TOI left out of turn");
        n.pos = seq; n.advance();
        return success;
    }

    // ------------------------------------- high priority services, storage
    struct Hp : high_priority_service
    {
        Node& n; Nop svc; co_mutex mx; co_cond cv; ClientState cs; Holder h; bool sa;
        Hp(Node& n_, bool sa_) : high_priority_service(*n_.server), n(n_),
            cs(mx, cv, *n_.server, svc, client_id(1000), client_state::m_high_priority), h{ &n_, &cs, true, 0, 0, 0 }, sa(sa_)
        {
            mx.quiet = !n.g.c("fine");
            cs.open(client_id(1000));
            cs.before_command();
            if (sa) ++n.sas;
        }
        ~Hp() override
        {
            if (sa) --n.sas;
            n.unlock(h);
            cs.after_command_before_result(); cs.after_command_after_result();
            cs.close(); cs.cleanup();
        }
        virtual client_state& c() { return cs; }
        virtual Holder& hold() { return h; }
        int start_transaction(const ws_handle& wh, const ws_meta& m) override
        {
            c().store_globals();
            hold().tid = (long)m.transaction_id().get(); hold().seq = (long)m.seqno().get();
            return c().start_transaction(wh, m);
        }
        int next_fragment(const ws_meta& m) override { hold().seq = (long)m.seqno().get(); return c().next_fragment(m); }
        const wsrep::transaction& transaction() const override { return const_cast<Hp*>(this)->c().transaction(); }
        int adopt_transaction(const wsrep::transaction& t) override
        {
            c().store_globals();
            hold().tid = (long)t.id().get();
            c().adopt_transaction(t);
            return 0;
        }
        void write(long rows)
        {
            for (long r = 0; r < 8; ++r) if (rows & (1 << r)) { n.g.sim.yield(); n.lock(hold(), r); hold().rows |= 1 << r; }
        }
        int apply_write_set(const ws_meta& m, const const_buffer& d, mutable_buffer&) override
        {
            c().store_globals();
            write(enc(d));
            if (sa && !commits_transaction(m.flags())) c().fragment_applied(m.seqno());
            return 0;
        }
        int do_commit(const ws_handle& wh, const ws_meta& m, const std::function<void()>& engine)
        {
            c().store_globals();
            int r(c().prepare_for_ordering(wh, m, true));
            r = r || c().before_commit();
            if (!r) { engine(); n.g.sim.yield(); }
            r = r || c().ordered_commit() || c().after_commit();
            return r;
        }
        int append_fragment_and_commit(const ws_handle& wh, const ws_meta& m, const const_buffer& d, const xid&) override
        {
            long rows(enc(d)), t((long)m.transaction_id().get()), seq((long)m.seqno().get());
            start_transaction(wh, m);
            return do_commit(wh, m, [&] { n.log("frag", { t, seq, rows }); n.frags[t][seq] = rows; });
        }
        bool removed = false;
        int remove_fragments(const ws_meta& m) override
        {
            removed = true;
            n.g.sim.yield();
            long t((long)m.transaction_id().get());
            n.frags.erase(t);
            n.log("rmfrag", { t });
            return 0;
        }
        int commit(const ws_handle& wh, const ws_meta& m) override
        {
            long seq((long)m.seqno().get());
            int r(do_commit(wh, m, [&] {
                if (commits_transaction(m.flags()) && !rolls_back_transaction(m.flags())) n.commit(hold(), seq);
                else n.log("skip", { seq }); }));
            return r;
        }
        int rollback(const ws_handle& wh, const ws_meta& m) override
        {
            c().store_globals();
            c().prepare_for_ordering(wh, m, false);
            int r(c().before_rollback());
            n.log("undo", { hold().tid });
            n.unlock(hold());
            r = r || c().after_rollback();
            return r;
        }
        int apply_toi(const ws_meta& m, const const_buffer& d, mutable_buffer&) override
        {
            long v(enc(d));
            Holder th{ &n, &c(), true, (long)m.seqno().get(), v >> 8, 0 };
            c().store_globals();
            for (long r = 0; r < 8; ++r) if ((v & 255) & (1 << r)) { n.g.sim.yield(); n.lock(th, r, true); th.rows |= 1 << r; }
            n.commit(th, (long)m.seqno().get());
            return 0;
        }
        int apply_nbo_begin(const ws_meta&, const const_buffer&, mutable_buffer&) override { return 0; }
        void after_apply() override { c().after_applying(); }
        void store_globals() override { c().store_globals(); }
        void reset_globals() override { }
        void switch_execution_context(high_priority_service&) override { }
        int log_dummy_write_set(const ws_handle& wh, const ws_meta& m, mutable_buffer& e) override
        {
            c().store_globals();
            int r(c().start_transaction(wh, m));
            if (m.ordered())
            {
                c().adopt_apply_error(e);
                r = r || do_commit(wh, m, [&] { n.log("skip", { (long)m.seqno().get() }); });
            }
            c().after_applying();
            return r;
        }
        void adopt_apply_error(mutable_buffer& e) override { c().adopt_apply_error(e); }
        bool is_replaying() const override { return false; }
        void debug_crash(const char*) override { }
    };

    struct Sto : wsrep::storage_service
    {
        Node& n; Nop svc; co_mutex mx; co_cond cv; ClientState cs;
        long tid = 0, rows = 0, seq = 0; bool rm = false;
        Sto(Node& n_) : n(n_), cs(mx, cv, *n_.server, svc, client_id(2000), client_state::m_high_priority)
        {
            mx.quiet = !n.g.c("fine");
            cs.open(client_id(2000)); cs.before_command();
        }
        ~Sto() override { cs.after_command_before_result(); cs.after_command_after_result(); cs.close(); cs.cleanup(); }
        int start_transaction(const ws_handle& h) override { cs.store_globals(); return cs.start_transaction(h, ws_meta(gtid(), stid(n.nid(), h.transaction_id(), client_id()), seqno(), 0)); }
        void adopt_transaction(const wsrep::transaction& t) override { cs.store_globals(); tid = (long)t.id().get(); cs.adopt_transaction(t); }
        int append_fragment(const id&, transaction_id t, int, const const_buffer& d, const xid&) override { tid = (long)t.get(); rows = enc(d); n.g.sim.yield(); return 0; }
        int update_fragment_meta(const ws_meta& m) override { seq = (long)m.seqno().get(); return 0; }
        int remove_fragments() override { rm = true; return 0; }
        int commit(const ws_handle& h, const ws_meta& m) override
        {
            int r(0);
            if (m.ordered())
            {
                r = cs.prepare_for_ordering(h, m, true);
                r = r || cs.before_commit();
                if (!r) { if (rm) { n.frags.erase(tid); n.log("rmfrag", { tid }); n.log("skip", { (long)m.seqno().get() }); }
                          else { n.log("frag", { tid, seq, rows }); n.frags[tid][seq] = rows; } }
                r = r || cs.ordered_commit() || cs.after_commit();
                if (r) { cs.prepare_for_ordering(ws_handle(), ws_meta(), false); cs.before_rollback(); cs.after_rollback(); }
            }
            else
            {
                n.g.sim.yield();
                if (rm) { n.frags.erase(tid); n.log("rmfrag", { tid }); }
                cs.before_rollback(); cs.after_rollback();
            }
            cs.after_applying();
            return r;
        }
        int rollback(const ws_handle& h, const ws_meta& m) override
        {
            cs.prepare_for_ordering(h, m, false);
            cs.before_rollback(); cs.after_rollback(); cs.after_applying();
            return 0;
        }
        void store_globals() override { cs.store_globals(); }
        void reset_globals() override { }
    };

    // ---------------------------------------------------------- sessions
    struct Client : Nop
    {
        Node& n; std::string name; co_mutex mx; co_cond cv; ClientState cs; Holder h;
        long cid, pend = 0, all = 0, bytes = 0, committed = 0;
        Client(Node& n_, const std::string& nm, long c)
            : n(n_), name(nm), cs(mx, cv, *n_.server, *this, client_id((unsigned long long)c), client_state::m_local), h{ &n_, &cs, false, 0, 0, 0 }, cid(c)
        { mx.quiet = !n.g.c("fine"); }
        size_t bytes_generated() const override { return (size_t)bytes; }
        int prepare_data_for_replication() override { long p(pend); pend = 0; return cs.append_data(const_buffer(&p, sizeof p)); }
        int prepare_fragment_for_replication(mutable_buffer& b, size_t& lp) override
        {
            const char* p((const char*)&pend);
            b.push_back(p, p + sizeof pend);
            pend = 0; lp = (size_t)bytes;
            return 0;
        }
        int remove_fragments() override
        {
            n.g.sim.yield();
            long t((long)cs.transaction().id().get());
            n.frags.erase(t); n.log("rmfrag", { t });
            return 0;
        }
        void undo() { n.log("undo", { h.tid }); n.unlock(h); n.g.sim.yield(); }
        int bf_rollback() override
        {
            int r(cs.before_rollback());
            undo();
            return cs.after_rollback() || r;
        }
        void will_replay() override { ++n.replayers; }
        void signal_replayed() override { --n.replayers; }
        void wait_for_replayers(unique_lock<mutex>& lk) override
        {
            // an aborted transaction must not wait for the ones its aborter waits for
            while (n.replayers > 0 && cs.transaction().state() != wsrep::transaction::s_must_abort)
            {
                lk.unlock();
                n.g.sim.block([this] { return n.replayers == 0 || cs.transaction().state() == wsrep::transaction::s_must_abort; });
                lk.lock();
            }
        }
        enum provider::status replay() override;
        void run();
        void rollback_stmt()
        {
            cs.before_rollback();
            undo();
            cs.after_rollback();
        }
        void on_error()
        {
            auto s(cs.transaction().state());
            typedef wsrep::transaction T;
            if (s == T::s_executing || s == T::s_preparing || s == T::s_aborting) rollback_stmt();
            else if ((s == T::s_must_abort || s == T::s_cert_failed || s == T::s_must_replay) && n.g.c("erb") && n.g.sim.prog(2)) rollback_stmt();
        }
        void write(long row)
        {
            n.g.sim.yield();
            if (!n.lock(h, row)) { on_error(); return; }
            n.log("write", { h.tid, row });
            h.rows |= 1 << row; pend |= 1 << row; ++bytes;
            std::string k(std::to_string(row));
            key ky(key::exclusive); ky.append_key_part("d", 1); ky.append_key_part("t", 1); ky.append_key_part(k.data(), k.size());
            n.g.sim.yield();
            if (cs.append_key(ky) || cs.after_row()) on_error();
        }
        void commit_stmt()
        {
            int e(0);
            if (n.g.c("2pc")) e = cs.before_prepare() || cs.after_prepare();
            e = e || cs.before_commit();
            if (!e) { n.commit(h, (long)cs.transaction().ws_meta().seqno().get()); n.g.sim.yield(); }
            e = e || cs.ordered_commit() || cs.after_commit();
            if (e) on_error();
        }
        bool active() const { return cs.transaction().active(); }
        // one command; true if the client is told of an error
        bool command(const std::function<void()>& f)
        {
            n.g.sim.yield();
            int e(cs.before_command());
            if (!e)
            {
                e = cs.before_statement();
                if (!e) f();
                cs.after_statement();
            }
            cs.after_command_before_result();
            bool r(cs.current_error() != e_success);
            cs.after_command_after_result();
            return r;
        }
        void start()
        {
            h.tid = ++n.g.next_tid; h.rows = 0; pend = 0; bytes = 0;
            n.log("start", { h.tid });
            cs.start_transaction(transaction_id((unsigned long long)h.tid));
            if (n.g.c("unit", -1) >= 0) cs.enable_streaming((enum streaming_context::fragment_unit)n.g.c("unit"), (size_t)n.g.c("size", 1));
        }
        void done(int r) { n.log("done", { h.tid, r }); n.unlock(h); }
        void trx(long mask, bool rb);
        void toi(long mask);
    };

    // Replays on the session's own context, like dbsim, or on a context of
    // its own, like MariaDB.
    struct Rep : Hp
    {
        Client& cl; bool clone; long rep = 0;
        Rep(Client& c_, bool clone_) : Hp(c_.n, false), cl(c_), clone(clone_) { }
        client_state& c() override { return clone ? cs : cl.cs; }
        Holder& hold() override { return clone ? h : cl.h; }
        int apply_write_set(const ws_meta& m, const const_buffer& d, mutable_buffer& e) override
        {
            if (!starts_transaction(m.flags()))
            {
                // fragments from the streaming log, then the rest
                for (auto s : c().transaction().streaming_context().fragments())
                {
                    auto& f(n.frags[hold().tid]);
                    auto i(f.find((long)s.get()));
                    if (i == f.end()) n.g.sim.fail("fragment to replay is missing");
                    write(i->second);
                }
            }
            int r(Hp::apply_write_set(m, d, e));
            if (!starts_transaction(m.flags())) Hp::remove_fragments(m);
            return r;
        }
        void after_apply() override { }
        bool is_replaying() const override { return true; }
    };
    enum provider::status Client::replay()
    {
        enum provider::status r;
        if (h.rows) undo(); // the DBMS rolls back before replaying
        if (n.g.c("rclone"))
        {
            Rep rp(*this, true);
            rp.cs.clone_transaction_for_replay(cs.transaction());
            rp.h.tid = h.tid;
            r = cs.provider().replay(cs.transaction().ws_handle(), &rp);
            rp.cs.after_applying();
        }
        else
        {
            high_priority_context hc(cs);
            h.hp = true;
            h.seq = (long)cs.transaction().ws_meta().seqno().get();
            Rep rp(*this, false);
            r = cs.provider().replay(cs.transaction().ws_handle(), &rp);
            h.hp = false; h.seq = 0;
        }
        return r;
    }
    void Client::trx(long mask, bool rb)
    {
        bool one(n.g.c("one"));
        if (one)
        {
            bool e(command([&] {
                start();
                for (long r = 0; r < 8; ++r) if ((mask & (1 << r)) && active() && cs.transaction().state() == wsrep::transaction::s_executing) write(r);
                if (active() && cs.transaction().state() == wsrep::transaction::s_executing) { if (rb) rollback_stmt(); else commit_stmt(); }
            }));
            done(e ? 1 : rb ? 2 : 0);
            return;
        }
        bool first(true);
        for (long r = 0; r < 8; ++r) if (mask & (1 << r))
        {
            if (command([&] { if (first) start(); first = false; write(r); })) { done(1); return; }
        }
        bool e(command([&] { if (rb) rollback_stmt(); else commit_stmt(); }));
        done(e ? 1 : rb ? 2 : 0);
    }
    void Client::toi(long mask)
    {
        long tid(++n.g.next_tid);
        h.tid = tid;
        n.log("start", { tid });
        bool e(command([&] {
            key_array ks;
            key k(key::exclusive); k.append_key_part("d", 1); k.append_key_part("t", 1); ks.push_back(k);
            long d((tid << 8) | mask);
            if (!cs.enter_toi_local(ks, const_buffer(&d, sizeof d)))
            {
                Holder th{ &n, &cs, true, (long)cs.toi_meta().seqno().get(), tid, 0 };
                for (long r = 0; r < 8; ++r) if (mask & (1 << r)) { n.g.sim.yield(); n.lock(th, r, true); th.rows |= 1 << r; }
                n.commit(th, th.seq);
                mutable_buffer err;
                cs.leave_toi_local(err);
            }
        }));
        done(e ? 1 : 0);
    }
    void Client::run()
    {
        Sim& sim(n.g.sim);
        cs.open(client_id((unsigned long long)cid));
        long hot(n.g.c("hot", 1));
        for (long t = 0; t < n.g.c("trx", 1); ++t)
        {
            // a row, or several of them
            long mask(n.g.c("mask"));
            if (!mask) mask = 1 + sim.prog((1 << hot) - 1);
            if (n.g.c("toi") && n.g.c("toinode", n.id) == n.id && sim.prog(2)) { toi(mask); continue; }
            bool rb(n.g.c("rb") && sim.prog(2));
            trx(mask, rb);
        }
        cs.close(); cs.cleanup();
        --n.g.running;
    }

    // --------------------------------------------------- server services
    wsrep::storage_service* Srv::storage_service(client_service&) { return new Sto(n); }
    wsrep::storage_service* Srv::storage_service(high_priority_service&) { return new Sto(n); }
    void Srv::release_storage_service(wsrep::storage_service* s) { delete s; }
    high_priority_service* Srv::streaming_applier_service(client_service&) { return new Hp(n, true); }
    high_priority_service* Srv::streaming_applier_service(high_priority_service&) { return new Hp(n, true); }
    void Srv::release_high_priority_service(high_priority_service* h) { delete h; }
    void Srv::background_rollback(unique_lock<mutex>&, client_state& cs)
    {
        for (auto c : n.clients) if (&c->cs == &cs) n.rbq.push_back(std::make_pair(c, c->h.tid));
    }
    void Srv::set_position(client_service&, const gtid& g) { n.log("skip", { (long)g.seqno().get() }); }

    static void rollbacker(Node& n)
    {
        for (;;)
        {
            n.g.sim.block([&n] { return !n.rbq.empty(); });
            Client& c(*n.rbq.front().first);
            n.rbq.erase(n.rbq.begin());
            n.g.sim.yield();
            c.cs.store_globals();
            c.cs.before_rollback();
            c.undo();
            c.cs.after_rollback();
            c.cs.sync_rollback_complete();
        }
    }
    static void applier(Node& n, long& next)
    {
        Group& g(n.g);
        Hp hp(n, false);
        for (;;)
        {
            g.sim.block([&] { return (long)g.log.size() >= next; });
            Ws ws(g.log[size_t(next - 1)]);
            ++next;
            bool rb(ws.flags & provider::flag::rollback);
            if (ws.org == n.id && !rb) continue;
            long dep(g.dep(ws));
            g.sim.block([&n, dep] { return n.pos >= dep; });
            g.sim.yield();
            int fl(ws.flags | (ws.ok ? 0 : provider::flag::rollback));
            bool toi(ws.flags & provider::flag::isolation);
            if (toi && !ws.ok) { g.sim.block([&] { return n.pos == ws.seq - 1; }); n.log("skip", { ws.seq }); n.pos = ws.seq; n.advance(); continue; }
            ws_meta m(gtid(g.gid, seqno(ws.seq)),
                      stid(wsrep::id(std::to_string(ws.org)), toi ? transaction_id::undefined() : transaction_id((unsigned long long)ws.tid), client_id(1)), seqno(dep), fl);
            long d(toi ? (ws.tid << 8) | ws.rows : ws.rows);
            ws_handle h(toi ? transaction_id::undefined() : transaction_id((unsigned long long)ws.tid), &hp);
            ++n.busy;
            if (n.server->on_apply(hp, h, m, const_buffer(&d, sizeof d))) g.sim.fail("applying failed");
            --n.busy;
        }
    }
} // cl

    void cluster_suite(World& w, Sim& sim)
    {
        using namespace cl;
        sim.delay_bounded(true);
        Group* g(sim.keep(new Group(sim, w)));
        int nn((int)w.c("nodes", 2));
        std::vector<wsrep::view::member> m;
        for (int i = 1; i <= nn; ++i) m.push_back(wsrep::view::member(id(std::to_string(i)), std::to_string(i), ""));
        for (int i = 1; i <= nn; ++i)
        {
            Node* n(new Node(*g, i));
            g->nodes.emplace_back(n);
            Hp h(*n, false);
            n->server->connect("c", "local", "", false);
            n->server->initialized();
            wsrep::view v(gtid(g->gid, seqno(0)), seqno(1), wsrep::view::primary, 0, i - 1, 1, m);
            n->server->on_connect(v);
            n->server->on_view(v, &h);
            n->server->on_sync();
        }
        for (int i = 1; i <= nn; ++i)
        {
            Node* n(g->nodes[size_t(i - 1)].get());
            std::string s(std::to_string(i));
            long cc(i == 1 ? w.c("c1", 1) : i == 2 ? w.c("c2", 1) : w.c("c3", 1));
            for (long k = 0; k < cc; ++k)
            {
                std::string nm("c" + s + std::string(1, char('a' + k)));
                Client* c(sim.keep(new Client(*n, nm, k + 1)));
                n->clients.push_back(c);
                ++g->running;
                sim.spawn(nm, [c] { c->run(); });
            }
            long* next(sim.keep(new long(1)));
            for (long k = 0; k < w.c("appliers", 1); ++k)
                sim.spawn("a" + s + (k ? "x" : ""), [n, next] { applier(*n, *next); }, true);
            sim.spawn("r" + s, [n] { rollbacker(*n); }, true);
        }
        sim.spawn("z", [g, &sim] {
            // rollbacks which could not be announced before
            sim.block([g] { return g->running == 0; });
            g->flush = true;
            for (auto& n : g->nodes) n->server->on_sync();
            sim.block([g] { for (auto& n : g->nodes) if (n->busy || n->pos != (long)g->log.size()) return false; return true; });
            for (auto& n : g->nodes)
            {
                long fs(0); for (auto& f : n->frags) fs += (long)f.second.size();
                std::vector<long> a = { n->pos, n->sas, fs, (long)n->locks.size() };
                for (long r = 0; r < g->c("hot", 1); ++r) a.push_back(n->db[r]);
                n->log("end", a);
            }
        });
    }
}
