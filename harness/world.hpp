// Environment of the library under test: provider, services, sessions.
// Everything the library asks from its environment goes through here; each
// answer is a recorded choice and each question is a recorded event.
#pragma once
#include "core.hpp"
#include "wsrep/client_service.hpp"
#include "wsrep/client_state.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/transaction.hpp"
#include "wsrep/view.hpp"
#include "wsrep/xid.hpp"
#include <set>
#include <algorithm>
#include <sstream>

namespace vh
{
    typedef enum wsrep::provider::status pstat;
    inline const char* pname(int s)
    {
        static const char* const n[] = { "ok", "warning", "missing", "certfail", "bfabort", "size",
            "conn", "provider", "fatal", "notimpl", "notallowed", "unknown" };
        return (s >= 0 && s < 12) ? n[s] : "bad";
    }
    inline const char* ename(int e)
    {
        switch (e)
        {
        case wsrep::e_success: return "ok";
        case wsrep::e_error_during_commit: return "commit";
        case wsrep::e_deadlock_error: return "deadlock";
        case wsrep::e_interrupted_error: return "interrupted";
        case wsrep::e_size_exceeded_error: return "size";
        case wsrep::e_append_fragment_error: return "append";
        case wsrep::e_not_supported_error: return "notsup";
        case wsrep::e_timeout_error: return "timeout";
        default: return "bad";
        }
    }
    typedef std::map<std::string, long> Cfg;
    inline long cfg_get(const Cfg& c, const char* k, long d) { auto i(c.find(k)); return i == c.end() ? d : i->second; }

    struct World;
    struct Session;

    // -------------------------------------------------------- provider
    struct Provider : wsrep::provider
    {
        World& w;
        struct Trx { long opaque = 0; bool bfed = false, entered = false, certok = false, told = false; long seqno = 0; };
        std::map<long, Trx> trx;
        long last_seqno = 0;
        Provider(wsrep::server_state& s, World& w_) : wsrep::provider(s), w(w_) { }
        long hok(const wsrep::ws_handle& h)
        {
            auto i(trx.find(id(h)));
            return i != trx.end() && (long)h.opaque() == i->second.opaque;
        }
        static long id(const wsrep::ws_handle& h)
        { return h.transaction_id().is_undefined() ? 0 : (long)h.transaction_id().get(); }

        enum status connect(const std::string&, const std::string&, const std::string&, bool) override;
        int disconnect() override;
        int capabilities() const override { return 0; }
        int desync() override;
        int resync() override;
        wsrep::seqno pause() override;
        int resume() override;
        enum status run_applier(wsrep::high_priority_service*) override { return success; }
        int start_transaction(wsrep::ws_handle&) override;
        enum status assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override;
        int append_key(wsrep::ws_handle&, const wsrep::key&) override;
        enum status append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override;
        enum status certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) override;
        enum status bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) override;
        enum status rollback(wsrep::transaction_id) override;
        enum status commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
        int release(wsrep::ws_handle&) override;
        enum status replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override { return success; }
        enum status enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) override;
        enum status leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override;
        std::pair<wsrep::gtid, enum status> causal_read(int) const override;
        enum status wait_for_gtid(const wsrep::gtid&, int) const override { return success; }
        wsrep::gtid last_committed_gtid() const override { return wsrep::gtid(); }
        enum status sst_sent(const wsrep::gtid&, int) override;
        enum status sst_received(const wsrep::gtid&, int) override;
        enum status enc_set_key(const wsrep::const_buffer&) override { return success; }
        std::vector<status_variable> status() const override { return std::vector<status_variable>(); }
        void reset_status() override { }
        std::string options() const override { return ""; }
        enum status options(const std::string&) override { return success; }
        enum status set_node_isolation(enum node_isolation) override { return success; }
        std::string name() const override { return "vh"; }
        std::string version() const override { return "1"; }
        std::string vendor() const override { return "vh"; }
        void* native() const override { return nullptr; }
    };

    // --------------------------------------------------- client service
    struct ClientService : wsrep::client_service
    {
        World& w; Session* s;
        ClientService(World& w_, Session* s_) : w(w_), s(s_) { }
        bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const override;
        void reset_globals() override { }
        void store_globals() override { }
        int prepare_data_for_replication() override;
        void cleanup_transaction() override;
        bool statement_allowed_for_streaming() const override;
        size_t bytes_generated() const override;
        int prepare_fragment_for_replication(wsrep::mutable_buffer&, size_t&) override;
        int remove_fragments() override;
        int bf_rollback() override;
        void emergency_shutdown() override;
        void will_replay() override;
        void signal_replayed() override;
        enum wsrep::provider::status replay() override;
        enum wsrep::provider::status replay_unordered() override;
        void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>&) override;
        enum wsrep::provider::status commit_by_xid() override;
        bool is_explicit_xa() override;
        bool is_prepared_xa() override;
        bool is_xa_rollback() override;
        void debug_sync(const char*) override { }
        void debug_crash(const char*) override { }
        void notify_state_change() override { }
    };

    // ---------------------------------------------------------- session
    struct ClientState : wsrep::client_state
    {
        ClientState(wsrep::mutex& mu, wsrep::condition_variable& c, wsrep::server_state& ss,
                    wsrep::client_service& cs, const wsrep::client_id& id, enum wsrep::client_state::mode m)
            : wsrep::client_state(mu, c, ss, cs, id, m) { }
        
    };

    struct Session
    {
        World& w;
        std::string name;
        long cid;
        co_mutex mx;
        co_cond cv;
        ClientService svc;
        ClientState cs;
        bool logged;              // record events for this session
        // program state visible to the services
        size_t bytes = 0;
        bool xa_explicit = false, xa_prepared = false, xa_rollback = false;
        long wr = 0, sr = 0, cl = 0;
        std::set<long> standby;   // prepared transactions handed over to streaming appliers
        bool in_rollback_cb = false;
        Session(World&, const std::string&, long cid, enum wsrep::client_state::mode, bool logged);

        std::vector<long> pa() const;
        std::vector<std::string> ps() const;
        const wsrep::transaction& tx() const { return cs.transaction(); }
        std::string ts() const { return wsrep::to_c_string(tx().state()); }

        // logged API wrappers
        int api(const char* f, std::vector<long> a, const std::function<int()>& fn);
        int before_command(bool keep = false);
        int before_statement() { return api("before_statement", {}, [this] { return cs.before_statement(); }); }
        int after_statement() { return api("after_statement", {}, [this] { return cs.after_statement(); }); }
        void before_result() { api("before_result", {}, [this] { cs.after_command_before_result(); return 0; }); }
        void after_result() { api("after_result", {}, [this] { cs.after_command_after_result(); return 0; }); }
        int start(long trx) { return api("start", { trx }, [this, trx] { return cs.start_transaction(wsrep::transaction_id((unsigned long long)trx)); }); }
        int append_key(int k);
        int after_row(size_t nbytes);
        int before_prepare() { return api("before_prepare", {}, [this] { return cs.before_prepare(); }); }
        int after_prepare() { return api("after_prepare", {}, [this] { return cs.after_prepare(); }); }
        int before_commit() { return api("before_commit", {}, [this] { return cs.before_commit(); }); }
        int ordered_commit() { return api("ordered_commit", {}, [this] { return cs.ordered_commit(); }); }
        int after_commit() { return api("after_commit", {}, [this] { return cs.after_commit(); }); }
        int before_rollback() { return api("before_rollback", {}, [this] { return cs.before_rollback(); }); }
        int after_rollback() { return api("after_rollback", {}, [this] { return cs.after_rollback(); }); }
        int bf_abort(bool to, long seqno);
        void open() { api("open", {}, [this] { cs.open(wsrep::client_id((unsigned long long)cid)); return 0; }); }
        void close() { api("close", {}, [this] { cs.close(); return 0; }); }
        void cleanup() { api("cleanup", {}, [this] { cs.cleanup(); return 0; }); }
    };

    // -------------------------------------------------- storage service
    struct Storage : wsrep::storage_service
    {
        World& w;
        long adopted = 0;
        bool removed = false;
        Storage(World& w_) : w(w_) { }
        int start_transaction(const wsrep::ws_handle&) override;
        void adopt_transaction(const wsrep::transaction&) override;
        int append_fragment(const wsrep::id&, wsrep::transaction_id, int, const wsrep::const_buffer&, const wsrep::xid&) override;
        int update_fragment_meta(const wsrep::ws_meta&) override;
        int remove_fragments() override;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        void store_globals() override { }
        void reset_globals() override { }
    };

    // ------------------------------------------- high priority services
    // A recorder: logs what the library asks, and keeps a real high
    // priority client state so that transaction() is meaningful.
    struct Hps : wsrep::high_priority_service
    {
        World& w;
        std::string name;
        Session* s;
        bool quiet = false;
        bool replaying = false;
        bool started = false;
        Hps(World&, const std::string& name);
        ~Hps() override;
        int ask(const char* f, std::vector<long> a, std::vector<std::string> ss = {}, bool can_fail = true);
        int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int next_fragment(const wsrep::ws_meta&) override;
        const wsrep::transaction& transaction() const override { return s->cs.transaction(); }
        int adopt_transaction(const wsrep::transaction&) override;
        int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::const_buffer&, const wsrep::xid&) override;
        int remove_fragments(const wsrep::ws_meta&) override;
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int apply_toi(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int apply_nbo_begin(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        void after_apply() override;
        void store_globals() override;
        void reset_globals() override;
        void switch_execution_context(wsrep::high_priority_service&) override { }
        int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&, wsrep::mutable_buffer&) override;
        void adopt_apply_error(wsrep::mutable_buffer&) override;
        bool is_replaying() const override { return replaying; }
        void debug_crash(const char*) override { }
    };

    // --------------------------------------------------- server service
    struct ServerService : wsrep::server_service
    {
        World& w;
        ServerService(World& w_) : w(w_) { }
        wsrep::storage_service* storage_service(wsrep::client_service&) override;
        wsrep::storage_service* storage_service(wsrep::high_priority_service&) override;
        void release_storage_service(wsrep::storage_service*) override;
        wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) override;
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override;
        void release_high_priority_service(wsrep::high_priority_service*) override;
        void background_rollback(wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state&) override;
        void bootstrap() override;
        void log_message(enum wsrep::log::level, const char*) override { }
        void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) override { }
        void log_view(wsrep::high_priority_service*, const wsrep::view&) override;
        void recover_streaming_appliers(wsrep::client_service&) override;
        void recover_streaming_appliers(wsrep::high_priority_service&) override;
        long position = 0;
        wsrep::view get_view(wsrep::client_service&, const wsrep::id&) override;
        wsrep::gtid get_position(wsrep::client_service&) override;
        void set_position(wsrep::client_service&, const wsrep::gtid&) override;
        void log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state) override;
        bool sst_before_init() const override;
        std::string sst_request() override;
        int start_sst(const std::string&, const wsrep::gtid&, bool) override;
        int wait_committing_transactions(int) override;
        void debug_sync(const char*) override { }
    };

    struct ServerState : wsrep::server_state
    {
        ServerState(World&, co_mutex&, co_cond&, wsrep::server_service&, enum wsrep::server_state::rollback_mode);
    };

    // ------------------------------------------------------------ world
    struct World
    {
        Sim& sim;
        Cfg cfg;
        bool logging = false;
        co_mutex smx;
        co_cond scv;
        ServerService ssvc;
        std::unique_ptr<ServerState> server;
        Provider* provider = nullptr;
        std::map<std::string, Session*> sessions;
        std::map<wsrep::client_state*, Session*> by_cs;
        std::vector<std::pair<Session*, long>> rollback_queue; // background rollbacker
        std::deque<Hps*> hps;                 // alive
        long hps_count = 0;
        bool shutdown = false;
        wsrep::id group;
        wsrep::id own;
        World(Sim&, const Cfg&);
        ~World();
        long c(const char* k, long d = 0) const { return cfg_get(cfg, k, d); }
        void log(const char* k, const std::string& f, std::vector<long> a = {}, std::vector<std::string> s = {})
        { if (logging) sim.log(k, f, std::move(a), std::move(s)); }
        // outcome choice for a callback; o[0] is the normal outcome
        int pick(const char* cls, std::vector<int> o)
        {
            // 0: never, 1: within the fault budget, 3: free choice
            long v(c(cls, c("faults", 1)));
            if (!logging || !v) return o[0];
            return o[(size_t)sim.choose((int)o.size(), C_FAULT, v == 3)];
        }
        wsrep::view view(enum wsrep::view::status st, long seqno, long view_seqno, const std::vector<std::string>& members, int own_index);
        enum wsrep::server_state::state peek() { smx.bypass = true; auto r(server->state()); smx.bypass = false; return r; }
        void bring_up();                      // connect, join, sync without logging
        Session* session(const std::string& name, long cid, enum wsrep::client_state::mode m, bool logged);
        // hooks overridable by suites
        std::function<Hps*(const std::string&)> make_hps;
        std::function<void()> recover_impl;
        std::function<void(enum wsrep::server_state::state)> on_state; // announced server states
        std::function<void()> toi_late;       // make the deadline pass
        bool toi_deadline = false, toi_intr = false; long toi_tries = 0;
        std::function<void()> on_order; // just before commit order is entered or left
        std::function<void(long)> on_removed; // fragments removed by storage service
        std::string ctx;                      // whose execution context is current
        std::function<int(Session&)> bf_rollback_impl;
        std::function<pstat(Session&)> replay_impl, replay_unordered_impl, commit_by_xid_impl;
        std::function<void(wsrep::unique_lock<wsrep::mutex>&, Session&)> background_impl;
    };

    struct Quiet
    {
        World& w; bool was;
        Quiet(World& w_) : w(w_), was(w_.logging) { w.logging = false; }
        ~Quiet() { w.logging = was; }
    };
    typedef void (*Suite)(World&, Sim&);
    Suite find_suite(const std::string&);
}
