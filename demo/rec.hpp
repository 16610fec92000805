// Scripted stand-ins for everything wsrep-lib calls out to.  Every call is recorded by name in
// W.log; W.on["name"] may hold an action whose result becomes the call's result.
#ifndef REC_HPP
#define REC_HPP
#include "wsrep/provider.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/client_state.hpp"
#include "wsrep/client_service.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/view.hpp"
#include "wsrep/logger.hpp"
#include "wsrep/exception.hpp"
#include "wsrep/xid.hpp"
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <algorithm>
#include <memory>

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); \
    fflush(stderr); _Exit(1); } } while (0)

namespace rec
{
    typedef enum wsrep::provider::status pstat;

    struct world
    {
        std::vector<std::string> log;
        std::map<std::string, std::function<int()> > on;
        int call(const std::string& n, int dflt = 0)
        {
            log.push_back(n);
            std::map<std::string, std::function<int()> >::iterator i(on.find(n));
            return i == on.end() ? dflt : i->second();
        }
        size_t count(const std::string& n) const
        { return size_t(std::count(log.begin(), log.end(), n)); }
        size_t pos(const std::string& n) const
        { return size_t(std::find(log.begin(), log.end(), n) - log.begin()); }
        void dump() const
        { for (size_t i(0); i < log.size(); ++i) fprintf(stderr, "  %s\n", log[i].c_str()); }
        long long seqno = 0;
        wsrep::ws_meta last_meta;
        int last_flags = 0;
        wsrep::gtid position;
        wsrep::view logged_view;
        wsrep::seqno pause_seqno{1};
        size_t frag_size = 1;
        size_t bytes = 1;
        bool before_init = false;
        bool ordered_on_error = false;
        std::vector<wsrep::transaction_id> rollbacks;
    };

    class recprov : public wsrep::provider
    {
    public:
        world& W;
        recprov(wsrep::server_state& s, world& w) : wsrep::provider(s), W(w) { }
        pstat connect(const std::string&, const std::string&, const std::string&, bool) override
        { return pstat(W.call("connect")); }
        int disconnect() override { return W.call("disconnect"); }
        int capabilities() const override { return 0; }
        int desync() override { return W.call("desync"); }
        int resync() override { return W.call("resync"); }
        wsrep::seqno pause() override { W.call("pause"); return W.pause_seqno; }
        int resume() override { return W.call("resume"); }
        pstat run_applier(wsrep::high_priority_service*) override { return pstat(W.call("run_applier")); }
        int start_transaction(wsrep::ws_handle&) override { return W.call("p.start_transaction"); }
        pstat assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override
        { return pstat(W.call("assign_read_view")); }
        int append_key(wsrep::ws_handle&, const wsrep::key&) override { return W.call("append_key"); }
        pstat append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override
        { return pstat(W.call("append_data")); }
        pstat certify(wsrep::client_id c, wsrep::ws_handle& h, int flags, wsrep::ws_meta& m,
                       const seq_cb_t*) override
        {
            h = wsrep::ws_handle(h.transaction_id(), (void*)1);
            W.last_flags = flags;
            int r(W.call("certify"));
            if (r == 0 || W.ordered_on_error)
            {
                ++W.seqno;
                m = wsrep::ws_meta(wsrep::gtid(wsrep::id("1"), wsrep::seqno(W.seqno)),
                                   wsrep::stid(wsrep::id("1"), h.transaction_id(), c),
                                   wsrep::seqno(W.seqno - 1), flags);
                W.last_meta = m;
            }
            return pstat(r);
        }
        pstat bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno& v) override
        { v = wsrep::seqno::undefined(); return pstat(W.call("p.bf_abort")); }
        pstat rollback(wsrep::transaction_id id) override
        { W.rollbacks.push_back(id); return pstat(W.call("p.rollback")); }
        pstat commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta& m) override
        { W.last_meta = m; return pstat(W.call("co_enter")); }
        int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer& e) override
        { if (e.size()) W.log.push_back("co_leave_err"); return W.call("co_leave"); }
        int release(wsrep::ws_handle&) override { return W.call("release"); }
        pstat replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override
        { return pstat(W.call("p.replay")); }
        pstat enter_toi(wsrep::client_id c, const wsrep::key_array&, const wsrep::const_buffer&,
                         wsrep::ws_meta& m, int flags) override
        {
            W.last_flags = flags;
            W.last_meta = m;
            int r(W.call("enter_toi"));
            if (r == 0 || W.ordered_on_error)
            {
                ++W.seqno;
                m = wsrep::ws_meta(wsrep::gtid(wsrep::id("1"), wsrep::seqno(W.seqno)),
                                   wsrep::stid(wsrep::id("1"), wsrep::transaction_id::undefined(), c),
                                   wsrep::seqno(W.seqno - 1), flags);
            }
            return pstat(r);
        }
        pstat leave_toi(wsrep::client_id, const wsrep::ws_meta& m, const wsrep::mutable_buffer& e) override
        { W.last_meta = m; if (e.size()) W.log.push_back("leave_toi_err"); return pstat(W.call("leave_toi")); }
        std::pair<wsrep::gtid, pstat> causal_read(int) const override
        { int r(W.call("causal_read")); return std::make_pair(W.position, pstat(r)); }
        pstat wait_for_gtid(const wsrep::gtid&, int) const override { return pstat(W.call("wait_for_gtid")); }
        wsrep::gtid last_committed_gtid() const override { return wsrep::gtid(); }
        pstat sst_sent(const wsrep::gtid&, int e) override
        { if (e) W.log.push_back("sst_sent_err"); return pstat(W.call("sst_sent")); }
        pstat sst_received(const wsrep::gtid&, int e) override
        { if (e) W.log.push_back("sst_received_err"); return pstat(W.call("sst_received")); }
        pstat enc_set_key(const wsrep::const_buffer&) override { return pstat(W.call("enc_set_key")); }
        std::vector<status_variable> status() const override { return std::vector<status_variable>(); }
        void reset_status() override { }
        std::string options() const override { return ""; }
        enum wsrep::provider::status options(const std::string&) override { return success; }
        enum wsrep::provider::status set_node_isolation(enum node_isolation) override
        { return error_not_implemented; }
        std::string name() const override { return "rec"; }
        std::string version() const override { return "0"; }
        std::string vendor() const override { return "rec"; }
        void* native() const override { return 0; }
    };

    class client;

    class storage : public wsrep::storage_service
    {
    public:
        world& W;
        storage(world& w) : W(w) { }
        int start_transaction(const wsrep::ws_handle&) override { return W.call("s.start"); }
        void adopt_transaction(const wsrep::transaction&) override { W.call("s.adopt"); }
        int append_fragment(const wsrep::id&, wsrep::transaction_id, int flags, const wsrep::const_buffer&,
                            const wsrep::xid&) override
        { W.last_flags = flags; return W.call("s.append"); }
        int update_fragment_meta(const wsrep::ws_meta& m) override
        { if (m.seqno().is_undefined()) W.log.push_back("s.update_undef"); return W.call("s.update"); }
        int remove_fragments() override { return W.call("s.remove"); }
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta& m) override
        { if (m.seqno().is_undefined()) W.log.push_back("s.commit_unordered"); return W.call("s.commit"); }
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return W.call("s.rollback"); }
        void store_globals() override { W.call("s.store_globals"); }
        void reset_globals() override { W.call("s.reset_globals"); }
    };

    class hps : public wsrep::high_priority_service
    {
    public:
        world& W;
        client* c;
        hps(wsrep::server_state& s, client* cl, world& w)
            : wsrep::high_priority_service(s), W(w), c(cl) { }
        int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int next_fragment(const wsrep::ws_meta&) override;
        const wsrep::transaction& transaction() const override;
        int adopt_transaction(const wsrep::transaction&) override;
        int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer&) override;
        int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&,
                                       const wsrep::const_buffer&, const wsrep::xid&) override
        { return W.call("h.append_fragment_and_commit"); }
        int remove_fragments(const wsrep::ws_meta&) override { return W.call("h.remove_fragments"); }
        int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
        int apply_toi(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer& e) override
        { int r(W.call("h.apply_toi")); if (r) e.push_back(std::string("err")); return r; }
        int apply_nbo_begin(const wsrep::ws_meta&, const wsrep::const_buffer&, wsrep::mutable_buffer& e) override
        { int r(W.call("h.apply_nbo_begin")); if (r) e.push_back(std::string("err")); return r; }
        void after_apply() override;
        void store_globals() override { W.call("h.store_globals"); }
        void reset_globals() override { W.call("h.reset_globals"); }
        void switch_execution_context(wsrep::high_priority_service&) override { W.call("h.switch"); }
        int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&, wsrep::mutable_buffer& e) override
        { if (e.size()) W.log.push_back("h.log_dummy_err"); return W.call("h.log_dummy"); }
        void adopt_apply_error(wsrep::mutable_buffer& e) override;
        bool is_replaying() const override { return replaying; }
        void debug_crash(const char*) override { }
        bool replaying = false;
    };

    class service : public wsrep::client_service
    {
    public:
        world& W;
        client* c;
        service(world& w, client* cl) : W(w), c(cl) { }
        bool interrupted(wsrep::unique_lock<wsrep::mutex>&) const override { return W.call("interrupted"); }
        void reset_globals() override { W.call("reset_globals"); }
        void store_globals() override { W.call("store_globals"); }
        int prepare_data_for_replication() override { return W.call("prepare_data"); }
        void cleanup_transaction() override { W.call("cleanup_transaction"); }
        bool statement_allowed_for_streaming() const override { return W.call("allowed_streaming", 1); }
        size_t bytes_generated() const override { return W.bytes; }
        int prepare_fragment_for_replication(wsrep::mutable_buffer& b, size_t& pos) override
        {
            int r(W.call("prepare_fragment"));
            for (size_t i(0); i < W.frag_size; ++i) { const char x(1); b.push_back(&x, &x + 1); }
            pos = W.bytes;
            return r;
        }
        int remove_fragments() override { return W.call("remove_fragments"); }
        int bf_rollback() override;
        void emergency_shutdown() override { W.call("emergency_shutdown"); }
        void will_replay() override { W.call("will_replay"); }
        void signal_replayed() override { W.call("signal_replayed"); }
        pstat replay() override { return pstat(W.call("replay")); }
        pstat replay_unordered() override { return pstat(W.call("replay_unordered")); }
        void wait_for_replayers(wsrep::unique_lock<wsrep::mutex>& l) override
        { l.unlock(); W.call("wait_for_replayers"); l.lock(); }
        pstat commit_by_xid() override { return pstat(W.call("commit_by_xid")); }
        bool is_explicit_xa() override { return W.call("is_explicit_xa"); }
        bool is_prepared_xa() override { return W.call("is_prepared_xa"); }
        bool is_xa_rollback() override { return W.call("is_xa_rollback"); }
        void debug_sync(const char* s) override { W.call(std::string("sync:") + s); }
        void debug_crash(const char*) override { }
        void notify_state_change() override { W.call("notify"); }
    };

    struct mtx { wsrep::default_mutex m; wsrep::default_condition_variable cv; };

    class client : private mtx, public wsrep::client_state
    {
    public:
        world& W;
        service svc;
        client(wsrep::server_state& s, world& w, unsigned id, enum wsrep::client_state::mode md)
            : wsrep::client_state(m, cv, s, svc, wsrep::client_id(id), md), W(w), svc(w, this) { }
        ~client() { }
        using mtx::m;
        int bf(bool total = false)
        { return total ? total_order_bf_abort(wsrep::seqno(1)) : bf_abort(wsrep::seqno(1)); }
    };

    inline int service::bf_rollback()
    { W.call("bf_rollback"); c->before_rollback(); c->after_rollback(); return 0; }
    inline int hps::start_transaction(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    { W.call("h.start"); return c->start_transaction(h, m); }
    inline int hps::next_fragment(const wsrep::ws_meta& m) { W.call("h.next"); return c->next_fragment(m); }
    inline const wsrep::transaction& hps::transaction() const { return c->transaction(); }
    inline int hps::adopt_transaction(const wsrep::transaction& t)
    {
        int r(W.call("h.adopt"));
        if (r) return r;
        c->adopt_transaction(t);
        if (t.state() == wsrep::transaction::s_prepared) c->restore_xid(t.xid());
        return 0;
    }
    inline int hps::apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer&, wsrep::mutable_buffer& e)
    {
        int r(W.call("h.apply"));
        if (r) { e.push_back(std::string("err")); return r; }
        if (!(m.flags() & wsrep::provider::flag::commit)) c->fragment_applied(m.seqno());
        return 0;
    }
    inline int hps::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        int r(W.call("h.commit"));
        if (r) return r;
        c->prepare_for_ordering(h, m, true);
        if (m.seqno().is_undefined()) { c->before_rollback(); c->after_rollback(); return 0; }
        return c->before_commit() || c->ordered_commit() || c->after_commit();
    }
    inline int hps::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
    {
        W.call(m.seqno().is_undefined() ? "h.rollback_unordered" : "h.rollback_ordered");
        c->prepare_for_ordering(h, m, false);
        return c->before_rollback() || c->after_rollback();
    }
    inline void hps::after_apply() { W.call("h.after_apply"); c->after_applying(); }
    inline void hps::adopt_apply_error(wsrep::mutable_buffer& e)
    { if (e.size()) W.log.push_back("h.adopt_err"); c->adopt_apply_error(e); }

    class server_svc : public wsrep::server_service
    {
    public:
        world& W;
        wsrep::server_state* s = 0;
        unsigned next = 100;
        server_svc(world& w) : W(w) { }
        wsrep::storage_service* storage_service(wsrep::client_service&) override
        { W.call("storage_service"); return new storage(W); }
        wsrep::storage_service* storage_service(wsrep::high_priority_service&) override
        { W.call("storage_service"); return new storage(W); }
        void release_storage_service(wsrep::storage_service* p) override
        { W.call("release_storage_service"); delete p; }
        wsrep::high_priority_service* sa()
        {
            if (W.call("streaming_applier_service")) return 0;
            client* c(new client(*s, W, next++, wsrep::client_state::m_high_priority));
            c->open(c->id());
            c->before_command();
            return new hps(*s, c, W);
        }
        wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) override { return sa(); }
        wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&) override
        { return sa(); }
        void release_high_priority_service(wsrep::high_priority_service* h) override
        {
            W.call("release_hps");
            hps* p(static_cast<hps*>(h));
            p->c->after_command_before_result();
            p->c->after_command_after_result();
            p->c->close();
            p->c->cleanup();
            delete p->c;
            delete p;
        }
        void background_rollback(wsrep::unique_lock<wsrep::mutex>&, wsrep::client_state&) override
        { W.call("background_rollback"); }
        void bootstrap() override { W.call("bootstrap"); }
        void log_message(enum wsrep::log::level, const char*) override { }
        void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) override
        { W.call("log_dummy_write_set"); }
        void log_view(wsrep::high_priority_service*, const wsrep::view& v) override
        { W.logged_view = v; W.call("log_view"); }
        void recover_streaming_appliers(wsrep::client_service&) override { W.call("recover_streaming"); }
        void recover_streaming_appliers(wsrep::high_priority_service&) override { W.call("recover_streaming"); }
        wsrep::view get_view(wsrep::client_service&, const wsrep::id&) override
        { W.call("get_view"); return W.logged_view; }
        wsrep::gtid get_position(wsrep::client_service&) override { W.call("get_position"); return W.position; }
        void set_position(wsrep::client_service&, const wsrep::gtid& g) override
        { W.call("set_position"); W.position = g; }
        void log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state n) override
        { W.call(std::string("state:") + wsrep::to_c_string(n)); }
        bool sst_before_init() const override { return W.before_init; }
        std::string sst_request() override { W.call("sst_request"); return ""; }
        int start_sst(const std::string&, const wsrep::gtid&, bool) override { return W.call("start_sst"); }
        int wait_committing_transactions(int) override { return W.call("wait_committing"); }
        void debug_sync(const char* n) override { W.call(std::string("sync:") + n); }
    };

    class server : private mtx, public wsrep::server_state
    {
    public:
        world& W;
        server(world& w, server_svc& ss, enum rollback_mode rm = rm_sync)
            : wsrep::server_state(m, cv, ss, NULL, "s1", "", "", "./", wsrep::gtid::undefined(), 1, rm), W(w)
        {
            ss.s = this;
            set_provider_factory([this](wsrep::server_state&, const std::string&, const std::string&,
                                        const wsrep::provider::services&)
            { return std::unique_ptr<wsrep::provider>(new recprov(*this, W)); });
            if (load_provider("rec", "")) abort();
        }
        using mtx::m;
        static wsrep::view mkview(enum wsrep::view::status st, long long seqno, int nmembers = 1, int own = 0)
        {
            std::vector<wsrep::view::member> mm;
            for (int i(0); i < nmembers; ++i)
                mm.push_back(wsrep::view::member(wsrep::id(std::string("s") + char('1' + i)), "n", ""));
            return wsrep::view(wsrep::gtid(wsrep::id("1"), wsrep::seqno(seqno)), wsrep::seqno(1), st, 0, own, 1, mm);
        }
        void up()
        {
            connect("c", "local", "0", false);
            on_connect(mkview(wsrep::view::primary, 0));
        }
    };

    // one local session with an open transaction
    struct session
    {
        world W;
        server_svc ss;
        server s;
        client c;
        session(enum wsrep::server_state::rollback_mode rm = wsrep::server_state::rm_sync)
            : W(), ss(W), s(W, ss, rm), c(s, W, 1, wsrep::client_state::m_local)
        {
            s.up();
            c.open(c.id());
        }
        void begin(unsigned id = 1)
        {
            CHECK(c.before_command() == 0);
            CHECK(c.before_statement() == 0);
            CHECK(c.start_transaction(wsrep::transaction_id(id)) == 0);
        }
        void end_command()
        {
            c.after_command_before_result();
            c.after_command_after_result();
        }
        enum wsrep::transaction::state st() const { return c.transaction().state(); }
    };

    inline void quiet() { wsrep::log::logger_fn([](wsrep::log::level, const char*, const char*) { }); }
}
#endif
