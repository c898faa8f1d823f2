// Instantiates the header templates of rotor the way a user program does, so that their definitions are analysed.
// Never built or run: only parsed.
#include "rotor.hpp"
#include "rotor/asio.hpp"
#include "rotor/ev.hpp"
#include "rotor/fltk.hpp"
#include "rotor/thread.hpp"
#include "rotor/wx.hpp"
#include "rotor/asio/forwarder.hpp"
namespace drv {
namespace r = rotor;
namespace payload {
struct note_t { int value; };
struct answer_t { int value = 0; answer_t() = default; explicit answer_t(int v) : value{v} {} };
struct question_t { using response_t = answer_t; int value; };
struct ref_answer_t : r::arc_base_t<ref_answer_t> { int value; ref_answer_t(int v = 0) : value{v} {} };
struct ref_question_t : r::arc_base_t<ref_question_t> { using response_t = r::intrusive_ptr_t<ref_answer_t>; int value; explicit ref_question_t(int v) : value{v} {} };
struct wide_question_t : r::arc_base_t<wide_question_t> { using response_t = r::intrusive_ptr_t<ref_answer_t>; int value; explicit wide_question_t(int v) : value{v} {} };
} // namespace payload
using note_t = r::message_t<payload::note_t>;
using question_t = r::request_traits_t<payload::question_t>::request::message_t;
using answer_t = r::request_traits_t<payload::question_t>::response::message_t;
using ref_question_t = r::request_traits_t<payload::ref_question_t>::request::message_t;
using cancel_t = r::request_traits_t<payload::question_t>::cancel::message_t;

struct plug_t : r::plugin::plugin_base_t {
    using r::plugin::plugin_base_t::plugin_base_t;
    static const std::type_index class_identity;
    const std::type_index &identity() const noexcept override { return class_identity; }
    void on_note(note_t &) noexcept {}
    void activate(r::actor_base_t *a) noexcept override {
        plugin_base_t::activate(a);
        subscribe(&plug_t::on_note);
        subscribe(&plug_t::on_note, a->get_address());
    }
};

struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void on_note(note_t &) noexcept {}
    void on_timer(r::request_id_t, bool) noexcept {}
    void on_question(question_t &m) noexcept { reply_to(m, 5); }
    void on_ref_question(ref_question_t &m) noexcept { reply_to(m, 5); }
    void on_answer(answer_t &) noexcept {}
    void configure(r::plugin::plugin_base_t &plugin) noexcept override {
        plugin.with_casted<r::plugin::starter_plugin_t>([this](auto &p) {
            p.subscribe_actor(&actor_t::on_note);
            p.subscribe_actor(&actor_t::on_note, address);
            p.subscribe_actor(r::lambda<note_t>([](note_t &) noexcept {}));
        });
        plugin.with_casted<r::plugin::registry_plugin_t>([this](auto &p) {
            p.register_name("n", address);
            p.discover_name("n", peer, true).link(true).callback([](auto, auto &) noexcept {});
        });
        plugin.with_casted<r::plugin::link_client_plugin_t>([this](auto &p) {
            p.link(peer, true, [](auto &) {});
            p.on_unlink([](auto &) { return false; });
        });
        plugin.with_casted<r::plugin::address_maker_plugin_t>([](auto &p) { p.set_identity("x", true); });
        plugin.with_casted<r::plugin::resources_plugin_t>([](auto &p) { p.acquire(0); }, r::plugin::config_phase_t::PREINIT);
        plugin.with_casted<r::plugin::link_server_plugin_t>([](auto &p) { p.has_clients(); });
    }
    r::address_ptr_t peer;
    void all() {
        subscribe(&actor_t::on_note);
        subscribe(&actor_t::on_note, peer);
        unsubscribe(&actor_t::on_note);
        unsubscribe(&actor_t::on_note, peer);
        send<payload::note_t>(peer, 1);
        route<payload::note_t>(peer, address, 1);
        request<payload::question_t>(peer, 1).send(r::pt::seconds{1});
        request<payload::ref_question_t>(peer, 1).send(r::pt::seconds{1});
        request_via<payload::question_t>(peer, address, 1).send(r::pt::seconds{1});
        auto id = start_timer(r::pt::seconds{1}, *this, &actor_t::on_timer);
        cancel_timer(id);
    }
    void errors(question_t &q, ref_question_t &rq) {
        reply_with_error(q, make_error(r::make_error_code(r::error_code_t::cancelled)));
        reply_with_error(rq, make_error(r::make_error_code(r::error_code_t::cancelled)));
        redirect(r::message_ptr_t(&q), peer, address);
        auto m = make_response(q, 1);
        auto c = r::make_message<r::request_traits_t<payload::question_t>::cancel::message_t::payload_t>(peer, q.payload.id, peer);
    }
};

// asio ------------------------------------------------------------------------------------------------------------
struct asio_actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    auto &get_strand() noexcept { return static_cast<r::asio::supervisor_asio_t *>(supervisor)->get_strand(); }
    void on_done() noexcept {}
    void on_bytes(std::size_t) noexcept {}
    void on_error(const boost::system::error_code &) noexcept {}
    void all(boost::asio::ip::tcp::socket &s, boost::asio::steady_timer &t) {
        boost::system::error_code ec;
        auto f1 = r::asio::forwarder_t(*this, &asio_actor_t::on_done, &asio_actor_t::on_error);
        f1(ec);
        auto f2 = r::asio::forwarder_t(*this, &asio_actor_t::on_bytes, &asio_actor_t::on_error);
        f2(ec, std::size_t{1});
        auto f3 = r::asio::forwarder_t(*this, &asio_actor_t::on_done);
        f3();
        auto f4 = r::asio::forwarder_t(*this, &asio_actor_t::on_bytes);
        f4(std::size_t{1});
    }
};

template <typename B> void common(B &&b, const std::atomic_bool &flag, const r::address_ptr_t &a) {
    auto x = std::move(b).timeout(r::pt::seconds{1}).init_timeout(r::pt::seconds{1}).shutdown_timeout(r::pt::seconds{1})
        .spawner_address(a).escalate_failure().autoshutdown_supervisor().policy(r::supervisor_policy_t::shutdown_self)
        .create_registry().synchronize_start().registry_address(a).inbound_queue_size(5).poll_duration(r::pt::seconds{1})
        .shutdown_flag(flag, r::pt::seconds{1}).finish();
}

struct plain_sup_t : r::supervisor_t {
    using r::supervisor_t::supervisor_t;
    void start() noexcept override {}
    void shutdown() noexcept override {}
    void enqueue(r::message_ptr_t) noexcept override {}
    void do_start_timer(const r::pt::time_duration &, r::timer_handler_base_t &) noexcept override {}
    void do_cancel_timer(r::request_id_t) noexcept override {}
};

void builders(r::system_context_t &c, r::supervisor_t &s, const std::atomic_bool &f, const r::address_ptr_t &a,
              std::shared_ptr<boost::asio::io_context::strand> &strand, struct ev_loop *loop, wxEvtHandler *h,
              r::asio::system_context_asio_t &ca, r::ev::system_context_ev_t &ce, r::fltk::system_context_fltk_t &cf,
              r::wx::system_context_wx_t &cw, r::thread::system_context_thread_t &ct) {
    common(c.create_supervisor<plain_sup_t>(), f, a);
    common(s.create_actor<plain_sup_t>(), f, a);
    s.create_actor<actor_t>().timeout(r::pt::seconds{1}).finish();
    common(ca.create_supervisor<r::asio::supervisor_asio_t>().strand(strand).guard_context(true), f, a);
    common(ce.create_supervisor<r::ev::supervisor_ev_t>().loop(loop).loop_ownership(true), f, a);
    common(cf.create_supervisor<r::fltk::supervisor_fltk_t>(), f, a);
    common(cw.create_supervisor<r::wx::supervisor_wx_t>().handler(h), f, a);
    common(ct.create_supervisor<r::thread::supervisor_thread_t>(), f, a);
    s.spawn([](r::supervisor_t &s, const r::address_ptr_t &a) { return s.create_actor<actor_t>().timeout(r::pt::seconds{1}).spawner_address(a).finish(); })
        .restart_period(r::pt::seconds{1}).restart_policy(r::restart_policy_t::always).max_attempts(3).escalate_failure().spawn();
}
} // namespace drv
