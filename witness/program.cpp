// One correct program; every -DBAD=<n> replaces one construct in it by a wrong one, and has to be refused by the compiler.
#include "rotor.hpp"
#include <string>
#ifndef BAD
#define BAD 0
#endif
namespace r = rotor;

namespace payload {
struct plain_t {
    std::string text;
    int number;
    plain_t(const std::string &text_, int number_) : text(text_), number(number_) {}
};
struct answer_t {
    int value = 0;
    answer_t() = default;
    explicit answer_t(int v) : value{v} {}
};
struct no_default_t {
    int value;
    explicit no_default_t(int v) : value{v} {}
};
struct question_t {
    using response_t = answer_t;
    std::string text;
    explicit question_t(const std::string &t) : text{t} {}
};
struct bad_question_t {
    using response_t = no_default_t;
    int v = 0;
};
} // namespace payload
namespace message {
using plain_t = r::message_t<payload::plain_t>;
using question_t = r::request_traits_t<payload::question_t>::request::message_t;
using answer_t = r::request_traits_t<payload::question_t>::response::message_t;
} // namespace message

struct impostor_t { // looks like a message
    using payload_t = payload::plain_t;
};

struct user_t;
struct bystander_t { // neither an actor nor a plugin
    void on_plain(message::plain_t &) noexcept {}
};

struct plug_t : r::plugin::plugin_base_t {
    static std::type_index class_id;
    const std::type_index &identity() const noexcept override { return class_id; }
    void activate(r::actor_base_t *a) noexcept override {
        plugin_base_t::activate(a);
#if BAD == 1 // a plugin subscribes the method of something that is no plugin
        subscribe(&bystander_t::on_plain);
#elif BAD == 2 // a plugin's handler that may throw
        subscribe(&plug_t::on_throwing);
#elif BAD == 3 // a plugin's handler of something that is no message
        subscribe(&plug_t::on_number);
#elif BAD == 4
        subscribe(&plug_t::on_impostor);
#else
        subscribe(&plug_t::on_plain);
#endif
        subscribe(&plug_t::on_plain, a->get_address());
    }
    void on_plain(message::plain_t &) noexcept {}
    void on_throwing(message::plain_t &) {}
    void on_number(int &) noexcept {}
    void on_impostor(impostor_t &) noexcept {}
};
std::type_index plug_t::class_id = typeid(plug_t);

struct base_actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void on_inherited(message::plain_t &) noexcept {}
};

struct user_t : base_actor_t {
    using base_actor_t::base_actor_t;
    void configure(r::plugin::plugin_base_t &plugin) noexcept override {
        r::actor_base_t::configure(plugin);
        plugin.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
#if BAD == 10 // a method of a class that is no actor
            p.subscribe_actor(&bystander_t::on_plain);
#elif BAD == 11 // a handler that may throw
            p.subscribe_actor(&user_t::on_throwing);
#elif BAD == 12 // the parameter is no message
            p.subscribe_actor(&user_t::on_number);
#elif BAD == 13 // the parameter only looks like a message
            p.subscribe_actor(&user_t::on_impostor);
#elif BAD == 14 // by value
            p.subscribe_actor(&user_t::on_value);
#elif BAD == 15 // two parameters
            p.subscribe_actor(&user_t::on_two);
#elif BAD == 16 // the payload instead of the message
            p.subscribe_actor(&user_t::on_payload);
#elif BAD == 17 // a result
            p.subscribe_actor(&user_t::on_result);
#else
            p.subscribe_actor(&user_t::on_plain);
#endif
            p.subscribe_actor(&user_t::on_inherited);
            p.subscribe_actor(&user_t::on_question, address);
#if BAD == 20 // a lambda for something that is no message
            p.subscribe_actor(r::lambda<impostor_t>([](impostor_t &) noexcept {}));
#elif BAD == 21 // a lambda that takes another message than declared
            p.subscribe_actor(r::lambda<message::plain_t>([](message::question_t &) noexcept {}));
#elif BAD == 22 // a bare lambda, without the declared message
            p.subscribe_actor([](message::plain_t &) noexcept {});
#else
            p.subscribe_actor(r::lambda<message::plain_t>([](message::plain_t &) noexcept {}));
#endif
        });
        plugin.with_casted<r::plugin::registry_plugin_t>([&](auto &p) { p.discover_name("peer", peer, true).link(); });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        subscribe(&user_t::on_answer);
#if BAD == 30 // the actor itself: a bystander's method
        subscribe(&bystander_t::on_plain);
#elif BAD == 31
        subscribe(&user_t::on_throwing);
#elif BAD == 32
        subscribe(&user_t::on_number);
#else
        subscribe(&user_t::on_plain, peer);
#endif
#if BAD == 40 // the payload cannot be made of this
        send<payload::plain_t>(peer, 1, "text", 3);
#elif BAD == 41
        send<payload::plain_t>(peer);
#elif BAD == 42 // no address
        send<payload::plain_t>(std::string("peer"), "text", 3);
#else
        send<payload::plain_t>(peer, "text", 3);
#endif
#if BAD == 43 // a request of something that names no response
        request<payload::plain_t>(peer, "text", 3).send(timeout);
#elif BAD == 44 // a request without the content of it
        request<payload::question_t>(peer).send(timeout);
#elif BAD == 45 // a timeout without unit
        request<payload::question_t>(peer, "text").send(1000);
#elif BAD == 46 // a response that cannot be default-constructed has no error form
        request<payload::bad_question_t>(peer).send(timeout);
#else
        request<payload::question_t>(peer, "text").send(timeout);
#endif
        start_timer(timeout, *this, &user_t::on_timer);
#if BAD == 47 // a callback of another signature
        start_timer(timeout, *this, &user_t::on_bad_timer);
#endif
    }
    void on_plain(message::plain_t &message) noexcept {
#if BAD == 50 // an answer to something that is no request
        reply_to(message, 1);
#elif BAD == 51
        reply_with_error(message, make_error(r::make_error_code(r::error_code_t::cancelled)));
#elif BAD == 52
        auto res = make_response(message, 1);
        (void)res;
#else
        (void)message;
#endif
    }
    void on_question(message::question_t &message) noexcept {
#if BAD == 53 // an answer that is not what the request asks for
        reply_to(message, std::string("one"), 2);
#elif BAD == 54
        reply_with_error(message, 5);
#else
        if (message.payload.request_payload.text.empty()) {
            reply_with_error(message, make_error(r::make_error_code(r::error_code_t::cancelled)));
        } else {
            reply_to(message, 1);
        }
#endif
    }
    void on_answer(message::answer_t &message) noexcept {
        auto &ee = message.payload.ee;
        if (!ee) {
            number += message.payload.res.value + static_cast<int>(message.payload.req->payload.request_payload.text.size());
        }
    }
    void on_throwing(message::plain_t &) {}
    void on_number(int &) noexcept {}
    void on_impostor(impostor_t &) noexcept {}
    void on_value(message::plain_t) noexcept {}
    void on_two(message::plain_t &, message::plain_t &) noexcept {}
    void on_payload(payload::plain_t &) noexcept {}
    int on_result(message::plain_t &) noexcept { return 0; }
    void on_timer(r::request_id_t, bool) noexcept {}
    void on_bad_timer(int, int, int) noexcept {}
    r::address_ptr_t peer;
    r::pt::time_duration timeout = r::pt::milliseconds{10};
    int number = 0;
};

struct sup_t : r::supervisor_t {
    using r::supervisor_t::supervisor_t;
    void do_start_timer(const r::pt::time_duration &, r::timer_handler_base_t &) noexcept override {}
    void do_cancel_timer(r::request_id_t) noexcept override {}
    void start() noexcept override {}
    void shutdown() noexcept override {}
    void enqueue(r::message_ptr_t) noexcept override {}
    void make() {
#if BAD == 60 // not an actor
        create_actor<bystander_t>().timeout(shutdown_timeout).finish();
#elif BAD == 61 // no such option
        create_actor<user_t>().timeout(shutdown_timeout).colour(1).finish();
#elif BAD == 62 // a timeout without unit
        create_actor<user_t>().timeout(1000).finish();
#else
        auto actor = create_actor<user_t>().timeout(shutdown_timeout).finish();
        (void)actor;
#endif
#if BAD == 63 // supervisors are not copied
        sup_t copy(*this);
#elif BAD == 64 // a factory that does not make actors
        spawn([](r::supervisor_t &, const r::address_ptr_t &) -> int { return 0; }).spawn();
#elif BAD == 65 // a factory of another signature
        spawn([](int) -> r::actor_ptr_t { return {}; }).spawn();
#else
        spawn([](r::supervisor_t &sup, const r::address_ptr_t &spawner) -> r::actor_ptr_t {
            return sup.create_actor<user_t>().timeout(r::pt::seconds{1}).spawner_address(spawner).finish();
        }).restart_policy(r::restart_policy_t::always).spawn();
#endif
    }
};

struct context_t : r::system_context_t {};

int main() {
    r::intrusive_ptr_t<context_t> ctx(new context_t());
#if BAD == 70 // contexts are not copied
    context_t copy(*ctx);
#elif BAD == 71 // a root supervisor that is none
    auto sup = ctx->create_supervisor<user_t>().timeout(r::pt::seconds{1}).finish();
#else
    auto sup = ctx->create_supervisor<sup_t>().timeout(r::pt::seconds{1}).finish();
    sup->make();
    sup->do_process();
#endif
    return 0;
}
