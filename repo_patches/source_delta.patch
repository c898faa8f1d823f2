From c92272eda30bfd7c36e79758db701fa6e3b3ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 01/22] fix: do not poll initialization when a link response
 arrives during shutdown

---
 src/rotor/plugin/link_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index aa30779..f7d77d2 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -83,7 +83,7 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
         } */
     } else {
         it->second.state = link_state_t::OPERATIONAL;
-        if (actor->access<to::init_request>()) {
+        if (actor->access<to::init_request>() && actor->access<to::state>() == state_t::INITIALIZING) {
             actor->init_continue();
         }
     }
-- 
2.43.0


From e5059f49b813675cea939b0d22d568a64047c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 02/22] fix: registry plugin tolerates answers that arrive
 after a failure or during shutdown

---
 src/rotor/plugin/registry.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d373412..b42fdd5 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -84,7 +84,9 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = register_map.find(service);
-    assert(it != register_map.end());
+    if (it == register_map.end()) {
+        return; // already forgotten, as the actor is shutting down
+    }
     if (ee) {
         register_map.erase(it);
     } else {
@@ -106,10 +108,13 @@ void registry_plugin_t::on_future(message::discovery_future_t &message) noexcept
 
 void registry_plugin_t::continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept {
     auto &init_request = actor->access<to::init_request>();
-    assert(init_request);
+    if (!init_request || actor->access<to::state>() != rotor::state_t::INITIALIZING) {
+        return; // already answered, or the actor is shutting down
+    }
     if (root_ec) {
         auto reason = make_error(possible_ec, root_ec, init_request);
         actor->reply_with_error(*init_request, reason);
+        init_request.reset();
     } else {
         actor->init_continue();
     }
@@ -189,7 +194,9 @@ template <typename Message> void process_discovery(registry_plugin_t::discovery_
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = dm.find(service);
-    assert(it != dm.end());
+    if (it == dm.end()) {
+        return; // already forgotten, as the actor is shutting down
+    }
     address_ptr_t *address_value = ee ? nullptr : &message.payload.res.service_addr;
     it->second.template access<to::on_discovery, address_ptr_t *, const extended_error_ptr_t &>(address_value, ee);
 }
@@ -251,7 +258,7 @@ void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_pt
         auto actor_state = p->actor->access<to::state>();
         if (actor_state == rotor::state_t::INITIALIZING) {
             p->continue_init(error_code_t::discovery_failed, ec);
-        } else {
+        } else if (actor_state == rotor::state_t::SHUTTING_DOWN) {
             p->actor->shutdown_continue();
         }
     }
-- 
2.43.0


From 21ce2450c705ca530b0f899efa25f988655b0294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 03/22] fix: do not poll initialization before the init request
 has arrived

---
 src/rotor/plugin/resources.cpp | 5 ++++-
 src/rotor/plugin/starter.cpp   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/resources.cpp b/src/rotor/plugin/resources.cpp
index 36c858c..a66339f 100644
--- a/src/rotor/plugin/resources.cpp
+++ b/src/rotor/plugin/resources.cpp
@@ -14,12 +14,14 @@ using namespace rotor::plugin;
 namespace {
 namespace to {
 struct state {};
+struct init_request {};
 struct resources {};
 struct continuation_mask {};
 } // namespace to
 } // namespace
 
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
+template <> auto &actor_base_t::access<to::init_request>() noexcept { return init_request; }
 template <> auto &actor_base_t::access<to::resources>() noexcept { return resources; }
 template <> auto &actor_base_t::access<to::continuation_mask>() noexcept { return continuation_mask; }
 
@@ -72,7 +74,8 @@ bool resources_plugin_t::release(resource_id_t id) noexcept {
     auto state = actor->access<to::state>();
     bool has_acquired = has_any();
     if (state == state_t::INITIALIZING) {
-        if (!has_acquired && !(actor->access<to::continuation_mask>() & actor_base_t::PROGRESS_INIT)) {
+        if (!has_acquired && !(actor->access<to::continuation_mask>() & actor_base_t::PROGRESS_INIT) &&
+            actor->access<to::init_request>()) {
             actor->init_continue();
         }
     } else if (state == state_t::SHUTTING_DOWN) {
diff --git a/src/rotor/plugin/starter.cpp b/src/rotor/plugin/starter.cpp
index c6225cd..70074e8 100644
--- a/src/rotor/plugin/starter.cpp
+++ b/src/rotor/plugin/starter.cpp
@@ -13,11 +13,13 @@ using namespace rotor::plugin;
 namespace {
 namespace to {
 struct state {};
+struct init_request {};
 struct plugins {};
 } // namespace to
 } // namespace
 
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
+template <> auto &actor_base_t::access<to::init_request>() noexcept { return init_request; }
 template <> auto &actor_base_t::access<to::plugins>() noexcept { return plugins; }
 
 const std::type_index starter_plugin_t::class_identity = typeid(starter_plugin_t);
@@ -45,7 +47,8 @@ bool starter_plugin_t::handle_subscription(message::subscription_t &message) noe
     if (it != tracked.end()) {
         tracked.erase(it);
     }
-    if (configured && tracked.empty() && actor->access<to::state>() == state_t::INITIALIZING) {
+    if (configured && tracked.empty() && actor->access<to::state>() == state_t::INITIALIZING &&
+        actor->access<to::init_request>()) {
         actor->init_continue();
         return true;
     }
-- 
2.43.0


From 54b7ee397a9254d6d8eeecef3ce08224d790a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 04/22] fix: link server answers the shutdown request once when
 several clients fail to unlink

---
 src/rotor/plugin/link_server.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c11b79b..0813fc5 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -84,8 +84,12 @@ void link_server_plugin_t::on_unlink_notify(message::unlink_notify_t &message) n
 void link_server_plugin_t::on_unlink_response(message::unlink_response_t &message) noexcept {
     auto &ec = message.payload.ee;
     auto &shutdown_request = actor->access<to::shutdown_request>();
-    if (ec && shutdown_request) {
-        actor->reply_with_error(*actor->access<to::shutdown_request>(), ec);
+    if (ec) {
+        // shutdown_request might be missing for root supervisor or when it has already been answered
+        if (shutdown_request) {
+            actor->reply_with_error(*shutdown_request, ec);
+            shutdown_request.reset();
+        }
         return;
     }
 
-- 
2.43.0


From 4ad8219279a2452feffc2c7052243ba74f539f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 05/22] fix: link server survives an unlink notification that
 follows an unlink timeout

---
 src/rotor/plugin/link_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index 0813fc5..f7054c4 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -85,6 +85,11 @@ void link_server_plugin_t::on_unlink_response(message::unlink_response_t &messag
     auto &ec = message.payload.ee;
     auto &shutdown_request = actor->access<to::shutdown_request>();
     if (ec) {
+        // the request is over, there is nothing to cancel upon a late unlink notification
+        auto it = linked_clients.find(message.payload.req->address);
+        if (it != linked_clients.end()) {
+            it->second.unlink_request.reset();
+        }
         // shutdown_request might be missing for root supervisor or when it has already been answered
         if (shutdown_request) {
             actor->reply_with_error(*shutdown_request, ec);
-- 
2.43.0


From 4509e9f737524dceff002b085fa013090b409917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 06/22] fix: delivery does not iterate the live handler list

A handler that subscribes another handler for the same message type and
address reallocates the list that is being iterated (use after free); a
synchronous removal skips or repeats handlers.
---
 src/rotor/plugin/delivery.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index ea8d6c7..480c20c 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -44,7 +44,9 @@ void local_delivery_t::delivery(message_ptr_t &message,
         auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler);
         sup.enqueue(std::move(wrapped_message));
     }
-    for (auto &handler : local_recipients.internal) {
+    // handlers might (un)subscribe other handlers for the same message and address, do not iterate the live list
+    auto handlers = std::vector<handler_ptr_t>(local_recipients.internal.begin(), local_recipients.internal.end());
+    for (auto &handler : handlers) {
         handler->call(message);
     }
 }
-- 
2.43.0


From 36340023e31ed80a68ca55fb142b4f32bce379f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 07/22] fix: subscriptions of an actor to a foreign address are
 released at its supervisor

The plugins polled before the owner of the subscription asserted (or, without
assertions, told the foreign supervisor repeatedly), and the lifetime plugin
never told it.
---
 src/rotor/plugin/lifetime.cpp    | 4 ++++
 src/rotor/plugin/plugin_base.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 6c8d829..8a40f1c 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -117,6 +117,10 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
         auto it = points.find(point);
         plugin_base_t::forget_subscription(*it);
         points.erase(it);
+        if (external) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            actor->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         result = true;
         if (points.empty()) {
             plugin_base_t::deactivate();
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 55b80ab..cb1a2f2 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -88,9 +88,10 @@ bool plugin_base_t::handle_unsubscription(const subscription_point_t &point, boo
     if (external) {
         auto act = actor; /* backup */
         auto ok = forget_subscription(point);
-        assert(ok && "unsubscription handled");
-        auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
-        act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        if (ok) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         return ok;
     }
     return forget_subscription(point);
-- 
2.43.0


From 757df1e644ca4b522ba58503ea90791b5802865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 08/22] fix: an actor unsubscribes its handlers through its own
 lifetime plugin

unsubscribe_actor() searched the subscriptions of the supervisor, where those of
its children are not found (assertion).
---
 include/rotor/supervisor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 55c095c..36cda3a 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -189,7 +189,7 @@ struct ROTOR_API supervisor_t : public actor_base_t {
     /** \brief convenient templated version of `unsubscribe_actor */
     template <typename Handler> inline void unsubscribe_actor(const address_ptr_t &addr, Handler &&handler) noexcept {
         handler_ptr_t wrapped_handler(std::forward<Handler>(handler));
-        lifetime->unsubscribe(wrapped_handler, addr);
+        wrapped_handler->actor_ptr->lifetime->unsubscribe(wrapped_handler, addr);
     }
 
     /** \brief creates child-actor builder */
-- 
2.43.0


From a0d45adbd67160589f5f952c74665db2949ced21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 09/22] fix: tagging a handler updates the subscription table
 of the locality

Subscriptions are materialized in the table of the locality leader, but tag()
looked in the table of the actor's own supervisor (assertion for actors of nested
supervisors).
---
 src/rotor/subscription_point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 0cdee33..d9e5532 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -11,9 +11,11 @@ namespace rotor {
 
 namespace to {
 struct subscription_map {};
+struct locality_leader {};
 } // namespace to
 
 template <> auto &supervisor_t::access<to::subscription_map>() noexcept { return subscription_map; }
+template <> auto &supervisor_t::access<to::locality_leader>() noexcept { return locality_leader; }
 
 namespace tags {
 
@@ -39,7 +41,7 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
 void subscription_info_t::tag(const void *t) noexcept {
     auto new_handler = handler->upgrade(t);
     auto &sup = handler->actor_ptr->get_supervisor();
-    auto &sm = sup.access<to::subscription_map>();
+    auto &sm = sup.access<to::locality_leader>()->access<to::subscription_map>();
     sm.update(*this, new_handler);
 }
 
-- 
2.43.0


From 3a3eab91a5d08801ce1d05efd56b768a3c03de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 10/22] fix: a message from a foreign supervisor is delivered
 to the tagged handler

The foreign supervisor keeps the handler as it was when it was subscribed, so
tagged handlers were called without interception.
---
 src/rotor/plugin/foreigners_support.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index b05a533..1279932 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -62,8 +62,11 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             auto lifetime = child_actor->access<to::lifetime>();
             if (lifetime) {
                 auto &points = lifetime->access<to::points>();
-                if (points.find(point) != points.end()) {
-                    handler->call(orig_message);
+                auto it = points.find(point);
+                if (it != points.end()) {
+                    // the handler might be upgraded (tagged) after the subscription
+                    auto actual_handler = (*it)->handler;
+                    actual_handler->call(orig_message);
                 }
             }
         }
-- 
2.43.0


From f14cc898d20b02e1a1915be0e8357fee4a76be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 11/22] fix: the link of a discovered service does not outlive
 its discovery task

---
 src/rotor/plugin/registry.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index b42fdd5..d925661 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -217,16 +217,27 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
             if (!aliases.count(*address)) {
                 auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
                 auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
-                link_plugin.link(*address, operational_only, [this](auto &ec) {
-                    auto &am = plugin->access<to::aliases_map>();
-                    auto &dm = plugin->access<to::discovery_map>();
-                    for (auto &alias : am.at(*address)) {
-                        auto &callback = dm.at(alias).task_callback;
-                        if (callback) {
-                            callback(phase_t::linking, ec);
+                /* the tasks might be forgotten before the link response, i.e. upon shutdown */
+                link_plugin.link(*address, operational_only, [owner = plugin, server = *address](auto &ec) {
+                    auto &am = owner->access<to::aliases_map>();
+                    auto &dm = owner->access<to::discovery_map>();
+                    auto ait = am.find(server);
+                    if (ait == am.end()) {
+                        return;
+                    }
+                    discovery_task_t *task = nullptr;
+                    for (auto &alias : ait->second) {
+                        auto it = dm.find(alias);
+                        if (it != dm.end()) {
+                            task = &it->second;
+                            if (task->task_callback) {
+                                task->task_callback(phase_t::linking, ec);
+                            }
                         }
                     }
-                    post_discovery(ec);
+                    if (task) {
+                        task->post_discovery(ec);
+                    }
                 });
                 aliases.emplace(*address, names_t{service_name});
             } else {
-- 
2.43.0


From abc10dc152d44624a6d2fd24ad97f83a2d8e3c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 12/22] fix: an alias discovered after its service has been
 linked does not block initialization

---
 src/rotor/plugin/registry.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d925661..2f7d060 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -240,6 +240,11 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
                     }
                 });
                 aliases.emplace(*address, names_t{service_name});
+            } else if (aliases.at(*address).empty()) { // already linked
+                if (task_callback) {
+                    task_callback(phase_t::linking, ec);
+                }
+                post_discovery(ec);
             } else {
                 aliases.at(*address).emplace_back(service_name);
             }
@@ -257,10 +262,11 @@ void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_pt
 
     auto &am = p->aliases_map;
     auto ait = am.find(*it->second.address);
-    if (ait != am.end()) {
+    if (ait != am.end() && !ait->second.empty()) {
         for (auto &alias : ait->second) {
             dm.erase(alias);
         }
+        ait->second.clear();
     } else {
         dm.erase(it);
     }
-- 
2.43.0


From 962ad4bedc0be8ce16e64d7f39f3761b32ff0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 13/22] fix: a discovered service is linked only when it was
 asked for

---
 src/rotor/plugin/registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 2f7d060..ac4cb05 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -212,7 +212,7 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
 
     auto actor_state = plugin->actor->access<to::state>();
     if (actor_state == rotor::state_t::INITIALIZING) {
-        if (!ec) {
+        if (!ec && link_on_discovery) {
             auto &aliases = plugin->access<to::aliases_map>();
             if (!aliases.count(*address)) {
                 auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
@@ -262,7 +262,7 @@ void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_pt
 
     auto &am = p->aliases_map;
     auto ait = am.find(*it->second.address);
-    if (ait != am.end() && !ait->second.empty()) {
+    if (link_on_discovery && ait != am.end() && !ait->second.empty()) {
         for (auto &alias : ait->second) {
             dm.erase(alias);
         }
-- 
2.43.0


From edf3d02a59c0806cf527a7b0241fb4778379ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 14/22] fix: a name being registered at shutdown is not left in
 the registry

---
 src/rotor/plugin/registry.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index ac4cb05..19e7cb6 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -93,6 +93,11 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
         it->second.state = state_t::OPERATIONAL;
     }
 
+    if (actor->access<to::state>() == rotor::state_t::SHUTTING_DOWN) {
+        actor->shutdown_continue();
+        return;
+    }
+
     if (!has_registering() || ee) {
         continue_init(error_code_t::registration_failed, ee);
     }
@@ -144,7 +149,8 @@ void registry_plugin_t::on_link(const extended_error_ptr_t &ec) noexcept {
             it.second.do_discover();
         }
     } else {
-        // no-op as linked_client plugin should already reply with error to init-request
+        // linked_client plugin should already reply with error to init-request, and nothing has been asked to register
+        register_map.clear();
     }
 }
 
@@ -157,15 +163,17 @@ bool registry_plugin_t::handle_init(message::init_request_t *) noexcept {
 }
 
 bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexcept {
-    if (!register_map.empty()) {
-        auto &registry_addr = actor->get_supervisor().get_registry_address();
-        for (auto &it : register_map) {
-            if (it.second.state == state_t::OPERATIONAL) {
-                actor->send<payload::deregistration_service_t>(registry_addr, it.first);
-                it.second.state = state_t::UNREGISTERING;
+    for (auto it = register_map.begin(); it != register_map.end();) {
+        auto &info = it->second;
+        if (info.state == state_t::REGISTERING && (plugin_state & LINKED)) {
+            ++it; // the answer is awaited, otherwise the name might stay registered
+        } else {
+            if (info.state == state_t::OPERATIONAL) {
+                auto &registry_addr = actor->get_supervisor().get_registry_address();
+                actor->send<payload::deregistration_service_t>(registry_addr, it->first);
             }
+            it = register_map.erase(it);
         }
-        register_map.clear();
     }
 
     if (!discovery_map.empty()) {
@@ -176,9 +184,10 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
                 ++it;
             }
         }
-        if (!discovery_map.empty())
-            return false;
-        // discovery_map.clear();
+    }
+
+    if (!register_map.empty() || !discovery_map.empty()) {
+        return false;
     }
 
     aliases_map.clear();
-- 
2.43.0


From a71dd7c41bc5dd2fac3683031e1b5cdb3cdae87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 15/22] fix: spawner: do not instantiate an actor while the
 supervisor is shutting down

---
 src/rotor/plugin/child_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8ce2271..476b645 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -217,6 +217,14 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
     if (!info.active) {
         return;
     }
+    auto &sup_state = actor->access<to::state>();
+    if (sup_state > state_t::OPERATIONAL) {
+        info.active = false;
+        if (sup_state == state_t::SHUTTING_DOWN) {
+            actor->shutdown_continue();
+        }
+        return;
+    }
     info.spawn_attempt();
 
     try {
-- 
2.43.0


From f2788d86f059c5039d10ec2af7876e5ff72d7188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 16/22] fix: spawner: a factory that creates no actor, or
 throws having created it, must not crash the supervisor

---
 src/rotor/plugin/child_manager.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 476b645..147c4dd 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -212,7 +212,8 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
     auto it = actors_map.find(addr);
     assert(it != actors_map.end());
     auto &sup = static_cast<supervisor_t &>(*actor);
-    auto &info = *it->second;
+    auto info_ptr = it->second; // upon child creation the map item is replaced
+    auto &info = *info_ptr;
 
     if (!info.active) {
         return;
@@ -229,9 +230,14 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
 
     try {
         auto child = info.factory(sup, addr);
-        assert(child->access<to::spawner_address>() && "spawner address is not defined");
-        info.actor = child;
+        if (child) {
+            assert(child->access<to::spawner_address>() && "spawner address is not defined");
+            info.actor = child;
+        }
     } catch (...) {
+        // the actor might be already created, see below
+    }
+    if (!info.actor) {
         bool try_next = (info.policy == restart_policy_t::always) || (info.policy == restart_policy_t::fail_only);
         auto state = actor->access<to::state>();
         if (state == state_t::INITIALIZING) {
@@ -253,7 +259,7 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
             auto callback = &child_manager_plugin_t::on_spawn_timer;
             auto request_id = sup.start_timer(info.restart_period, *this, callback);
             info.timer_id = request_id;
-            spawning_map[request_id] = it->second;
+            spawning_map[request_id] = info_ptr;
         } else {
             info.active = false;
         }
-- 
2.43.0


From db477916d2529073579d90a81748a85eda6e5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 17/22] fix: supervisor: ignore a shutdown trigger of a child
 that is already gone

---
 src/rotor/plugin/child_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 147c4dd..5f13389 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -325,7 +325,11 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
 
 void child_manager_plugin_t::on_shutdown_trigger(message::shutdown_trigger_t &message) noexcept {
     auto &source_addr = message.payload.actor_address;
-    auto &actor_state = actors_map.at(source_addr);
+    auto it_actor = actors_map.find(source_addr);
+    if (it_actor == actors_map.end()) {
+        return; // the child is already gone
+    }
+    auto actor_state = it_actor->second;
     request_shutdown(*actor_state, message.payload.reason);
 }
 
-- 
2.43.0


From 662559d153a0346b89158eeb43596c09dcc9ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 18/22] fix: supervisor: start the children that are
 initialized after the synchronized start

---
 src/rotor/plugin/child_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 5f13389..2d711fa 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -307,7 +307,8 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
         if (actor_found) {
             it_actor->second->initialized = true;
             bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
-                                                              : !sup.access<to::synchronize_start>();
+                                                              : (!sup.access<to::synchronize_start>() ||
+                                                                 self_state == state_t::OPERATIONAL);
             if (do_start) {
                 sup.template send<payload::start_actor_t>(address);
                 it_actor->second->started = true;
@@ -462,6 +463,9 @@ void child_manager_plugin_t::handle_start(message::start_trigger_t *trigger) noe
             auto &address = it.first;
             if (address == actor->get_address())
                 continue;
+            // the rest of children will be started as soon as they are initialized
+            if (!it.second->actor || !it.second->initialized)
+                continue;
             sup.template send<payload::start_actor_t>(address);
             it.second->started = true;
         }
-- 
2.43.0


From 30db47ac8d130b520860bd6ff4f7edbf77cb3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 19/22] fix: an expired timer of the thread loop is forgotten
 before its callback runs

With an io-tagged handler on the way, a timer callback that starts (or cancels)
a timer re-enters update_time(), which found the same expired node again and
called the callback endlessly.
---
 src/rotor/thread/system_context_thread.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index b420c07..1d79d5a 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -93,11 +93,12 @@ void system_context_thread_t::check() noexcept {
 
 void system_context_thread_t::update_time() noexcept {
     now = clock_t::now();
-    auto it = timer_nodes.begin();
-    while (it != timer_nodes.end() && it->deadline < now) {
-        auto actor_ptr = it->handler->owner;
-        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(it->handler->request_id, false);
-        it = timer_nodes.erase(it);
+    while (!timer_nodes.empty() && timer_nodes.front().deadline < now) {
+        // forget the timer first: its callback may start and cancel timers, i.e. re-enter here
+        auto handler = timer_nodes.front().handler;
+        timer_nodes.pop_front();
+        auto actor_ptr = handler->owner;
+        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(handler->request_id, false);
     }
 }
 
-- 
2.43.0


From 7366510c2a096b19da6d22223ce84d1034e62574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 20/22] fix: cancelling a timer of the thread loop which
 expired during an io-handler

The timer fires when the time is updated before it is cancelled, and then there
is nothing to cancel any more.
---
 src/rotor/thread/system_context_thread.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index 1d79d5a..eb83c9c 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -120,10 +120,12 @@ void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
         update_time();
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
-    assert(it != timer_nodes.end() && "timer has been found");
-    auto &actor_ptr = it->handler->owner;
+    if (it == timer_nodes.end()) {
+        return; // it has just expired, see update_time() above
+    }
+    auto actor_ptr = it->handler->owner;
+    timer_nodes.erase(it); // the callback may start and cancel timers
     actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
-    timer_nodes.erase(it);
 }
 
 } // namespace rotor
-- 
2.43.0


From daa12831440b51a79d96c40832f568777bc04435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 21/22] fix: messages from other threads reach the actors of
 nested thread supervisors

The loop drains the inbound queue of the locality leader only.
---
 src/rotor/thread/supervisor_thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/thread/supervisor_thread.cpp b/src/rotor/thread/supervisor_thread.cpp
index 1f7ed2c..c83a2f0 100644
--- a/src/rotor/thread/supervisor_thread.cpp
+++ b/src/rotor/thread/supervisor_thread.cpp
@@ -24,7 +24,8 @@ void supervisor_thread_t::shutdown() noexcept {
 
 void supervisor_thread_t::enqueue(message_ptr_t message) noexcept {
     auto ctx = static_cast<system_context_thread_t *>(context);
-    inbound_queue.push(message.detach());
+    auto leader = static_cast<supervisor_thread_t *>(locality_leader);
+    leader->inbound_queue.push(message.detach());
     std::lock_guard<std::mutex> lock(ctx->mutex);
     ctx->cv.notify_one();
 }
-- 
2.43.0


From 99701505df84f08e0dae4b64259f495f8eeb4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 22/22] fix: fltk wake-ups keep the supervisor alive and do not
 get lost

A wake-up under way pointed to a supervisor which could be already gone. The
counter of messages, shared by all contexts, was not reset then, and neither
was the loop woken for one context while messages for another were pending.
---
 include/rotor/fltk/supervisor_fltk.h   |  4 +++
 src/rotor/fltk/system_context_fltk.cpp | 47 +++++++++++++-------------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/include/rotor/fltk/supervisor_fltk.h b/include/rotor/fltk/supervisor_fltk.h
index 48bd29b..acbfcb2 100644
--- a/include/rotor/fltk/supervisor_fltk.h
+++ b/include/rotor/fltk/supervisor_fltk.h
@@ -10,6 +10,7 @@
 #include "rotor/fltk/export.h"
 #include "rotor/fltk/supervisor_config_fltk.h"
 
+#include <atomic>
 #include <memory>
 #include <unordered_map>
 
@@ -81,6 +82,9 @@ struct ROTOR_FLTK_API supervisor_fltk_t : public supervisor_t {
 
     /** \brief timer id to timer pointer mapping */
     timers_map_t timers_map;
+
+    /** \brief whether the loop has been already asked to process inbound queue */
+    std::atomic_bool wakeup_pending{false};
 };
 
 } // namespace fltk
diff --git a/src/rotor/fltk/system_context_fltk.cpp b/src/rotor/fltk/system_context_fltk.cpp
index aeb6bd8..996ff58 100644
--- a/src/rotor/fltk/system_context_fltk.cpp
+++ b/src/rotor/fltk/system_context_fltk.cpp
@@ -5,9 +5,7 @@
 //
 
 #include "rotor/fltk/system_context_fltk.h"
-#include "rotor/supervisor.h"
-#include <atomic>
-#include <cstdint>
+#include "rotor/fltk/supervisor_fltk.h"
 
 #include <FL/Fl.H>
 
@@ -18,40 +16,41 @@ namespace {
 namespace to {
 struct inbound_queue {};
 struct queue {};
+struct wakeup_pending {};
 } // namespace to
 } // namespace
 
-template <> inline auto &rotor::supervisor_t::access<to::inbound_queue>() noexcept { return inbound_queue; }
-template <> inline auto &rotor::supervisor_t::access<to::queue>() noexcept { return queue; }
-
-static std::atomic_int32_t queue_counter{0};
+template <> inline auto &rotor::fltk::supervisor_fltk_t::access<to::inbound_queue>() noexcept { return inbound_queue; }
+template <> inline auto &rotor::fltk::supervisor_fltk_t::access<to::queue>() noexcept { return queue; }
+template <> inline auto &rotor::fltk::supervisor_fltk_t::access<to::wakeup_pending>() noexcept {
+    return wakeup_pending;
+}
 
 static void _callback(void *data) {
-    auto sup_raw = static_cast<supervisor_t *>(data);
-    auto &inbound = sup_raw->access<to::inbound_queue>();
-    auto &queue = sup_raw->access<to::queue>();
+    // the wake-up keeps the supervisor alive
+    auto sup = intrusive_ptr_t<supervisor_fltk_t>(static_cast<supervisor_fltk_t *>(data), false);
+    // messages, enqueued since now, need a wake-up on their own
+    sup->access<to::wakeup_pending>() = false;
+    auto &inbound = sup->access<to::inbound_queue>();
+    auto &queue = sup->access<to::queue>();
     message_base_t *ptr;
-    bool try_fetch = true;
-    while (try_fetch) {
-        std::int32_t fetched = 0;
-        try_fetch = false;
-        while (inbound.pop(ptr)) {
-            queue.emplace_back(ptr, false);
-            ++fetched;
-        }
-        if (fetched) {
-            sup_raw->do_process();
-            try_fetch = queue_counter.fetch_sub(fetched) != fetched;
-        }
+    bool fetched = false;
+    while (inbound.pop(ptr)) {
+        queue.emplace_back(ptr, false);
+        fetched = true;
+    }
+    if (fetched) {
+        sup->do_process();
     }
 }
 
 void system_context_fltk_t::enqueue(message_ptr_t message) noexcept {
-    auto sup = get_supervisor().get();
+    auto sup = static_cast<supervisor_fltk_t *>(get_supervisor().get());
     if (sup) {
         auto &inbound = sup->access<to::inbound_queue>();
         inbound.push(message.detach());
-        if (queue_counter.fetch_add(1) == 0) {
+        if (!sup->access<to::wakeup_pending>().exchange(true)) {
+            intrusive_ptr_add_ref(sup);
             Fl::awake(_callback, sup);
         }
     }
-- 
2.43.0

