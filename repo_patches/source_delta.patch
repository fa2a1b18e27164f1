From a1ad2106956d504082759aa801e35829fc3b021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 01/37] fix: actor_base_t::unsubscribe(handler) has to look in
 actor's own subscriptions

It looked the subscription up among subscriptions of actor's supervisor, i.e. it did not
work for anything but supervisors (assertion failure or dereference of the end iterator).
---
 include/rotor/supervisor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 55c095c..16c5b7f 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -500,12 +500,12 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
 } // namespace plugin
 
 template <typename Handler, typename Enabled> void actor_base_t::unsubscribe(Handler &&h) noexcept {
-    supervisor->unsubscribe_actor(address, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), address);
 }
 
 template <typename Handler, typename Enabled>
 void actor_base_t::unsubscribe(Handler &&h, address_ptr_t &addr) noexcept {
-    supervisor->unsubscribe_actor(addr, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), addr);
 }
 
 template <typename T>
-- 
2.43.0


From 94944818476f197fe4185580adc60bb76cdc429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 02/37] fix: do not mix up handlers of an actor which process
 the same message type

Handlers were considered equal when they had the same signature, e.g. unsubscribing
&A::on_a (message_t &) might unsubscribe &A::on_b (message_t &) on the same address.
---
 include/rotor/handler.h | 17 ++++++++++++++++-
 src/rotor/handler.cpp   |  6 ++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/rotor/handler.h b/include/rotor/handler.h
index 2fe3ba3..5c7cbf9 100644
--- a/include/rotor/handler.h
+++ b/include/rotor/handler.h
@@ -135,7 +135,7 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
 
     /** \brief compare two handler for equality */
     inline bool operator==(const handler_base_t &rhs) const noexcept {
-        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr;
+        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr && origin().same_target(rhs.origin());
     }
 
     /** \brief attempt to delivery message to the handler
@@ -167,6 +167,12 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
 
     /** \brief unique per-message-type pointer used for routing */
     virtual const void *message_type() const noexcept = 0;
+
+    /** \brief the handler without interceptors (i.e. the one, which is upgraded) */
+    virtual const handler_base_t &origin() const noexcept;
+
+    /** \brief compares with another non-intercepted handler of the same type, belonging to the same actor */
+    virtual bool same_target(const handler_base_t &rhs) const noexcept;
 };
 
 /** \struct continuation_t
@@ -191,6 +197,7 @@ struct handler_intercepted_t : public handler_base_t {
     bool select(message_ptr_t &message) noexcept override;
     void call_no_check(message_ptr_t &message) noexcept override;
     const void *message_type() const noexcept override;
+    const handler_base_t &origin() const noexcept override;
 
   private:
     handler_ptr_t backend;
@@ -260,6 +267,10 @@ struct handler_t<Handler, std::enable_if_t<details::is_actor_handler_v<Handler>>
 
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
+    bool same_target(const handler_base_t &rhs) const noexcept override {
+        return handler == static_cast<const handler_t &>(rhs).handler;
+    }
+
   private:
     using traits = handler_traits<Handler>;
     using backend_t = typename traits::backend_t;
@@ -308,6 +319,10 @@ struct handler_t<Handler, std::enable_if_t<details::is_plugin_handler_v<Handler>
 
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
+    bool same_target(const handler_base_t &rhs) const noexcept override {
+        return handler == static_cast<const handler_t &>(rhs).handler;
+    }
+
   private:
     using traits = handler_traits<Handler>;
     using backend_t = typename traits::backend_t;
diff --git a/src/rotor/handler.cpp b/src/rotor/handler.cpp
index 88e57fa..125aceb 100644
--- a/src/rotor/handler.cpp
+++ b/src/rotor/handler.cpp
@@ -46,6 +46,10 @@ handler_ptr_t handler_base_t::upgrade(const void *tag) noexcept {
     return handler_ptr_t(new handler_intercepted_t(self, tag));
 }
 
+const handler_base_t &handler_base_t::origin() const noexcept { return *this; }
+
+bool handler_base_t::same_target(const handler_base_t &) const noexcept { return true; }
+
 handler_intercepted_t::handler_intercepted_t(handler_ptr_t backend_, const void *tag_) noexcept
     : handler_base_t(*backend_->actor_ptr, backend_->handler_type), backend{std::move(backend_)}, tag{tag_} {}
 
@@ -69,3 +73,5 @@ handler_ptr_t handler_intercepted_t::upgrade(const void *tag_) noexcept {
 }
 
 const void *handler_intercepted_t::message_type() const noexcept { return backend->message_type(); }
+
+const handler_base_t &handler_intercepted_t::origin() const noexcept { return backend->origin(); }
-- 
2.43.0


From 484c6b15121f2edd0f4009491d3483831d0d737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 03/37] fix: unsubscribed and immediately re-subscribed handler

Confirmation of the unsubscription was attributed to the new (equal) subscription,
i.e. the new subscription was lost and the old one was never completed, so the actor could
not be shut down.
---
 src/rotor/subscription_point.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 0cdee33..f539f02 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -29,7 +29,12 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
     auto predicate = [&point](auto &info) {
         return *info->handler == *point.handler && info->address == point.address;
     };
-    auto rit = std::find_if(rbegin(), rend(), predicate);
+    // the very same handler has precedence over the equal one, e.g. when it has been re-subscribed
+    auto same = [&point](auto &info) { return info->handler == point.handler && info->address == point.address; };
+    auto rit = std::find_if(rbegin(), rend(), same);
+    if (rit == rend()) {
+        rit = std::find_if(rbegin(), rend(), predicate);
+    }
     if (rit == rend()) {
         return end();
     }
-- 
2.43.0


From 2a11dca259aca348546ab695a0cafe9370f90c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 04/37] fix: use after free when a handler subscribes on the
 message it is invoked for

---
 src/rotor/plugin/delivery.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index ea8d6c7..b1463c5 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -44,8 +44,10 @@ void local_delivery_t::delivery(message_ptr_t &message,
         auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler);
         sup.enqueue(std::move(wrapped_message));
     }
-    for (auto &handler : local_recipients.internal) {
-        handler->call(message);
+    // a handler might subscribe for the same message & address, i.e. the vector might be reallocated
+    auto &internal = local_recipients.internal;
+    for (size_t i = 0, count = internal.size(); i < count; ++i) {
+        internal[i]->call(message);
     }
 }
 
-- 
2.43.0


From 7dd943e3effd3e7175b504030067ef9fb59183d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 05/37] fix: unsubscription from a foreign address, made by an
 actor (not by plugin)

Any plugin but owner of the subscription asserted on it (and with NDEBUG it notified the foreign
supervisor about plugins' unsubscription), while lifetime plugin did not notify it at all.
---
 src/rotor/plugin/lifetime.cpp    | 4 ++++
 src/rotor/plugin/plugin_base.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 6c8d829..8a40f1c 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -117,6 +117,10 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
         auto it = points.find(point);
         plugin_base_t::forget_subscription(*it);
         points.erase(it);
+        if (external) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            actor->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         result = true;
         if (points.empty()) {
             plugin_base_t::deactivate();
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 55b80ab..7afa0d4 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -88,9 +88,10 @@ bool plugin_base_t::handle_unsubscription(const subscription_point_t &point, boo
     if (external) {
         auto act = actor; /* backup */
         auto ok = forget_subscription(point);
-        assert(ok && "unsubscription handled");
-        auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
-        act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        if (ok) { /* otherwise it does not belong to the plugin */
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         return ok;
     }
     return forget_subscription(point);
-- 
2.43.0


From 6ba18970410d5749312ce3ae161fccb82b22bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:34 +0000
Subject: [PATCH 06/37] fix: escalate_failure and autoshutdown_supervisor of a
 supervisor concern its parent

The supervisor sent the shutdown trigger to itself, i.e. the options had no effect for nested
supervisors, and the trigger made them crash when it was processed after self-removal.
---
 src/rotor/actor_base.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 336f90b..9a37020 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -104,14 +104,16 @@ void actor_base_t::on_start() noexcept { state = state_t::OPERATIONAL; }
 
 void actor_base_t::shutdown_start() noexcept {
     state = state_t::SHUTTING_DOWN;
-    if (!spawner_address) {
+    // for a supervisor it is the parent supervisor (if any) which has to be shut down
+    auto upstream_sup = (supervisor == this) ? supervisor->parent : supervisor;
+    if (!spawner_address && upstream_sup) {
         if ((continuation_mask & ESCALATE_FALIURE) && shutdown_reason && shutdown_reason->root()->ec) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream_sup->get_address();
             auto ee = make_error(make_error_code(error_code_t::failure_escalation), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
         if (continuation_mask & AUTOSHUTDOWN_SUPERVISOR) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream_sup->get_address();
             auto ee = make_error(make_error_code(shutdown_code_t::child_down), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
-- 
2.43.0


From 3382bbe79a0c4d4eca314a2a4b6a2cbd65ae93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 07/37] fix: nested supervisor should not discard its own init
 request made by other locality

The id of the request might be the same as the id of supervisor's own timer, which led to
assertion failure or to the loss of the timer.
---
 src/rotor/plugin/child_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8ce2271..cb05511 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -322,7 +322,8 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
 void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &init_request = child->access<to::init_request>();
-    if (init_request) {
+    // request to init self is made by parent supervisor, i.e. the id might belong to other locality
+    if (init_request && init_request->payload.origin == actor->get_address()) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
         // or forget the init-request.
         auto &timer_id = init_request->payload.id;
-- 
2.43.0


From 4979b5a28e00f365418f4411780b5360069038d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 08/37] fix: progress of initialization without pending init
 request

The init request might be already answered with an error (e.g. failed link or child) or not received
yet at the moment when a resource is released, a service is discovered etc.
---
 src/rotor/actor_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 9a37020..bc9f48a 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -148,7 +148,9 @@ void actor_base_t::shutdown_finish() noexcept {
 
 void actor_base_t::init_continue() noexcept {
     assert(state == state_t::INITIALIZING);
-    assert(init_request);
+    if (!init_request) { // it is not received yet, or already answered (with failure)
+        return;
+    }
 
     continuation_mask = continuation_mask | PROGRESS_INIT;
     std::size_t in_progress = plugins.size();
-- 
2.43.0


From 87f4042e999c0053f084bb503d53e857247e1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 09/37] fix: release foreign subscriptions when their owner
 shuts down

The subscriptions (and subscribed actors) were held by subscription map after the shutdown of
the supervisor, which leaked when supervisors of 2 localities were subscribed to each other; late
unsubscription notification dereferenced the end iterator, and a foreign unsubscription stopped
the support of foreigners while the children were still active.
---
 include/rotor/plugin/foreigners_support.h |  1 +
 src/rotor/plugin/foreigners_support.cpp   | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/rotor/plugin/foreigners_support.h b/include/rotor/plugin/foreigners_support.h
index 141238c..3c9ab4a 100644
--- a/include/rotor/plugin/foreigners_support.h
+++ b/include/rotor/plugin/foreigners_support.h
@@ -36,6 +36,7 @@ struct ROTOR_API foreigners_support_plugin_t : public plugin_base_t {
 
   private:
     subscription_container_t foreign_points;
+    bool deactivated = false;
 };
 
 } // namespace rotor::plugin
diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index b05a533..02a1e10 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -39,9 +39,14 @@ void foreigners_support_plugin_t::activate(actor_base_t *actor_) noexcept {
 }
 
 void foreigners_support_plugin_t::deactivate() noexcept {
-    auto lifetime = actor->access<to::lifetime>();
-    for (auto &info : foreign_points) {
-        lifetime->unsubscribe(info);
+    if (!deactivated) {
+        deactivated = true;
+        // nobody will commit unsubscription since now, drop the foreign handlers (and their actors)
+        auto &sup = static_cast<supervisor_t &>(*actor);
+        for (auto &info : foreign_points) {
+            sup.commit_unsubscription(info);
+        }
+        foreign_points.clear();
     }
     return plugin_base_t::deactivate();
 }
@@ -74,6 +79,9 @@ void foreigners_support_plugin_t::on_subscription_external(message::external_sub
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &point = message.payload.point;
     assert(&point.address->supervisor == &sup);
+    if (deactivated) {
+        return;
+    }
     auto info = sup.subscribe(point.handler, point.address, point.owner_ptr, owner_tag_t::FOREIGN);
     foreign_points.emplace_back(info);
 }
@@ -83,12 +91,11 @@ void foreigners_support_plugin_t::on_unsubscription(message::commit_unsubscripti
     auto &point = message.payload.point;
 
     auto it = foreign_points.find(point);
+    if (it == foreign_points.end()) { // already dropped, as the supervisor is shutting down
+        return;
+    }
     auto &info = *it;
 
     sup.commit_unsubscription(info);
     foreign_points.erase(it);
-
-    if (foreign_points.empty() && actor->access<to::state>() == state_t::SHUTTING_DOWN) {
-        plugin_base_t::deactivate();
-    }
 }
-- 
2.43.0


From 7345e7ddea330d4eebc5d75b4bd5727a33f8c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 10/37] fix: timed out link request should not leave the client
 linked on the server side

---
 src/rotor/plugin/link_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index aa30779..f714c27 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -65,6 +65,10 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
     auto callback = it->second.callback;
     if (ec) {
         servers_map.erase(it);
+        if (ec->root()->ec == make_error_code(error_code_t::request_timeout)) {
+            // the server might accept (or already has accepted) the link, let it be forgotten there
+            actor->send<payload::unlink_notify_t>(address, actor->get_address());
+        }
     }
 
     if (callback) {
-- 
2.43.0


From 40fee08e21db6578a65ddd504ac828972019d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 11/37] fix: unlink request to a client which has linked
 clients on its own

Previously such a request was queued until actor's clients unlink on their own, which might
never happen; thus the server could not complete its shutdown.
---
 src/rotor/plugin/link_client.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index f714c27..7ba557f 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -99,6 +99,22 @@ void link_client_plugin_t::forget_link(message::unlink_request_t &message) noexc
     if (it == servers_map.end())
         return;
 
+    auto &link_server = actor->access<to::link_server>();
+    auto &state = actor->access<to::state>();
+    if (link_server->has_clients() && state != rotor::state_t::SHUTTING_DOWN) {
+        auto shutdown_needed = actor->access<to::on_unlink, const address_ptr_t &>(address_ptr_t(server_addr));
+        if (!shutdown_needed) { // actor lives on, as well as its clients
+            actor->reply_to(message, actor->get_address());
+            servers_map.erase(server_addr);
+            return;
+        }
+        // own clients should leave first, and only after that the server can be forgotten
+        it->second.state = link_state_t::UNLINKING;
+        unlink_queue.emplace_back(&message);
+        actor->do_shutdown(make_error(make_error_code(shutdown_code_t::unlink_requested)));
+        return;
+    }
+
     unlink_queue.emplace_back(&message);
     try_forget_links(true);
 }
@@ -112,12 +128,14 @@ void link_client_plugin_t::try_forget_links(bool attempt_shutdown) noexcept {
             auto &server_addr = message.payload.request_payload.server_addr;
             auto server_it = servers_map.find(server_addr);
             if (server_it != servers_map.end()) {
+                auto asked = server_it->second.state == link_state_t::UNLINKING;
                 actor->reply_to(message, actor->get_address());
                 servers_map.erase(server_it);
-                auto result = actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
+                auto result = asked || actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
                 shutdown_needed |= result;
             }
         }
+        unlink_queue.clear();
         if (attempt_shutdown && shutdown_needed) {
             if (actor->access<to::state>() == rotor::state_t::SHUTTING_DOWN) {
                 actor->shutdown_continue();
-- 
2.43.0


From 8fbca1995e7e7b479c9312ab9bba43b7340ff405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 12/37] fix: progress of initialization, made by a plugin after
 shutdown has begun

---
 src/rotor/actor_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index bc9f48a..ac86edd 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -147,8 +147,8 @@ void actor_base_t::shutdown_finish() noexcept {
 }
 
 void actor_base_t::init_continue() noexcept {
-    assert(state == state_t::INITIALIZING);
-    if (!init_request) { // it is not received yet, or already answered (with failure)
+    // init request is not received yet, or already answered (with failure), or the actor is going down already
+    if (!init_request || state != state_t::INITIALIZING) {
         return;
     }
 
-- 
2.43.0


From e93f1484401c455d6fd5382a20dc070618f48dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 13/37] fix: discarding of a request which is already timed out
 or answered

---
 src/rotor/plugin/link_client.cpp | 4 +++-
 src/rotor/supervisor.cpp         | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 7ba557f..90e28f9 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -60,7 +60,9 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
     auto &address = message.payload.req->address;
     auto &ec = message.payload.ee;
     auto it = servers_map.find(address);
-    assert(it != servers_map.end());
+    if (it == servers_map.end()) { // discarded due to shutdown
+        return;
+    }
 
     auto callback = it->second.callback;
     if (ec) {
diff --git a/src/rotor/supervisor.cpp b/src/rotor/supervisor.cpp
index f7c08ac..86138a8 100644
--- a/src/rotor/supervisor.cpp
+++ b/src/rotor/supervisor.cpp
@@ -138,9 +138,11 @@ void supervisor_t::on_request_trigger(request_id_t timer_id, bool cancelled) noe
 }
 
 void supervisor_t::discard_request(request_id_t request_id) noexcept {
-    assert(request_map.find(request_id) != request_map.end());
-    cancel_timer(request_id);
-    request_map.erase(request_id);
+    // the request might be already finished, i.e. its response is on the way to the source actor
+    if (request_map.count(request_id)) {
+        cancel_timer(request_id);
+        request_map.erase(request_id);
+    }
 }
 
 void supervisor_t::shutdown_finish() noexcept {
-- 
2.43.0


From 5c1d8645df2ca5ca19b0d14b88cc8461a1a8cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 14/37] fix: start actors, created after their supervisor with
 synchronized start became operational

---
 src/rotor/plugin/child_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index cb05511..5bac16a 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -292,8 +292,11 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
            right after creation */
         if (actor_found) {
             it_actor->second->initialized = true;
-            bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
-                                                              : !sup.access<to::synchronize_start>();
+            // the synchronization makes sense only until the supervisor is started, i.e. it does not affect
+            // the actors, created (or spawned) afterwards
+            bool do_start = (address == actor->get_address())
+                                ? (self_state <= state_t::OPERATIONAL)
+                                : (!sup.access<to::synchronize_start>() || self_state == state_t::OPERATIONAL);
             if (do_start) {
                 sup.template send<payload::start_actor_t>(address);
                 it_actor->second->started = true;
-- 
2.43.0


From ee70729fbd694580cc3007175ef0c49f82498e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 15/37] fix: resource, acquired while a later plugin is being
 configured, should suspend initialization

---
 src/rotor/actor_base.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index ac86edd..bdf1b5d 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -153,20 +153,29 @@ void actor_base_t::init_continue() noexcept {
     }
 
     continuation_mask = continuation_mask | PROGRESS_INIT;
-    std::size_t in_progress = plugins.size();
-    for (auto &plugin : plugins) {
-        if (plugin->get_reaction() & plugin_base_t::INIT) {
-            if (plugin->handle_init(init_request.get())) {
-                plugin->reaction_off(plugin_base_t::INIT);
-                --in_progress;
-                continue;
+    bool in_progress = true;
+    while (in_progress) {
+        bool polled = false;
+        bool suspended = false;
+        for (auto &plugin : plugins) {
+            if (plugin->get_reaction() & plugin_base_t::INIT) {
+                polled = true;
+                if (plugin->handle_init(init_request.get())) {
+                    plugin->reaction_off(plugin_base_t::INIT);
+                    continue;
+                }
+                suspended = true;
+                break;
             }
+        }
+        if (suspended) {
             break;
         }
-        --in_progress;
+        // a plugin, configured later, might affect already polled plugin, e.g. acquire a resource
+        in_progress = polled;
     }
     continuation_mask = continuation_mask & ~PROGRESS_INIT;
-    if (in_progress == 0) {
+    if (!in_progress) {
         init_finish();
     }
 }
-- 
2.43.0


From 26f4f382372f0646eafdea233ffec0f2e139b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 16/37] fix: message from other locality is handed twice to a
 re-subscribed handler

---
 src/rotor/plugin/foreigners_support.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index 02a1e10..08a68e4 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -67,7 +67,9 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             auto lifetime = child_actor->access<to::lifetime>();
             if (lifetime) {
                 auto &points = lifetime->access<to::points>();
-                if (points.find(point) != points.end()) {
+                auto it = points.find(point);
+                // an equal handler might be subscribed since then, and it gets the message on its own
+                if (it != points.end() && &(*it)->handler->origin() == &handler->origin()) {
                     handler->call(orig_message);
                 }
             }
-- 
2.43.0


From e58f315ad4458d485feb33cf4b1b52f2283d6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 17/37] fix: tagging of handlers of actors under a nested
 supervisor

---
 src/rotor/subscription_point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index f539f02..6d82b52 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -11,9 +11,11 @@ namespace rotor {
 
 namespace to {
 struct subscription_map {};
+struct locality_leader {};
 } // namespace to
 
 template <> auto &supervisor_t::access<to::subscription_map>() noexcept { return subscription_map; }
+template <> auto &supervisor_t::access<to::locality_leader>() noexcept { return locality_leader; }
 
 namespace tags {
 
@@ -44,7 +46,7 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
 void subscription_info_t::tag(const void *t) noexcept {
     auto new_handler = handler->upgrade(t);
     auto &sup = handler->actor_ptr->get_supervisor();
-    auto &sm = sup.access<to::subscription_map>();
+    auto &sm = sup.access<to::locality_leader>()->access<to::subscription_map>();
     sm.update(*this, new_handler);
 }
 
-- 
2.43.0


From a41fbd40c178c2320d31c06c97c43b1fd370cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 18/37] fix: tag (interception) of a handler subscribed to an
 address of other locality has no effect

---
 src/rotor/plugin/foreigners_support.cpp | 4 +++-
 src/rotor/subscription_point.cpp        | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index 08a68e4..3a9cdec 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -70,7 +70,9 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
                 auto it = points.find(point);
                 // an equal handler might be subscribed since then, and it gets the message on its own
                 if (it != points.end() && &(*it)->handler->origin() == &handler->origin()) {
-                    handler->call(orig_message);
+                    // own handler might be tagged (intercepted), while the foreign supervisor is not aware of that
+                    auto own_handler = (*it)->handler;
+                    own_handler->call(orig_message);
                 }
             }
         }
diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 6d82b52..e4ce143 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -32,7 +32,8 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
         return *info->handler == *point.handler && info->address == point.address;
     };
     // the very same handler has precedence over the equal one, e.g. when it has been re-subscribed
-    auto same = [&point](auto &info) { return info->handler == point.handler && info->address == point.address; };
+    auto &origin = point.handler->origin();
+    auto same = [&](auto &info) { return &info->handler->origin() == &origin && info->address == point.address; };
     auto rit = std::find_if(rbegin(), rend(), same);
     if (rit == rend()) {
         rit = std::find_if(rbegin(), rend(), predicate);
-- 
2.43.0


From 80c385f7dd4815aa109ee79c95ff633eb192b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 19/37] fix: server which is shut down before becoming
 operational should answer to its pending clients

---
 src/rotor/plugin/link_client.cpp |  5 ++---
 src/rotor/plugin/link_server.cpp | 11 ++++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 90e28f9..e115fce 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -170,9 +170,10 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
     if (servers_map.empty())
         return plugin_base_t::handle_shutdown(req);
 
+    auto link_server = actor->access<to::link_server>();
+    link_server->notify_shutdown();
     try_forget_links(false);
 
-    auto link_server = actor->access<to::link_server>();
     if (!link_server->has_clients()) {
         auto &source_addr = actor->get_address();
         for (auto it = servers_map.begin(); it != servers_map.end();) {
@@ -183,8 +184,6 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
             }
             it = servers_map.erase(it);
         }
-    } else {
-        link_server->notify_shutdown();
     }
 
     if (servers_map.empty()) {
diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c11b79b..1d8bdef 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -121,7 +121,15 @@ void link_server_plugin_t::handle_start(message::start_trigger_t *trigger) noexc
 }
 
 void link_server_plugin_t::notify_shutdown() noexcept {
-    for (auto &[address, link_info] : linked_clients) {
+    for (auto it = linked_clients.begin(); it != linked_clients.end();) {
+        auto &[address, link_info] = *it;
+        if (link_info.state == link_state_t::PENDING) { // will never be operational
+            auto ec = make_error_code(error_code_t::actor_not_linkable);
+            auto &request = *link_info.request;
+            actor->reply_with_error(request, make_error(ec, {}, link_info.request));
+            it = linked_clients.erase(it);
+            continue;
+        }
         if (link_info.state == link_state_t::OPERATIONAL) {
             auto &self = actor->get_address();
             auto &timeout = actor->access<to::shutdown_timeout>();
@@ -129,5 +137,6 @@ void link_server_plugin_t::notify_shutdown() noexcept {
             link_info.state = link_state_t::UNLINKING;
             link_info.unlink_request = request_id;
         }
+        ++it;
     }
 }
-- 
2.43.0


From 312107483a05b6b3da1f705a2e7e6c58e3e25176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 20/37] fix: name registration, confirmed while its actor is
 being shut down, should be withdrawn

---
 src/rotor/plugin/registry.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d373412..eef6f05 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -64,7 +64,7 @@ void registry_plugin_t::register_name(const std::string &name, const address_ptr
         link_registry();
     }
 
-    register_map.emplace(name, register_info_t{address, state_t::REGISTERING});
+    register_map.emplace(name, register_info_t{address, state_t::LINKING});
 }
 
 registry_plugin_t::discovery_task_t &registry_plugin_t::discover_name(const std::string &name, address_ptr_t &address,
@@ -85,6 +85,17 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
     auto &ee = message.payload.ee;
     auto it = register_map.find(service);
     assert(it != register_map.end());
+
+    if (actor->access<to::state>() == rotor::state_t::SHUTTING_DOWN) {
+        if (!ee) {
+            auto &registry_addr = actor->get_supervisor().get_registry_address();
+            actor->send<payload::deregistration_service_t>(registry_addr, service);
+        }
+        register_map.erase(it);
+        actor->shutdown_continue();
+        return;
+    }
+
     if (ee) {
         register_map.erase(it);
     } else {
@@ -134,6 +145,7 @@ void registry_plugin_t::on_link(const extended_error_ptr_t &ec) noexcept {
         auto timeout = actor->access<to::init_timeout>();
         for (auto &it : register_map) {
             actor->request<payload::registration_request_t>(registry_addr, it.first, it.second.address).send(timeout);
+            it.second.state = state_t::REGISTERING;
         }
         for (auto &it : discovery_map) {
             it.second.do_discover();
@@ -154,13 +166,16 @@ bool registry_plugin_t::handle_init(message::init_request_t *) noexcept {
 bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexcept {
     if (!register_map.empty()) {
         auto &registry_addr = actor->get_supervisor().get_registry_address();
-        for (auto &it : register_map) {
-            if (it.second.state == state_t::OPERATIONAL) {
-                actor->send<payload::deregistration_service_t>(registry_addr, it.first);
-                it.second.state = state_t::UNREGISTERING;
+        for (auto it = register_map.begin(); it != register_map.end();) {
+            if (it->second.state == state_t::REGISTERING) { // will be deregistered upon response
+                ++it;
+                continue;
+            }
+            if (it->second.state == state_t::OPERATIONAL) {
+                actor->send<payload::deregistration_service_t>(registry_addr, it->first);
             }
+            it = register_map.erase(it);
         }
-        register_map.clear();
     }
 
     if (!discovery_map.empty()) {
@@ -176,12 +191,17 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
         // discovery_map.clear();
     }
 
+    if (!register_map.empty())
+        return false;
+
     aliases_map.clear();
     return plugin_base_t::handle_shutdown(req);
 }
 
 bool registry_plugin_t::has_registering() noexcept {
-    auto in_progress_predicate = [](auto it) { return it.second.state == state_t::REGISTERING; };
+    auto in_progress_predicate = [](auto it) {
+        return it.second.state == state_t::LINKING || it.second.state == state_t::REGISTERING;
+    };
     return !std::none_of(register_map.begin(), register_map.end(), in_progress_predicate);
 }
 
-- 
2.43.0


From 766ba4504f776e93ef4930f8ed0a328e15957401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 21/37] fix: shutdown of an actor should wait for the
 cancellation of all its delayed discoveries

---
 src/rotor/plugin/registry.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index eef6f05..58f9d41 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -296,7 +296,6 @@ bool registry_plugin_t::discovery_task_t::do_cancel() noexcept {
         auto &registry_addr = actor_->get_supervisor().get_registry_address();
         actor_->send<payload_t>(registry_addr, request_id, actor_->get_address());
         state = state_t::CANCELLING;
-        return false;
     }
-    return true;
+    return state != state_t::CANCELLING;
 }
-- 
2.43.0


From d3d8c8a63eda7be25256b4b27804196df9d37bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 22/37] fix: discovery of several names of the same actor,
 failures and shutdown while linking to the discovered one

---
 src/rotor/plugin/registry.cpp | 90 ++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 38 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 58f9d41..c02b4a1 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -116,11 +116,12 @@ void registry_plugin_t::on_future(message::discovery_future_t &message) noexcept
 }
 
 void registry_plugin_t::continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept {
-    auto &init_request = actor->access<to::init_request>();
-    assert(init_request);
     if (root_ec) {
-        auto reason = make_error(possible_ec, root_ec, init_request);
-        actor->reply_with_error(*init_request, reason);
+        auto &init_request = actor->access<to::init_request>();
+        if (init_request) { // otherwise it is already failed
+            auto reason = make_error(possible_ec, root_ec, init_request);
+            actor->reply_with_error(*init_request, reason);
+        }
     } else {
         actor->init_continue();
     }
@@ -209,7 +210,9 @@ template <typename Message> void process_discovery(registry_plugin_t::discovery_
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = dm.find(service);
-    assert(it != dm.end());
+    if (it == dm.end()) { // discarded due to shutdown
+        return;
+    }
     address_ptr_t *address_value = ee ? nullptr : &message.payload.res.service_addr;
     it->second.template access<to::on_discovery, address_ptr_t *, const extended_error_ptr_t &>(address_value, ee);
 }
@@ -224,48 +227,59 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
     }
 
     auto actor_state = plugin->actor->access<to::state>();
-    if (actor_state == rotor::state_t::INITIALIZING) {
-        if (!ec) {
-            auto &aliases = plugin->access<to::aliases_map>();
-            if (!aliases.count(*address)) {
-                auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
-                auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
-                link_plugin.link(*address, operational_only, [this](auto &ec) {
-                    auto &am = plugin->access<to::aliases_map>();
-                    auto &dm = plugin->access<to::discovery_map>();
-                    for (auto &alias : am.at(*address)) {
-                        auto &callback = dm.at(alias).task_callback;
-                        if (callback) {
-                            callback(phase_t::linking, ec);
-                        }
+    if (ec || actor_state != rotor::state_t::INITIALIZING) {
+        return post_discovery(ec);
+    }
+
+    state = state_t::LINKING;
+    auto &aliases = plugin->access<to::aliases_map>();
+    auto it = aliases.find(*address);
+    if (it == aliases.end()) {
+        auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
+        auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
+        auto callback = [plugin = plugin, service_addr = *address](auto &ec) {
+            // the tasks might be already gone due to shutdown
+            auto &am = plugin->aliases_map;
+            auto &dm = plugin->discovery_map;
+            auto ait = am.find(service_addr);
+            if (ait == am.end()) {
+                return;
+            }
+            auto names = std::move(ait->second);
+            ait->second = {}; // i.e. linked
+            auto last = dm.end();
+            for (auto &name : names) {
+                auto it = dm.find(name);
+                if (it != dm.end()) {
+                    if (it->second.task_callback) {
+                        it->second.task_callback(phase_t::linking, ec);
                     }
-                    post_discovery(ec);
-                });
-                aliases.emplace(*address, names_t{service_name});
-            } else {
-                aliases.at(*address).emplace_back(service_name);
+                    if (last != dm.end()) {
+                        dm.erase(last);
+                    }
+                    last = it;
+                }
+            }
+            if (last != dm.end()) {
+                last->second.post_discovery(ec);
             }
-            return;
+        };
+        aliases.emplace(*address, names_t{service_name});
+        link_plugin.link(*address, operational_only, callback);
+    } else if (it->second.empty()) { // already linked
+        if (task_callback) {
+            task_callback(phase_t::linking, ec);
         }
+        post_discovery(ec);
+    } else {
+        it->second.emplace_back(service_name);
     }
-    post_discovery(ec);
 }
 
 void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_ptr_t &ec) noexcept {
     auto p = plugin;
     auto &dm = p->discovery_map;
-    auto it = dm.find(service_name);
-    assert(it != dm.end());
-
-    auto &am = p->aliases_map;
-    auto ait = am.find(*it->second.address);
-    if (ait != am.end()) {
-        for (auto &alias : ait->second) {
-            dm.erase(alias);
-        }
-    } else {
-        dm.erase(it);
-    }
+    dm.erase(std::string(service_name));
 
     if (dm.empty() || ec) {
         auto actor_state = p->actor->access<to::state>();
-- 
2.43.0


From b9d1a242be3382a3b6d2cde9f43b24c4f564af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 23/37] fix: registry should answer to delayed discoveries when
 it is being shut down

---
 include/rotor/registry.h |  2 ++
 src/rotor/registry.cpp   | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/rotor/registry.h b/include/rotor/registry.h
index 2e37171..bf0cf09 100644
--- a/include/rotor/registry.h
+++ b/include/rotor/registry.h
@@ -48,6 +48,8 @@ struct ROTOR_API registry_t : public actor_base_t {
 
     void configure(plugin::plugin_base_t &plugin) noexcept override;
 
+    void shutdown_start() noexcept override;
+
     /** \brief registers address on the service. Fails, if the name already exists */
     virtual void on_reg(message::registration_request_t &request) noexcept;
 
diff --git a/src/rotor/registry.cpp b/src/rotor/registry.cpp
index 9ca4251..311bd15 100644
--- a/src/rotor/registry.cpp
+++ b/src/rotor/registry.cpp
@@ -93,9 +93,28 @@ void registry_t::on_promise(message::discovery_promise_t &request) noexcept {
         return;
     }
 
+    if (state == state_t::SHUTTING_DOWN) {
+        auto ec = make_error_code(error_code_t::cancelled);
+        auto reason = ::make_error(name, ec, {}, &request);
+        reply_with_error(request, reason);
+        return;
+    }
+
     promises.emplace_back(&request);
 }
 
+void registry_t::shutdown_start() noexcept {
+    actor_base_t::shutdown_start();
+    // there will be no registrations, let clients do not wait for them
+    for (auto &request : promises) {
+        auto &name = request->payload.request_payload.service_name;
+        auto ec = make_error_code(error_code_t::cancelled);
+        auto reason = ::make_error(name, ec, {}, request);
+        reply_with_error(*request, reason);
+    }
+    promises.clear();
+}
+
 void registry_t::on_cancel(message::discovery_cancel_t &notify) noexcept {
     auto &request_id = notify.payload.id;
     auto &client_addr = notify.payload.source;
-- 
2.43.0


From 8d4f41cb07856c23a451d404772d1f9ae17d5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 24/37] fix: actor with a failed registration or discovery
 should not be initialized

---
 src/rotor/plugin/registry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index c02b4a1..8eddc88 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -121,6 +121,7 @@ void registry_plugin_t::continue_init(const error_code_t &possible_ec, const ext
         if (init_request) { // otherwise it is already failed
             auto reason = make_error(possible_ec, root_ec, init_request);
             actor->reply_with_error(*init_request, reason);
+            init_request.reset();
         }
     } else {
         actor->init_continue();
-- 
2.43.0


From de3b5270cef73d2afb4cbee3fa90474bee9a6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 25/37] fix: spawner should not create new instances when its
 supervisor is shutting down

---
 src/rotor/plugin/child_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 5bac16a..1fda5e5 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -217,6 +217,14 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
     if (!info.active) {
         return;
     }
+
+    if (actor->access<to::state>() > state_t::OPERATIONAL) { // too late
+        info.active = false;
+        if (actor->access<to::state>() == state_t::SHUTTING_DOWN) {
+            actor->shutdown_continue();
+        }
+        return;
+    }
     info.spawn_attempt();
 
     try {
-- 
2.43.0


From 55ca748561f71970612530985a5664ec6450f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 26/37] fix: spawner whose timer fires during shutdown of its
 supervisor should not hang the shutdown

---
 src/rotor/plugin/child_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 1fda5e5..9a34f3c 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -508,13 +508,13 @@ void child_manager_plugin_t::on_spawn_timer(request_id_t timer_id, bool cancelle
     auto info = it->second;
     info->timer_id = 0;
     spawning_map.erase(it);
-    if (cancelled) {
+    auto &state = actor->access<to::state>();
+    if (cancelled || state > state_t::OPERATIONAL) {
         info->active = false;
-        auto &state = actor->access<to::state>();
         if (state == state_t::SHUTTING_DOWN) {
             actor->shutdown_continue();
         }
-    } else if (actor->access<to::state>() <= state_t::OPERATIONAL) {
+    } else {
         actor->send<payload::spawn_actor_t>(actor->get_address(), info->address);
     }
 }
-- 
2.43.0


From 861e28d70b45799f2bef5cd248615a7006b1c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 27/37] fix: requests of the inner errors should be stringified
 too

---
 src/rotor/extended_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotor/extended_error.cpp b/src/rotor/extended_error.cpp
index 755d35c..170d099 100644
--- a/src/rotor/extended_error.cpp
+++ b/src/rotor/extended_error.cpp
@@ -19,7 +19,7 @@ std::string extended_error_t::message(const message_stringifier_t *stringifier)
         out << "]";
     }
     if (next) {
-        out << " <- " << next->message();
+        out << " <- " << next->message(stringifier);
     }
     return out.str();
 }
-- 
2.43.0


From d98323e9762743ef170fe44ba176915d651634c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 28/37] fix: nested supervisor of thread backend should get
 messages of other threads

---
 src/rotor/thread/supervisor_thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/thread/supervisor_thread.cpp b/src/rotor/thread/supervisor_thread.cpp
index 1f7ed2c..c83a2f0 100644
--- a/src/rotor/thread/supervisor_thread.cpp
+++ b/src/rotor/thread/supervisor_thread.cpp
@@ -24,7 +24,8 @@ void supervisor_thread_t::shutdown() noexcept {
 
 void supervisor_thread_t::enqueue(message_ptr_t message) noexcept {
     auto ctx = static_cast<system_context_thread_t *>(context);
-    inbound_queue.push(message.detach());
+    auto leader = static_cast<supervisor_thread_t *>(locality_leader);
+    leader->inbound_queue.push(message.detach());
     std::lock_guard<std::mutex> lock(ctx->mutex);
     ctx->cv.notify_one();
 }
-- 
2.43.0


From 8e750d6724d9e9a35824adb774620c07738a16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 29/37] fix: timers of thread backend should fire once, when
 new ones are started in their callbacks

---
 src/rotor/thread/system_context_thread.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index b420c07..c2dadf5 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -93,11 +93,12 @@ void system_context_thread_t::check() noexcept {
 
 void system_context_thread_t::update_time() noexcept {
     now = clock_t::now();
-    auto it = timer_nodes.begin();
-    while (it != timer_nodes.end() && it->deadline < now) {
-        auto actor_ptr = it->handler->owner;
-        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(it->handler->request_id, false);
-        it = timer_nodes.erase(it);
+    // a timer handler might start and cancel timers, i.e. get here again
+    while (!timer_nodes.empty() && timer_nodes.front().deadline < now) {
+        auto handler = timer_nodes.front().handler;
+        timer_nodes.pop_front();
+        auto actor_ptr = handler->owner;
+        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(handler->request_id, false);
     }
 }
 
-- 
2.43.0


From a333ad1199243bea58277305230d96cae95a83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 30/37] fix: thread backend should not fire a timer, while it
 is being cancelled

---
 src/rotor/thread/system_context_thread.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index c2dadf5..3bd5361 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -116,8 +116,6 @@ void system_context_thread_t::start_timer(const pt::time_duration &interval, tim
 }
 
 void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
-    if (intercepting)
-        update_time();
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
     assert(it != timer_nodes.end() && "timer has been found");
-- 
2.43.0


From 5d800e6373582a7ed8931fbb92d9bc585a639e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 31/37] fix: messages sent via shut down ev-supervisor should
 wake up its locality leader

---
 src/rotor/ev/supervisor_ev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/ev/supervisor_ev.cpp b/src/rotor/ev/supervisor_ev.cpp
index 45c69f0..6891443 100644
--- a/src/rotor/ev/supervisor_ev.cpp
+++ b/src/rotor/ev/supervisor_ev.cpp
@@ -71,7 +71,8 @@ void supervisor_ev_t::enqueue(rotor::message_ptr_t message) noexcept {
     auto leader = static_cast<supervisor_ev_t *>(locality_leader);
     auto &inbound = leader->inbound_queue;
     inbound.push(message.detach());
-    ev_async_send(loop, &async_watcher);
+    // own watcher might be already stopped, while there are other recipients in the locality
+    ev_async_send(leader->loop, &leader->async_watcher);
 }
 
 void supervisor_ev_t::start() noexcept { ev_async_send(loop, &async_watcher); }
-- 
2.43.0


From 5e4a436a81d296a0dc6d22dd31a5a546a70de2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 32/37] fix: fltk supervisors should not share the counter of
 inbound messages, nor be used after destruction

---
 include/rotor/fltk/supervisor_fltk.h   |  5 +++++
 src/rotor/fltk/system_context_fltk.cpp | 17 +++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/rotor/fltk/supervisor_fltk.h b/include/rotor/fltk/supervisor_fltk.h
index 48bd29b..868d6f8 100644
--- a/include/rotor/fltk/supervisor_fltk.h
+++ b/include/rotor/fltk/supervisor_fltk.h
@@ -10,6 +10,8 @@
 #include "rotor/fltk/export.h"
 #include "rotor/fltk/supervisor_config_fltk.h"
 
+#include <atomic>
+#include <cstdint>
 #include <memory>
 #include <unordered_map>
 
@@ -81,6 +83,9 @@ struct ROTOR_FLTK_API supervisor_fltk_t : public supervisor_t {
 
     /** \brief timer id to timer pointer mapping */
     timers_map_t timers_map;
+
+    /** \brief the number of inbound messages, which are not fetched yet */
+    std::atomic_int32_t queue_counter{0};
 };
 
 } // namespace fltk
diff --git a/src/rotor/fltk/system_context_fltk.cpp b/src/rotor/fltk/system_context_fltk.cpp
index aeb6bd8..f1e0cc9 100644
--- a/src/rotor/fltk/system_context_fltk.cpp
+++ b/src/rotor/fltk/system_context_fltk.cpp
@@ -5,8 +5,7 @@
 //
 
 #include "rotor/fltk/system_context_fltk.h"
-#include "rotor/supervisor.h"
-#include <atomic>
+#include "rotor/fltk/supervisor_fltk.h"
 #include <cstdint>
 
 #include <FL/Fl.H>
@@ -18,18 +17,21 @@ namespace {
 namespace to {
 struct inbound_queue {};
 struct queue {};
+struct queue_counter {};
 } // namespace to
 } // namespace
 
 template <> inline auto &rotor::supervisor_t::access<to::inbound_queue>() noexcept { return inbound_queue; }
 template <> inline auto &rotor::supervisor_t::access<to::queue>() noexcept { return queue; }
 
-static std::atomic_int32_t queue_counter{0};
+template <> inline auto &supervisor_fltk_t::access<to::queue_counter>() noexcept { return queue_counter; }
 
 static void _callback(void *data) {
-    auto sup_raw = static_cast<supervisor_t *>(data);
+    auto sup_fltk = static_cast<supervisor_fltk_t *>(data);
+    auto sup_raw = static_cast<supervisor_t *>(sup_fltk);
     auto &inbound = sup_raw->access<to::inbound_queue>();
     auto &queue = sup_raw->access<to::queue>();
+    auto &queue_counter = sup_fltk->access<to::queue_counter>();
     message_base_t *ptr;
     bool try_fetch = true;
     while (try_fetch) {
@@ -44,14 +46,17 @@ static void _callback(void *data) {
             try_fetch = queue_counter.fetch_sub(fetched) != fetched;
         }
     }
+    intrusive_ptr_release(sup_fltk);
 }
 
 void system_context_fltk_t::enqueue(message_ptr_t message) noexcept {
-    auto sup = get_supervisor().get();
+    auto sup = static_cast<supervisor_fltk_t *>(get_supervisor().get());
     if (sup) {
-        auto &inbound = sup->access<to::inbound_queue>();
+        auto &inbound = static_cast<supervisor_t *>(sup)->access<to::inbound_queue>();
+        auto &queue_counter = sup->access<to::queue_counter>();
         inbound.push(message.detach());
         if (queue_counter.fetch_add(1) == 0) {
+            intrusive_ptr_add_ref(sup);
             Fl::awake(_callback, sup);
         }
     }
-- 
2.43.0


From 45022f6ff76041fee386689e0fa011444c3be130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:33 +0000
Subject: [PATCH 33/37] fix: fltk timers should not fire before their time

---
 include/rotor/fltk/supervisor_fltk.h | 7 +++++++
 src/rotor/fltk/supervisor_fltk.cpp   | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/rotor/fltk/supervisor_fltk.h b/include/rotor/fltk/supervisor_fltk.h
index 868d6f8..2745def 100644
--- a/include/rotor/fltk/supervisor_fltk.h
+++ b/include/rotor/fltk/supervisor_fltk.h
@@ -11,6 +11,7 @@
 #include "rotor/fltk/supervisor_config_fltk.h"
 
 #include <atomic>
+#include <chrono>
 #include <cstdint>
 #include <memory>
 #include <unordered_map>
@@ -64,11 +65,17 @@ struct ROTOR_FLTK_API supervisor_fltk_t : public supervisor_t {
         /** \brief constructs timer from flt supervisor and timer handler */
         timer_t(supervisor_ptr_t supervisor, timer_handler_base_t *handler);
 
+        /** \brief alias for the clock, which is used for deadlines */
+        using clock_t = std::chrono::steady_clock;
+
         /** \brief intrusive pointer to the supervisor */
         supervisor_ptr_t sup;
 
         /** \brief non-owning pointer to timer handler */
         timer_handler_base_t *handler;
+
+        /** \brief the timer should not be triggered before that time */
+        clock_t::time_point deadline;
     };
 
   protected:
diff --git a/src/rotor/fltk/supervisor_fltk.cpp b/src/rotor/fltk/supervisor_fltk.cpp
index 897457c..aa21bd0 100644
--- a/src/rotor/fltk/supervisor_fltk.cpp
+++ b/src/rotor/fltk/supervisor_fltk.cpp
@@ -30,9 +30,17 @@ template <> inline auto &supervisor_fltk_t::access<to::timers_map>() noexcept {
 } // namespace rotor
 
 static void on_timeout(void *data) noexcept {
+    using clock_t = supervisor_fltk_t::timer_t::clock_t;
     auto timer = reinterpret_cast<supervisor_fltk_t::timer_t *>(data);
     auto *sup = timer->sup.get();
 
+    // fltk shortens a new timeout by the delay of the previously fired one
+    auto left = std::chrono::duration<double>(timer->deadline - clock_t::now());
+    if (left.count() > 0) {
+        Fl::add_timeout(left.count(), on_timeout, data);
+        return;
+    }
+
     auto timer_id = timer->handler->request_id;
     auto &timers_map = sup->access<to::timers_map>();
 
@@ -57,6 +65,7 @@ void supervisor_fltk_t::do_start_timer(const pt::time_duration &interval, timer_
     auto self = timer_t::supervisor_ptr_t(this);
     auto timer = std::make_unique<timer_t>(std::move(self), &handler);
     auto seconds = interval.total_nanoseconds() / 1000000000.;
+    timer->deadline = timer_t::clock_t::now() + std::chrono::nanoseconds(interval.total_nanoseconds());
     Fl::add_timeout(seconds, on_timeout, timer.get());
     timers_map.emplace(handler.request_id, std::move(timer));
     intrusive_ptr_add_ref(this);
-- 
2.43.0


From f95d9ff377fe66c2f1fe6fabaf6e7148ea49019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:13 +0000
Subject: [PATCH 34/37] fix: wx timers should not fire before their time

---
 src/rotor/wx/supervisor_wx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/wx/supervisor_wx.cpp b/src/rotor/wx/supervisor_wx.cpp
index 31d466a..b543471 100644
--- a/src/rotor/wx/supervisor_wx.cpp
+++ b/src/rotor/wx/supervisor_wx.cpp
@@ -77,7 +77,8 @@ void supervisor_wx_t::enqueue(message_ptr_t message) noexcept {
 void supervisor_wx_t::do_start_timer(const pt::time_duration &interval, timer_handler_base_t &handler) noexcept {
     auto self = timer_t::supervisor_ptr_t(this);
     auto timer = std::make_unique<timer_t>(&handler, std::move(self));
-    auto timeout_ms = static_cast<int>(interval.total_milliseconds());
+    // never earlier than requested
+    auto timeout_ms = static_cast<int>((interval.total_microseconds() + 999) / 1000);
     timer->StartOnce(timeout_ms);
     timers_map.emplace(handler.request_id, std::move(timer));
 }
-- 
2.43.0


From fa93648cf649ef6dbfa214e17f46e8ece39cf77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 35/37] fix: wx timer, which is cancelled when it has already
 expired, should not be destroyed under the feet of wx

---
 src/rotor/wx/supervisor_wx.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rotor/wx/supervisor_wx.cpp b/src/rotor/wx/supervisor_wx.cpp
index b543471..8a4b7fc 100644
--- a/src/rotor/wx/supervisor_wx.cpp
+++ b/src/rotor/wx/supervisor_wx.cpp
@@ -6,6 +6,7 @@
 
 #include "rotor/wx/supervisor_wx.h"
 #include <wx/timer.h>
+#include <memory>
 
 using namespace rotor::wx;
 using namespace rotor;
@@ -30,6 +31,9 @@ supervisor_wx_t::timer_t::timer_t(timer_handler_base_t *handler_, supervisor_ptr
     : handler{handler_}, sup{std::move(sup_)} {}
 
 void supervisor_wx_t::timer_t::Notify() noexcept {
+    if (!handler) { // has been cancelled meanwhile
+        return;
+    }
     auto timer_id = handler->request_id;
     auto *supervisor = sup.get();
     auto &timers_map = sup->timers_map;
@@ -89,7 +93,12 @@ void supervisor_wx_t::do_cancel_timer(request_id_t timer_id) noexcept {
         timer->Stop();
         auto actor_ptr = timer->handler->owner;
         actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
+        // wx might be going to notify the timer, if it has expired, so it should not be destroyed right now
+        auto cancelled = std::shared_ptr<timer_t>(std::move(timers_map.at(timer_id)));
+        cancelled->handler = nullptr;
+        cancelled->sup.reset();
         timers_map.erase(timer_id);
+        handler->CallAfter([cancelled = std::move(cancelled)]() {});
     } catch (std::out_of_range &ex) {
         // no-op
     }
-- 
2.43.0


From ec41c8c3132a8c7dbe2dd78260614c2d1df234dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 36/37] fix: supervisor should not touch its child, which
 belongs to other locality

---
 include/rotor/detail/child_info.h    |  3 ++
 include/rotor/plugin/child_manager.h |  3 +-
 src/rotor/plugin/child_manager.cpp   | 45 ++++++++++++++++++++--------
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/include/rotor/detail/child_info.h b/include/rotor/detail/child_info.h
index 6ff7924..dd8db94 100644
--- a/include/rotor/detail/child_info.h
+++ b/include/rotor/detail/child_info.h
@@ -105,6 +105,9 @@ struct ROTOR_API child_info_t : boost::intrusive_ref_counter<child_info_t, boost
     /** \brief the timer_id when actor should be spawned */
     request_id_t timer_id{0};
 
+    /** \brief the id of the initialization request, sent to the actor */
+    request_id_t init_request_id{0};
+
     /** \brief when an actor was successfully spawned */
     pt::ptime last_instantiation;
 
diff --git a/include/rotor/plugin/child_manager.h b/include/rotor/plugin/child_manager.h
index 7b6c1ef..ab0a580 100644
--- a/include/rotor/plugin/child_manager.h
+++ b/include/rotor/plugin/child_manager.h
@@ -105,7 +105,8 @@ struct ROTOR_API child_manager_plugin_t : public plugin_base_t {
     bool has_initializing() const noexcept;
     void init_continue() noexcept;
     void request_shutdown(const extended_error_ptr_t &ec) noexcept;
-    void cancel_init(const actor_base_t *child) noexcept;
+    void cancel_init(const detail::child_info_t &info) noexcept;
+    bool same_locality(const actor_base_t &child) const noexcept;
     void request_shutdown(detail::child_info_t &child_state, const extended_error_ptr_t &ec) noexcept;
     void on_spawn_timer(request_id_t timer_id, bool cancelled) noexcept;
 
diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 9a34f3c..31c6643 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -121,7 +121,7 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
         actor->do_shutdown(supervisor_reason);
     }
 
-    cancel_init(&child);
+    cancel_init(info);
     auto child_reason = info.actor->get_shutdown_reason();
     bool erase_spawner = true;
     static_cast<supervisor_t &>(*actor).access<to::alive_actors>().erase(&child);
@@ -204,7 +204,8 @@ void child_manager_plugin_t::on_create(message::create_actor_t &message) noexcep
     auto &child_actor = message.payload.actor;
     auto &actor_address = child_actor->get_address();
     assert(actors_map.count(actor_address) == 1);
-    sup.template request<payload::initialize_actor_t>(actor_address).send(message.payload.timeout);
+    auto request_id = sup.template request<payload::initialize_actor_t>(actor_address).send(message.payload.timeout);
+    actors_map.at(actor_address)->init_request_id = request_id;
 }
 
 void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept {
@@ -265,10 +266,12 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
     auto &ec = message.payload.ee;
 
     auto &sup = static_cast<supervisor_t &>(*actor);
-    bool continue_init = false;
-    continue_init = !ec && !has_initializing();
     auto it_actor = actors_map.find(address);
     bool actor_found = it_actor != actors_map.end();
+    if (actor_found && !ec) {
+        it_actor->second->initialized = true;
+    }
+    bool continue_init = !ec && !has_initializing();
 
     auto &self_state = actor->access<to::state>();
     if (ec) {
@@ -293,13 +296,16 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
             auto source_actor = actor_found ? it_actor->second->actor : this->actor;
             auto inner = make_error_code(shutdown_code_t::init_failed);
             auto reason = make_error(inner, ec);
-            source_actor->do_shutdown(reason);
+            if (same_locality(*source_actor)) {
+                source_actor->do_shutdown(reason);
+            } else {
+                request_shutdown(*it_actor->second, reason);
+            }
         }
     } else {
         /* the if is needed for the very rare case when supervisor was immediately shut down
            right after creation */
         if (actor_found) {
-            it_actor->second->initialized = true;
             // the synchronization makes sense only until the supervisor is started, i.e. it does not affect
             // the actors, created (or spawned) afterwards
             bool do_start = (address == actor->get_address())
@@ -330,8 +336,20 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
     actor_.get_supervisor().access<to::system_context>()->on_error(&actor_, ec);
 }
 
-void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
+bool child_manager_plugin_t::same_locality(const actor_base_t &child) const noexcept {
+    return child.get_address()->same_locality(*actor->get_address());
+}
+
+void child_manager_plugin_t::cancel_init(const detail::child_info_t &info) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
+    auto &child = info.actor;
+    if (!same_locality(*child)) {
+        // the child might be running right now in some other thread, it's (init_request) should not be touched
+        if (sup.access<to::timers_map>().count(info.init_request_id)) {
+            sup.access<to::discard_request, request_id_t>(info.init_request_id);
+        }
+        return;
+    }
     auto &init_request = child->access<to::init_request>();
     // request to init self is made by parent supervisor, i.e. the id might belong to other locality
     if (init_request && init_request->payload.origin == actor->get_address()) {
@@ -394,7 +412,7 @@ void child_manager_plugin_t::request_shutdown(detail::child_info_t &child_state,
         auto &sup = static_cast<supervisor_t &>(*actor);
         auto &source_actor = child_state.actor;
 
-        cancel_init(source_actor.get());
+        cancel_init(child_state);
         if (source_actor == actor) {
             if (sup.access<to::parent>()) {
                 // will be routed via shutdown request
@@ -470,10 +488,13 @@ bool child_manager_plugin_t::has_initializing() const noexcept {
         if (!child) {
             return false;
         }
-        auto &state = child->template access<to::state>();
-        bool still_initializing =
-            (it.first != actor->get_address()) && (state <= state_t::INITIALIZING) && !info.initialized;
-        return still_initializing;
+        if (it.first == actor->get_address() || info.initialized) {
+            return false;
+        }
+        if (!same_locality(*child)) { // the child might be running right now in some other thread
+            return info.shutdown == detail::shutdown_state_t::none;
+        }
+        return child->template access<to::state>() <= state_t::INITIALIZING;
     };
     bool has_any = std::any_of(actors_map.begin(), actors_map.end(), init_predicate);
     return has_any;
-- 
2.43.0


From 5569dc360856fda307c85aaf99be3f16984d6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:15 +0000
Subject: [PATCH 37/37] fix: thread backend: timer should be forgotten before
 its cancellation is reported

The handler of a cancelled timer might start a new timer; inside of a
blocking (I/O tagged) handler that updates time and fires the expired
timers, i.e. the timer which is being cancelled might be fired, too.
---
 src/rotor/thread/system_context_thread.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index 3bd5361..1d7a7cd 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -119,9 +119,10 @@ void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
     assert(it != timer_nodes.end() && "timer has been found");
-    auto &actor_ptr = it->handler->owner;
-    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
+    auto actor_ptr = it->handler->owner;
+    // the handler might start another timer, i.e. it might update time and fire the expired timers
     timer_nodes.erase(it);
+    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
 }
 
 } // namespace rotor
-- 
2.43.0

