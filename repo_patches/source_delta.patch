From d367f2de95cc0f1a101ea48662fd9d98b3cde174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 01/49] fix: local delivery iterates invalidated handlers when
 a handler (un)subscribes during dispatch

---
 src/rotor/plugin/delivery.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index ea8d6c7..7bea664 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -44,8 +44,11 @@ void local_delivery_t::delivery(message_ptr_t &message,
         auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler);
         sup.enqueue(std::move(wrapped_message));
     }
-    for (auto &handler : local_recipients.internal) {
-        handler->call(message);
+    // a handler might (un)subscribe, i.e. modify the list, while it is being called; the handlers
+    // subscribed meanwhile are not recipients of the message
+    auto &internal = local_recipients.internal;
+    for (size_t i = 0, count = internal.size(); i < count && i < internal.size(); ++i) {
+        internal[i]->call(message);
     }
 }
 
-- 
2.43.0


From 6a006f4ab60c874a00c3fc829c2da0f9df276ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 02/49] fix: supervisor starts a child which is already
 shutting down

A child supervisor of another locality may be destroyed by the time its parent
becomes operational: do not send the start request to a child which is being
shut down.
---
 src/rotor/plugin/child_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8ce2271..fa984f9 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -295,8 +295,11 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
             bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
                                                               : !sup.access<to::synchronize_start>();
             if (do_start) {
-                sup.template send<payload::start_actor_t>(address);
                 it_actor->second->started = true;
+                /* the child, which is going down, might be already destroyed upon the start message delivery */
+                if (it_actor->second->shutdown == detail::shutdown_state_t::none) {
+                    sup.template send<payload::start_actor_t>(address);
+                }
             }
         }
     }
-- 
2.43.0


From 2ace16e8ad8484ab31d414d9445a691e25fde231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 03/49] fix: tagging a subscription of an actor under a nested
 supervisor

The subscriptions of all supervisors of a locality are held by the locality
leader, so that is where the handler has to be replaced.
---
 src/rotor/subscription_point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 0cdee33..d9e5532 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -11,9 +11,11 @@ namespace rotor {
 
 namespace to {
 struct subscription_map {};
+struct locality_leader {};
 } // namespace to
 
 template <> auto &supervisor_t::access<to::subscription_map>() noexcept { return subscription_map; }
+template <> auto &supervisor_t::access<to::locality_leader>() noexcept { return locality_leader; }
 
 namespace tags {
 
@@ -39,7 +41,7 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
 void subscription_info_t::tag(const void *t) noexcept {
     auto new_handler = handler->upgrade(t);
     auto &sup = handler->actor_ptr->get_supervisor();
-    auto &sm = sup.access<to::subscription_map>();
+    auto &sm = sup.access<to::locality_leader>()->access<to::subscription_map>();
     sm.update(*this, new_handler);
 }
 
-- 
2.43.0


From 285bb296d107bdaa47ab84f0610d9a31e380e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 04/49] fix: equal handlers are confused on unsubscription,
 tags are lost for foreign addresses

Handlers of the same type (e.g. methods with the same signature) of an actor
compare equal, so unsubscribing one of them from an address might forget the
other one. Prefer the very same handler.

The other side of a foreign subscription keeps the handler which was there
before tagging: call the one, which is subscribed, i.e. the tagged one.
---
 include/rotor/handler.h                 |  4 ++++
 src/rotor/handler.cpp                   |  4 ++++
 src/rotor/plugin/foreigners_support.cpp |  7 +++++--
 src/rotor/subscription_point.cpp        | 12 ++++++++----
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/rotor/handler.h b/include/rotor/handler.h
index 2fe3ba3..b2ff861 100644
--- a/include/rotor/handler.h
+++ b/include/rotor/handler.h
@@ -165,6 +165,9 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
      */
     virtual void call_no_check(message_ptr_t &) noexcept = 0;
 
+    /** \brief the handler itself or, when it was tagged (upgraded), the original one */
+    virtual const handler_base_t *origin() const noexcept;
+
     /** \brief unique per-message-type pointer used for routing */
     virtual const void *message_type() const noexcept = 0;
 };
@@ -191,6 +194,7 @@ struct handler_intercepted_t : public handler_base_t {
     bool select(message_ptr_t &message) noexcept override;
     void call_no_check(message_ptr_t &message) noexcept override;
     const void *message_type() const noexcept override;
+    const handler_base_t *origin() const noexcept override;
 
   private:
     handler_ptr_t backend;
diff --git a/src/rotor/handler.cpp b/src/rotor/handler.cpp
index 88e57fa..e990cc8 100644
--- a/src/rotor/handler.cpp
+++ b/src/rotor/handler.cpp
@@ -41,6 +41,8 @@ handler_base_t::handler_base_t(actor_base_t &actor, const void *handler_type_) n
 
 handler_base_t::~handler_base_t() { intrusive_ptr_release(actor_ptr); }
 
+const handler_base_t *handler_base_t::origin() const noexcept { return this; }
+
 handler_ptr_t handler_base_t::upgrade(const void *tag) noexcept {
     handler_ptr_t self(this);
     return handler_ptr_t(new handler_intercepted_t(self, tag));
@@ -69,3 +71,5 @@ handler_ptr_t handler_intercepted_t::upgrade(const void *tag_) noexcept {
 }
 
 const void *handler_intercepted_t::message_type() const noexcept { return backend->message_type(); }
+
+const handler_base_t *handler_intercepted_t::origin() const noexcept { return backend->origin(); }
diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index b05a533..a4b7d75 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -62,8 +62,11 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             auto lifetime = child_actor->access<to::lifetime>();
             if (lifetime) {
                 auto &points = lifetime->access<to::points>();
-                if (points.find(point) != points.end()) {
-                    handler->call(orig_message);
+                auto it = points.find(point);
+                if (it != points.end() && (*it)->handler->origin() == handler->origin()) {
+                    // the subscribed handler might be tagged, while the foreign side has the original one
+                    handler_ptr_t actual = (*it)->handler;
+                    actual->call(orig_message);
                 }
             }
         }
diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index d9e5532..8bc4b68 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -28,10 +28,14 @@ bool subscription_point_t::operator==(const subscription_point_t &other) const {
 }
 
 subscription_container_t::iterator subscription_container_t::find(const subscription_point_t &point) noexcept {
-    auto predicate = [&point](auto &info) {
-        return *info->handler == *point.handler && info->address == point.address;
-    };
-    auto rit = std::find_if(rbegin(), rend(), predicate);
+    // handlers of the same type, e.g. methods with the same signature, are equal: prefer the very same handler
+    auto origin = point.handler->origin();
+    auto same = [&](auto &info) { return info->handler->origin() == origin && info->address == point.address; };
+    auto equal = [&](auto &info) { return *info->handler == *point.handler && info->address == point.address; };
+    auto rit = std::find_if(rbegin(), rend(), same);
+    if (rit == rend()) {
+        rit = std::find_if(rbegin(), rend(), equal);
+    }
     if (rit == rend()) {
         return end();
     }
-- 
2.43.0


From b912c83422ef01059b1da11fd680eb837f51ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 05/49] fix: actor_base_t::unsubscribe(handler) looks up the
 supervisor's subscriptions

It has to look for the subscription among the own ones of the actor.
---
 include/rotor/supervisor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 55c095c..16c5b7f 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -500,12 +500,12 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
 } // namespace plugin
 
 template <typename Handler, typename Enabled> void actor_base_t::unsubscribe(Handler &&h) noexcept {
-    supervisor->unsubscribe_actor(address, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), address);
 }
 
 template <typename Handler, typename Enabled>
 void actor_base_t::unsubscribe(Handler &&h, address_ptr_t &addr) noexcept {
-    supervisor->unsubscribe_actor(addr, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), addr);
 }
 
 template <typename T>
-- 
2.43.0


From 745dd1157b87b0ad13768557d8fbf17af67d709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 06/49] fix: plugin-owned foreign subscription still receives
 messages after unsubscription

The subscription point has to be forgotten by the lifetime plugin too, as it
is consulted when a message comes from the foreign address.
---
 include/rotor/plugin/lifetime.h |  1 +
 src/rotor/plugin/lifetime.cpp   | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/rotor/plugin/lifetime.h b/include/rotor/plugin/lifetime.h
index 9961fd0..65be3ab 100644
--- a/include/rotor/plugin/lifetime.h
+++ b/include/rotor/plugin/lifetime.h
@@ -70,6 +70,7 @@ struct ROTOR_API lifetime_plugin_t : public plugin_base_t {
 
   private:
     void unsubscribe() noexcept;
+    void forget_plugin_point(const subscription_point_t &point) noexcept;
 
     /** \brief recorded subscription points (i.e. handler/address pairs) */
     subscription_container_t points;
diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 6c8d829..97dfa31 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -99,9 +99,22 @@ void lifetime_plugin_t::unsubscribe() noexcept {
 
 void lifetime_plugin_t::on_subscription(message::subscription_t &msg) noexcept { actor->on_subscription(msg); }
 
-void lifetime_plugin_t::on_unsubscription(message::unsubscription_t &msg) noexcept { actor->on_unsubscription(msg); }
+void lifetime_plugin_t::forget_plugin_point(const subscription_point_t &point) noexcept {
+    if (point.owner_tag == owner_tag_t::PLUGIN) {
+        auto it = points.find(point);
+        if (it != points.end() && (*it)->handler->origin() == point.handler->origin()) {
+            points.erase(it);
+        }
+    }
+}
+
+void lifetime_plugin_t::on_unsubscription(message::unsubscription_t &msg) noexcept {
+    forget_plugin_point(msg.payload.point);
+    actor->on_unsubscription(msg);
+}
 
 void lifetime_plugin_t::on_unsubscription_external(message::unsubscription_external_t &msg) noexcept {
+    forget_plugin_point(msg.payload.point);
     actor->on_unsubscription_external(msg);
 }
 
-- 
2.43.0


From fabaa5d37e7ec9dea9b6cb05046e2c9e5afcc899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 07/49] fix: unsubscription of a runtime subscription to a
 foreign address

Only the plugin which owns the external subscription has to confirm the
unsubscription to the foreign supervisor, and the lifetime plugin has to do
that for the subscriptions made by the actor itself.
---
 src/rotor/plugin/lifetime.cpp    |  4 ++++
 src/rotor/plugin/plugin_base.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 97dfa31..662ed54 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -129,6 +129,10 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
     if (point.owner_tag != owner_tag_t::PLUGIN) {
         auto it = points.find(point);
         plugin_base_t::forget_subscription(*it);
+        if (external) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            actor->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         points.erase(it);
         result = true;
         if (points.empty()) {
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 55b80ab..98632d6 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -85,15 +85,13 @@ bool plugin_base_t::forget_subscription(const subscription_point_t &point) noexc
 bool plugin_base_t::handle_subscription(message::subscription_t &) noexcept { return false; }
 
 bool plugin_base_t::handle_unsubscription(const subscription_point_t &point, bool external) noexcept {
-    if (external) {
-        auto act = actor; /* backup */
-        auto ok = forget_subscription(point);
-        assert(ok && "unsubscription handled");
+    auto act = actor; /* backup */
+    auto ok = forget_subscription(point);
+    if (ok && external) {
         auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
         act->send<payload::commit_unsubscription_t>(sup_addr, point);
-        return ok;
     }
-    return forget_subscription(point);
+    return ok;
 }
 
 extended_error_ptr_t plugin_base_t::make_error(const std::error_code &ec, const extended_error_ptr_t &next,
-- 
2.43.0


From fe7680b780fb79af6c5922e4a36d5af67cddcede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 08/49] fix: null supervisor upon routing a message after the
 supervisor has been shut down

The delivery plugin is already deactivated (i.e. has no actor), while it still
processes the rest of the queue.
---
 include/rotor/supervisor.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 16c5b7f..c4cce0a 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -456,9 +456,8 @@ template <> inline size_t delivery_plugin_t<plugin::local_delivery_t>::process()
                 plugin::local_delivery_t::delivery(message, *local_recipients);
             }
             if (message->next_route && message->use_count() == 1) {
-                auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
-                sup->put(std::move(message));
+                queue->emplace_back(std::move(message));
             }
         } else {
             dest->supervisor.enqueue(std::move(message));
@@ -483,9 +482,8 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
                 plugin::inspected_local_delivery_t::delivery(message, *local_recipients, stringifier);
             }
             if (ptr->next_route && ptr->use_count() == 1) {
-                auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
-                sup->put(std::move(message));
+                queue->emplace_back(std::move(message));
             } else if (!local_recipients) {
                 plugin::inspected_local_delivery_t::discard(message, stringifier);
             }
-- 
2.43.0


From 39adcd7e3a209a4b5a8e3aad74385739b0be0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 09/49] fix: look up a subscription by the very handler, not by
 an equal one

Otherwise a plugin might take the unsubscription of an equal handler of the
actor (e.g. a method with the same signature) for its own.
---
 include/rotor/subscription_point.h      |  3 ++-
 src/rotor/plugin/foreigners_support.cpp |  2 +-
 src/rotor/plugin/lifetime.cpp           | 14 ++++++++++----
 src/rotor/plugin/starter.cpp            |  2 +-
 src/rotor/subscription_point.cpp        | 10 +++-------
 5 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/rotor/subscription_point.h b/include/rotor/subscription_point.h
index 9dda0f4..fb9ddbf 100644
--- a/include/rotor/subscription_point.h
+++ b/include/rotor/subscription_point.h
@@ -124,7 +124,8 @@ using subscription_info_ptr_t = intrusive_ptr_t<subscription_info_t>;
  *  \brief list of {@link subscription_info_ptr_t} with possibility to find via {@link subscription_point_t}
  */
 struct ROTOR_API subscription_container_t : public std::list<subscription_info_ptr_t> {
-    /** \brief looks up for the subscription info pointer (returned as iterator) via the subscription point */
+    /** \brief looks up for the subscription info pointer (returned as iterator) via the subscription point (i.e. the very
+     * same handler, probably tagged later) */
     iterator find(const subscription_point_t &point) noexcept;
 };
 
diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index a4b7d75..a0f7893 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -63,7 +63,7 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             if (lifetime) {
                 auto &points = lifetime->access<to::points>();
                 auto it = points.find(point);
-                if (it != points.end() && (*it)->handler->origin() == handler->origin()) {
+                if (it != points.end()) {
                     // the subscribed handler might be tagged, while the foreign side has the original one
                     handler_ptr_t actual = (*it)->handler;
                     actual->call(orig_message);
diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 662ed54..aaf371e 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -73,9 +73,15 @@ void lifetime_plugin_t::unsubscribe(const subscription_info_ptr_t &info_ptr) noe
 }
 
 void lifetime_plugin_t::unsubscribe(const handler_ptr_t &h, const address_ptr_t &addr) noexcept {
-    auto it = points.find(subscription_point_t{h, addr});
-    assert(it != points.end());
-    unsubscribe(*it);
+    auto point = subscription_point_t{h, addr};
+    auto it = points.find(point);
+    if (it == points.end()) { // the handler might be just an equal one
+        auto rit = std::find_if(points.rbegin(), points.rend(), [&](auto &info) { return *info == point; });
+        assert(rit != points.rend());
+        unsubscribe(*rit);
+    } else {
+        unsubscribe(*it);
+    }
 }
 
 void lifetime_plugin_t::unsubscribe() noexcept {
@@ -102,7 +108,7 @@ void lifetime_plugin_t::on_subscription(message::subscription_t &msg) noexcept {
 void lifetime_plugin_t::forget_plugin_point(const subscription_point_t &point) noexcept {
     if (point.owner_tag == owner_tag_t::PLUGIN) {
         auto it = points.find(point);
-        if (it != points.end() && (*it)->handler->origin() == point.handler->origin()) {
+        if (it != points.end()) {
             points.erase(it);
         }
     }
diff --git a/src/rotor/plugin/starter.cpp b/src/rotor/plugin/starter.cpp
index c6225cd..505b0f8 100644
--- a/src/rotor/plugin/starter.cpp
+++ b/src/rotor/plugin/starter.cpp
@@ -41,7 +41,7 @@ void starter_plugin_t::deactivate() noexcept {
 
 bool starter_plugin_t::handle_subscription(message::subscription_t &message) noexcept {
     auto &point = message.payload.point;
-    auto it = std::find_if(tracked.begin(), tracked.end(), [&](auto info) { return *info == point; });
+    auto it = tracked.find(point);
     if (it != tracked.end()) {
         tracked.erase(it);
     }
diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 8bc4b68..25b572e 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -28,14 +28,10 @@ bool subscription_point_t::operator==(const subscription_point_t &other) const {
 }
 
 subscription_container_t::iterator subscription_container_t::find(const subscription_point_t &point) noexcept {
-    // handlers of the same type, e.g. methods with the same signature, are equal: prefer the very same handler
+    // handlers of the same type, e.g. methods with the same signature, are equal, so look for the very same handler
     auto origin = point.handler->origin();
-    auto same = [&](auto &info) { return info->handler->origin() == origin && info->address == point.address; };
-    auto equal = [&](auto &info) { return *info->handler == *point.handler && info->address == point.address; };
-    auto rit = std::find_if(rbegin(), rend(), same);
-    if (rit == rend()) {
-        rit = std::find_if(rbegin(), rend(), equal);
-    }
+    auto predicate = [&](auto &info) { return info->handler->origin() == origin && info->address == point.address; };
+    auto rit = std::find_if(rbegin(), rend(), predicate);
     if (rit == rend()) {
         return end();
     }
-- 
2.43.0


From d2c811735f1066bb06bd9f4552dd3eaf51c8f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 10/49] fix: supervisor shuts down a child supervisor of
 another locality by direct access, racing with its loop

---
 src/rotor/plugin/child_manager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index fa984f9..860a0fd 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -282,10 +282,16 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
                 actor->do_shutdown(reason);
             }
         } else {
-            auto source_actor = actor_found ? it_actor->second->actor : this->actor;
             auto inner = make_error_code(shutdown_code_t::init_failed);
             auto reason = make_error(inner, ec);
-            source_actor->do_shutdown(reason);
+            if (actor_found && it_actor->second->actor && it_actor->second->actor != actor) {
+                /* the child might be a supervisor on a different locality, it must not be touched directly */
+                if (it_actor->second->shutdown == detail::shutdown_state_t::none) {
+                    sup.template send<payload::shutdown_trigger_t>(actor->get_address(), address, std::move(reason));
+                }
+            } else {
+                actor->do_shutdown(reason);
+            }
         }
     } else {
         /* the if is needed for the very rare case when supervisor was immediately shut down
-- 
2.43.0


From 920b5fc309ca7d946da69a8f11ce3348540ed2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 11/49] fix: requests of the nested errors are missing in the
 error text

---
 src/rotor/extended_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotor/extended_error.cpp b/src/rotor/extended_error.cpp
index 755d35c..170d099 100644
--- a/src/rotor/extended_error.cpp
+++ b/src/rotor/extended_error.cpp
@@ -19,7 +19,7 @@ std::string extended_error_t::message(const message_stringifier_t *stringifier)
         out << "]";
     }
     if (next) {
-        out << " <- " << next->message();
+        out << " <- " << next->message(stringifier);
     }
     return out.str();
 }
-- 
2.43.0


From 60bcb5e3e5a02c7132438cbf68d892a0aa4cedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 12/49] fix: iterator is invalidated when a timer callback
 starts other timers

---
 src/rotor/actor_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 336f90b..69a401f 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -263,7 +263,8 @@ void actor_base_t::on_timer_trigger(request_id_t request_id, bool cancelled) noe
     auto it = timers_map.find(request_id);
     if (it != timers_map.end()) {
         it->second->trigger(cancelled);
-        timers_map.erase(it);
+        /* the iterator might be invalidated, as the callback is free to start new timers */
+        timers_map.erase(request_id);
     }
 }
 
-- 
2.43.0


From 830594ff2c4b9368e43b951df6ca3454cb91ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 13/49] fix: handlers of concurrently built requests of the
 same type are lost, supervisor terminates on shutdown

---
 include/rotor/supervisor.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index c4cce0a..aad2af8 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -528,7 +528,14 @@ request_builder_t<T>::request_builder_t(supervisor_t &sup_, actor_base_t &actor_
 
 template <typename T> request_id_t request_builder_t<T>::send(const pt::time_duration &timeout_) noexcept {
     if (do_install_handler) {
-        install_handler();
+        // the handler might be already installed by another request of the same type, sent meanwhile
+        auto addr = sup.address_mapping.get_mapped_address(actor, response_message_t::message_type);
+        if (addr) {
+            imaginary_address = addr;
+            req->payload.reply_to = addr;
+        } else {
+            install_handler();
+        }
     }
     auto fn = &request_traits_t<T>::make_error_response;
     sup.request_map.emplace(request_id, request_curry_t{fn, reply_to, req, &actor});
-- 
2.43.0


From 148d4c9aefe9991c18923cab1d8107a991787750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:04 +0000
Subject: [PATCH 14/49] fix: escalation and autoshutdown marks of nested
 supervisors have no effect

---
 src/rotor/actor_base.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 69a401f..8d24345 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -10,7 +10,14 @@
 using namespace rotor;
 using namespace rotor::plugin;
 
+namespace {
+namespace to {
+struct parent {};
+} // namespace to
+} // namespace
+
 template <> auto &plugin_base_t::access<actor_base_t>() noexcept { return actor; }
+template <> auto &supervisor_t::access<to::parent>() noexcept { return parent; }
 
 actor_base_t::actor_base_t(actor_config_t &cfg)
     : spawner_address{cfg.spawner_address}, supervisor{cfg.supervisor}, init_timeout{cfg.init_timeout},
@@ -104,14 +111,16 @@ void actor_base_t::on_start() noexcept { state = state_t::OPERATIONAL; }
 
 void actor_base_t::shutdown_start() noexcept {
     state = state_t::SHUTTING_DOWN;
-    if (!spawner_address) {
+    /* the supervisor of a (nested) supervisor is its parent; nobody is above the root one */
+    auto upstream = (supervisor == this) ? supervisor->access<to::parent>() : supervisor;
+    if (!spawner_address && upstream) {
         if ((continuation_mask & ESCALATE_FALIURE) && shutdown_reason && shutdown_reason->root()->ec) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream->get_address();
             auto ee = make_error(make_error_code(error_code_t::failure_escalation), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
         if (continuation_mask & AUTOSHUTDOWN_SUPERVISOR) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream->get_address();
             auto ee = make_error(make_error_code(shutdown_code_t::child_down), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
-- 
2.43.0


From f1608504806b9033024e4e3355c3a91458d720c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 15/49] fix: shutdown trigger of an actor which is already gone
 terminates the process

---
 src/rotor/plugin/child_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 860a0fd..324f5ca 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -320,8 +320,11 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
 
 void child_manager_plugin_t::on_shutdown_trigger(message::shutdown_trigger_t &message) noexcept {
     auto &source_addr = message.payload.actor_address;
-    auto &actor_state = actors_map.at(source_addr);
-    request_shutdown(*actor_state, message.payload.reason);
+    auto it = actors_map.find(source_addr);
+    /* the actor might be already gone, e.g. it did not confirm shutdown in time */
+    if (it != actors_map.end()) {
+        request_shutdown(*it->second, message.payload.reason);
+    }
 }
 
 void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extended_error_ptr_t &ec) noexcept {
-- 
2.43.0


From 8a8d2565334c062a820cfdae9d849af86cd1fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 16/49] fix: synchronized start: late children are never
 started, uninitialized ones are started too early

---
 src/rotor/plugin/child_manager.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 324f5ca..1121643 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -299,7 +299,8 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
         if (actor_found) {
             it_actor->second->initialized = true;
             bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
-                                                              : !sup.access<to::synchronize_start>();
+                                                              : !sup.access<to::synchronize_start>() ||
+                                                                    (self_state == state_t::OPERATIONAL);
             if (do_start) {
                 it_actor->second->started = true;
                 /* the child, which is going down, might be already destroyed upon the start message delivery */
@@ -454,10 +455,13 @@ void child_manager_plugin_t::handle_start(message::start_trigger_t *trigger) noe
     if (sup.access<to::synchronize_start>()) {
         for (auto &it : actors_map) {
             auto &address = it.first;
-            if (address == actor->get_address())
+            auto &info = *it.second;
+            /* a child, which is still initializing, will be started right upon its initialization */
+            if (address == actor->get_address() || !info.initialized || info.started ||
+                info.shutdown != detail::shutdown_state_t::none)
                 continue;
             sup.template send<payload::start_actor_t>(address);
-            it.second->started = true;
+            info.started = true;
         }
     }
     return plugin_base_t::handle_start(trigger);
-- 
2.43.0


From 54a2e9b0b77df08bcf91d7e048bcc814455dddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 17/49] fix: strict supervisor ignores loss of a child before
 it was asked to initialize

---
 src/rotor/plugin/child_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 1121643..1066e4d 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -112,6 +112,10 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
                     auto ec = make_error_code(error_code_t::failure_escalation);
                     actor->reply_with_error(*init_request, make_error(ec, {}, init_request));
                     init_request.reset();
+                } else {
+                    /* not asked to initialize yet */
+                    auto ec = make_error_code(shutdown_code_t::child_init_failed);
+                    supervisor_reason = make_error(ec, info.actor->get_shutdown_reason());
                 }
             }
         }
-- 
2.43.0


From 91dd52f253373753decd0f837ec005615a598b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 18/49] fix: continuation of already failed initialization
 terminates the process

---
 src/rotor/actor_base.cpp      | 5 ++++-
 src/rotor/plugin/registry.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 8d24345..ab232b2 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -155,7 +155,10 @@ void actor_base_t::shutdown_finish() noexcept {
 
 void actor_base_t::init_continue() noexcept {
     assert(state == state_t::INITIALIZING);
-    assert(init_request);
+    if (!init_request) {
+        /* the initialization has been already answered with failure, the shutdown is about to start */
+        return;
+    }
 
     continuation_mask = continuation_mask | PROGRESS_INIT;
     std::size_t in_progress = plugins.size();
diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d373412..5b77bb3 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -106,10 +106,14 @@ void registry_plugin_t::on_future(message::discovery_future_t &message) noexcept
 
 void registry_plugin_t::continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept {
     auto &init_request = actor->access<to::init_request>();
-    assert(init_request);
+    if (!init_request) {
+        /* the initialization has been already answered with failure, the shutdown is about to start */
+        return;
+    }
     if (root_ec) {
         auto reason = make_error(possible_ec, root_ec, init_request);
         actor->reply_with_error(*init_request, reason);
+        init_request.reset();
     } else {
         actor->init_continue();
     }
-- 
2.43.0


From 7f05bcb4b1fe93ebe3b4ee5ff03767d97775b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 19/49] fix: own request of a nested supervisor is discarded if
 its id equals the id of the init-request made by parent

---
 src/rotor/plugin/child_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 1066e4d..2c3287f 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -339,7 +339,8 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
 void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &init_request = child->access<to::init_request>();
-    if (init_request) {
+    /* the supervisor itself might be initialized by its parent, the request id has no sense here then */
+    if (init_request && init_request->payload.origin == actor->get_address()) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
         // or forget the init-request.
         auto &timer_id = init_request->payload.id;
-- 
2.43.0


From 91cf31d1e438ff017bcccce6398141e7adeef039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 20/49] fix: a server, which shuts down before it is
 operational, never answers pending link requests and hangs

---
 src/rotor/plugin/link_client.cpp |  3 +--
 src/rotor/plugin/link_server.cpp | 11 ++++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index aa30779..9964d01 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -149,6 +149,7 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
     try_forget_links(false);
 
     auto link_server = actor->access<to::link_server>();
+    link_server->notify_shutdown();
     if (!link_server->has_clients()) {
         auto &source_addr = actor->get_address();
         for (auto it = servers_map.begin(); it != servers_map.end();) {
@@ -159,8 +160,6 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
             }
             it = servers_map.erase(it);
         }
-    } else {
-        link_server->notify_shutdown();
     }
 
     if (servers_map.empty()) {
diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c11b79b..5a99842 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -121,7 +121,16 @@ void link_server_plugin_t::handle_start(message::start_trigger_t *trigger) noexc
 }
 
 void link_server_plugin_t::notify_shutdown() noexcept {
-    for (auto &[address, link_info] : linked_clients) {
+    for (auto it = linked_clients.begin(); it != linked_clients.end();) {
+        auto &[address, link_info] = *it;
+        if (link_info.state == link_state_t::PENDING) {
+            /* the actor will never be operational */
+            auto ec = make_error_code(error_code_t::actor_not_linkable);
+            actor->reply_with_error(*link_info.request, make_error(ec, {}, link_info.request));
+            it = linked_clients.erase(it);
+            continue;
+        }
+        ++it;
         if (link_info.state == link_state_t::OPERATIONAL) {
             auto &self = actor->get_address();
             auto &timeout = actor->access<to::shutdown_timeout>();
-- 
2.43.0


From 05f61a3226596a4ccf9f949eeb47a6447a1832e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 21/49] fix: link response, delivered upon shutdown before
 initialization is complete, terminates the process

---
 src/rotor/plugin/link_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 9964d01..13230c2 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -83,7 +83,7 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
         } */
     } else {
         it->second.state = link_state_t::OPERATIONAL;
-        if (actor->access<to::init_request>()) {
+        if (actor->access<to::init_request>() && actor->access<to::state>() == rotor::state_t::INITIALIZING) {
             actor->init_continue();
         }
     }
-- 
2.43.0


From 9d41b1723d943f9e53efbc3a63b5c07dc1eb738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 22/49] fix: an actor, which has own clients, neither shuts
 down nor answers, when its server asks it to unlink

---
 src/rotor/plugin/link_client.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 13230c2..17a63b6 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -95,6 +95,21 @@ void link_client_plugin_t::forget_link(message::unlink_request_t &message) noexc
     if (it == servers_map.end())
         return;
 
+    auto state = actor->access<to::state>();
+    if (state < rotor::state_t::SHUTTING_DOWN && actor->access<to::link_server>()->has_clients()) {
+        if (!actor->access<to::on_unlink, const address_ptr_t &>(server_addr)) {
+            servers_map.erase(it);
+            actor->reply_to(message, actor->get_address());
+            return;
+        }
+        /* own clients have to leave first, i.e. upon shutdown */
+        it->second.state = link_state_t::UNLINKING;
+        unlink_queue.emplace_back(&message);
+        auto ec = make_error_code(shutdown_code_t::unlink_requested);
+        actor->do_shutdown(make_error(ec));
+        return;
+    }
+
     unlink_queue.emplace_back(&message);
     try_forget_links(true);
 }
@@ -108,9 +123,10 @@ void link_client_plugin_t::try_forget_links(bool attempt_shutdown) noexcept {
             auto &server_addr = message.payload.request_payload.server_addr;
             auto server_it = servers_map.find(server_addr);
             if (server_it != servers_map.end()) {
+                auto notified = server_it->second.state == link_state_t::UNLINKING;
                 actor->reply_to(message, actor->get_address());
                 servers_map.erase(server_it);
-                auto result = actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
+                auto result = notified || actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
                 shutdown_needed |= result;
             }
         }
-- 
2.43.0


From cc2c73cc06d1f6f96a4158e422b6b52f790221d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 23/49] fix: races of unlink/link responses with unlink
 notifications and shutdown terminate the process

---
 src/rotor/plugin/link_client.cpp |  4 +++-
 src/rotor/plugin/link_server.cpp | 26 +++++++++++++++-----------
 src/rotor/supervisor.cpp         |  8 +++++---
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 17a63b6..fe03d83 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -60,7 +60,9 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
     auto &address = message.payload.req->address;
     auto &ec = message.payload.ee;
     auto it = servers_map.find(address);
-    assert(it != servers_map.end());
+    /* the link has been given up upon shutdown, while the response was on its way */
+    if (it == servers_map.end())
+        return;
 
     auto callback = it->second.callback;
     if (ec) {
diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index 5a99842..fd3b50e 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -16,6 +16,7 @@ struct state {};
 struct shutdown_request {};
 struct shutdown_timeout {};
 struct link_server {};
+struct discard_request {};
 } // namespace to
 } // namespace
 
@@ -23,6 +24,9 @@ template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
 template <> auto &actor_base_t::access<to::shutdown_request>() noexcept { return shutdown_request; }
 template <> auto &actor_base_t::access<to::shutdown_timeout>() noexcept { return shutdown_timeout; }
 template <> auto &actor_base_t::access<to::link_server>() noexcept { return link_server; }
+template <> auto supervisor_t::access<to::discard_request, request_id_t>(request_id_t request_id) noexcept {
+    return discard_request(request_id);
+}
 
 const std::type_index link_server_plugin_t::class_identity = typeid(link_server_plugin_t);
 
@@ -72,7 +76,7 @@ void link_server_plugin_t::on_unlink_notify(message::unlink_notify_t &message) n
 
     auto &unlink_request = it->second.unlink_request;
     if (unlink_request) {
-        actor->get_supervisor().cancel_timer(*unlink_request);
+        actor->get_supervisor().access<to::discard_request>(*unlink_request);
     }
     linked_clients.erase(it);
 
@@ -83,21 +87,21 @@ void link_server_plugin_t::on_unlink_notify(message::unlink_notify_t &message) n
 
 void link_server_plugin_t::on_unlink_response(message::unlink_response_t &message) noexcept {
     auto &ec = message.payload.ee;
+    auto &client = message.payload.req->address;
+    auto it = linked_clients.find(client);
+    /* the client has already left, i.e. it was notification, which has been handled first */
+    if (it == linked_clients.end())
+        return;
+
+    /* no longer pending */
+    it->second.unlink_request.reset();
+
     auto &shutdown_request = actor->access<to::shutdown_request>();
     if (ec && shutdown_request) {
-        actor->reply_with_error(*actor->access<to::shutdown_request>(), ec);
+        actor->reply_with_error(*shutdown_request, ec);
         return;
     }
 
-    auto &client = message.payload.res.client_addr;
-    auto it = linked_clients.find(client);
-
-    // no idea, how to trigger/cause the race
-    assert(it != linked_clients.end());
-    /*
-    if (it == linked_clients.end())
-        return;
-    */
     linked_clients.erase(it);
 
     auto &state = actor->access<to::state>();
diff --git a/src/rotor/supervisor.cpp b/src/rotor/supervisor.cpp
index f7c08ac..fb7b0c2 100644
--- a/src/rotor/supervisor.cpp
+++ b/src/rotor/supervisor.cpp
@@ -138,9 +138,11 @@ void supervisor_t::on_request_trigger(request_id_t timer_id, bool cancelled) noe
 }
 
 void supervisor_t::discard_request(request_id_t request_id) noexcept {
-    assert(request_map.find(request_id) != request_map.end());
-    cancel_timer(request_id);
-    request_map.erase(request_id);
+    /* it might be that the response is already on its way to the actor */
+    if (request_map.find(request_id) != request_map.end()) {
+        cancel_timer(request_id);
+        request_map.erase(request_id);
+    }
 }
 
 void supervisor_t::shutdown_finish() noexcept {
-- 
2.43.0


From 1e5284963c2ceee02dad322855e4dda1a83ba1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 24/49] fix: a server waits forever for a client, which gave up
 linking by timeout

---
 src/rotor/plugin/link_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index fe03d83..88f768e 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -66,6 +66,10 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
 
     auto callback = it->second.callback;
     if (ec) {
+        if (ec->ec == make_error_code(error_code_t::request_timeout)) {
+            /* the server might still accept the link, let it know that the client has gone */
+            actor->send<payload::unlink_notify_t>(address, actor->get_address());
+        }
         servers_map.erase(it);
     }
 
-- 
2.43.0


From 3b7f5383d231d185d20e9b84102fa1d72de19e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 25/49] fix: restart period of a spawner is measured by local
 time, i.e. it is violated by daylight saving shifts

---
 src/rotor/detail/child_info.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rotor/detail/child_info.cpp b/src/rotor/detail/child_info.cpp
index 1cfa860..4e204ca 100644
--- a/src/rotor/detail/child_info.cpp
+++ b/src/rotor/detail/child_info.cpp
@@ -14,7 +14,7 @@ void child_info_t::spawn_attempt() noexcept {
     ++attempts;
     timer_id = 0;
     shutdown = shutdown_state_t::none;
-    last_instantiation = clock_t::local_time();
+    last_instantiation = clock_t::universal_time();
     if (max_attempts && attempts >= max_attempts) {
         active = false;
     }
@@ -73,7 +73,7 @@ spawn_demand_t child_info_t::next_spawn(bool abnormal_shutdown) noexcept {
         }
     }
 
-    auto now = clock_t::local_time();
+    auto now = clock_t::universal_time();
     auto after = now - last_instantiation;
     if (after >= restart_period) {
         return demand::now{};
-- 
2.43.0


From 0a8f4e208b41a1e4987186385693f679f1f93d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 26/49] fix: spawner escalates normal shutdowns and does not
 escalate some failures

---
 src/rotor/detail/child_info.cpp | 36 +++++++++------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/rotor/detail/child_info.cpp b/src/rotor/detail/child_info.cpp
index 4e204ca..9395f4a 100644
--- a/src/rotor/detail/child_info.cpp
+++ b/src/rotor/detail/child_info.cpp
@@ -28,48 +28,30 @@ spawn_demand_t child_info_t::next_spawn(bool abnormal_shutdown) noexcept {
         return demand::no{};
     }
 
-    auto check_failure_escalation = [&]() -> bool {
-        if (escalate_failure) {
-            if (max_attempts && attempts >= max_attempts) {
-                return true;
-            }
-            if (abnormal_shutdown) {
-                if (policy == restart_policy_t::always && !active) {
-                    active = false;
-                    return true;
-                }
-                if (policy == restart_policy_t::normal_only) {
-                    active = false;
-                    return true;
-                }
-            }
+    auto give_up = [&]() -> spawn_demand_t {
+        active = false;
+        if (escalate_failure && abnormal_shutdown) {
+            return demand::escalate_failure{};
         }
-        return false;
+        return demand::no{};
     };
 
-    if (check_failure_escalation()) {
-        return demand::escalate_failure{};
-    }
-
     if (!active) {
-        return demand::no{};
+        return give_up();
     }
 
     if (policy == restart_policy_t::fail_only && !abnormal_shutdown) {
-        active = false;
-        return demand::no{};
+        return give_up();
     }
 
     if (policy == restart_policy_t::normal_only && abnormal_shutdown) {
-        active = false;
-        return demand::no{};
+        return give_up();
     }
 
     if (policy == restart_policy_t::ask_actor) {
         auto need_restart = actor->should_restart();
         if (!need_restart) {
-            active = false;
-            return demand::no{};
+            return give_up();
         }
     }
 
-- 
2.43.0


From 1123ba6236ce59992ff314645d5950d9e8030915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 27/49] fix: spawner makes new instances when the supervisor is
 shutting down

---
 src/rotor/plugin/child_manager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 2c3287f..6730b8e 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -214,13 +214,23 @@ void child_manager_plugin_t::on_create(message::create_actor_t &message) noexcep
 void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept {
     auto &addr = message.payload.spawner_address;
     auto it = actors_map.find(addr);
-    assert(it != actors_map.end());
+    if (it == actors_map.end()) {
+        return;
+    }
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &info = *it->second;
 
     if (!info.active) {
         return;
     }
+    auto self_state = actor->access<to::state>();
+    if (self_state > state_t::OPERATIONAL) {
+        actors_map.erase(it);
+        if (self_state == state_t::SHUTTING_DOWN) {
+            actor->shutdown_continue();
+        }
+        return;
+    }
     info.spawn_attempt();
 
     try {
-- 
2.43.0


From 19246ffb932e225bace629757812469f626256f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 28/49] fix: names, which are being registered when an actor
 shuts down, terminate the process or stay in the registry

---
 src/rotor/plugin/registry.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 5b77bb3..deb5c5e 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -84,9 +84,15 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = register_map.find(service);
-    assert(it != register_map.end());
+    if (it == register_map.end()) {
+        /* the shutdown has been started, the name is already asked to be deregistered */
+        return;
+    }
     if (ee) {
-        register_map.erase(it);
+        if (ee->ec != make_error_code(error_code_t::request_timeout)) {
+            register_map.erase(it);
+        }
+        /* otherwise it is still unknown whether the name has been registered, i.e. it has to be deregistered */
     } else {
         it->second.state = state_t::OPERATIONAL;
     }
@@ -162,6 +168,10 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
             if (it.second.state == state_t::OPERATIONAL) {
                 actor->send<payload::deregistration_service_t>(registry_addr, it.first);
                 it.second.state = state_t::UNREGISTERING;
+            } else if (it.second.state == state_t::REGISTERING) {
+                /* the registration might be in flight, i.e. it is not known, whether the name belongs to the address */
+                actor->send<payload::deregistration_notify_t>(registry_addr, it.second.address);
+                it.second.state = state_t::UNREGISTERING;
             }
         }
         register_map.clear();
-- 
2.43.0


From 676ac3e4cd87be509eb222679e754bbd11915e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 29/49] fix: discovery, which is finished or linked after
 shutdown has been started, terminates the process

---
 src/rotor/plugin/registry.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index deb5c5e..79df3d5 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -203,7 +203,10 @@ template <typename Message> void process_discovery(registry_plugin_t::discovery_
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = dm.find(service);
-    assert(it != dm.end());
+    if (it == dm.end()) {
+        /* the shutdown has been started, the discovery is not interesting anymore */
+        return;
+    }
     address_ptr_t *address_value = ee ? nullptr : &message.payload.res.service_addr;
     it->second.template access<to::on_discovery, address_ptr_t *, const extended_error_ptr_t &>(address_value, ee);
 }
@@ -220,21 +223,31 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
     auto actor_state = plugin->actor->access<to::state>();
     if (actor_state == rotor::state_t::INITIALIZING) {
         if (!ec) {
+            state = state_t::LINKING;
             auto &aliases = plugin->access<to::aliases_map>();
             if (!aliases.count(*address)) {
                 auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
                 auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
-                link_plugin.link(*address, operational_only, [this](auto &ec) {
+                /* the task might be gone, when linking is finished */
+                auto callback = [plugin = plugin, address = *address, name = service_name](auto &ec) {
                     auto &am = plugin->access<to::aliases_map>();
                     auto &dm = plugin->access<to::discovery_map>();
-                    for (auto &alias : am.at(*address)) {
-                        auto &callback = dm.at(alias).task_callback;
-                        if (callback) {
-                            callback(phase_t::linking, ec);
+                    auto ait = am.find(address);
+                    if (ait == am.end()) {
+                        return;
+                    }
+                    for (auto &alias : ait->second) {
+                        auto it = dm.find(alias);
+                        if (it != dm.end() && it->second.task_callback) {
+                            it->second.task_callback(phase_t::linking, ec);
                         }
                     }
-                    post_discovery(ec);
-                });
+                    auto it = dm.find(name);
+                    if (it != dm.end()) {
+                        it->second.post_discovery(ec);
+                    }
+                };
+                link_plugin.link(*address, operational_only, std::move(callback));
                 aliases.emplace(*address, names_t{service_name});
             } else {
                 aliases.at(*address).emplace_back(service_name);
-- 
2.43.0


From 12b085ff585b6a8d943e1f3b60a31497123f689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 30/49] fix: names of the same address, discovered one after
 another, are never completed, or destroy the running task

---
 src/rotor/plugin/registry.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 79df3d5..60a48c9 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -225,7 +225,8 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
         if (!ec) {
             state = state_t::LINKING;
             auto &aliases = plugin->access<to::aliases_map>();
-            if (!aliases.count(*address)) {
+            auto ait = aliases.find(*address);
+            if (ait == aliases.end()) {
                 auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
                 auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
                 /* the task might be gone, when linking is finished */
@@ -249,10 +250,15 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
                 };
                 link_plugin.link(*address, operational_only, std::move(callback));
                 aliases.emplace(*address, names_t{service_name});
-            } else {
-                aliases.at(*address).emplace_back(service_name);
+                return;
+            } else if (!ait->second.empty()) {
+                ait->second.emplace_back(service_name);
+                return;
+            }
+            /* already linked, because of the other name of the same address */
+            if (task_callback) {
+                task_callback(phase_t::linking, ec);
             }
-            return;
         }
     }
     post_discovery(ec);
@@ -260,19 +266,17 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
 
 void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_ptr_t &ec) noexcept {
     auto p = plugin;
+    auto name = service_name; /* the task itself is about to be destroyed */
     auto &dm = p->discovery_map;
-    auto it = dm.find(service_name);
-    assert(it != dm.end());
-
     auto &am = p->aliases_map;
-    auto ait = am.find(*it->second.address);
+    auto ait = am.find(*address);
     if (ait != am.end()) {
         for (auto &alias : ait->second) {
             dm.erase(alias);
         }
-    } else {
-        dm.erase(it);
+        ait->second.clear();
     }
+    dm.erase(name);
 
     if (dm.empty() || ec) {
         auto actor_state = p->actor->access<to::state>();
-- 
2.43.0


From c6a8c3742c5302b189bbd6d72c3e2c4fa5b1fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 31/49] fix: messages from outside to a nested thread
 supervisor are never delivered

---
 src/rotor/thread/supervisor_thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/thread/supervisor_thread.cpp b/src/rotor/thread/supervisor_thread.cpp
index 1f7ed2c..8bd0a90 100644
--- a/src/rotor/thread/supervisor_thread.cpp
+++ b/src/rotor/thread/supervisor_thread.cpp
@@ -24,7 +24,9 @@ void supervisor_thread_t::shutdown() noexcept {
 
 void supervisor_thread_t::enqueue(message_ptr_t message) noexcept {
     auto ctx = static_cast<system_context_thread_t *>(context);
-    inbound_queue.push(message.detach());
+    // the context polls the queue of the root supervisor only
+    auto leader = static_cast<supervisor_thread_t *>(locality_leader);
+    leader->inbound_queue.push(message.detach());
     std::lock_guard<std::mutex> lock(ctx->mutex);
     ctx->cv.notify_one();
 }
-- 
2.43.0


From f0426427853ac29d4eb2e0d6c7edad66a4a6052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 32/49] fix: thread backend: timers are fired twice or crash,
 when timers are (re)started or cancelled by callbacks and I/O handlers

---
 src/rotor/thread/system_context_thread.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index b420c07..e62837c 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -93,11 +93,11 @@ void system_context_thread_t::check() noexcept {
 
 void system_context_thread_t::update_time() noexcept {
     now = clock_t::now();
-    auto it = timer_nodes.begin();
-    while (it != timer_nodes.end() && it->deadline < now) {
-        auto actor_ptr = it->handler->owner;
-        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(it->handler->request_id, false);
-        it = timer_nodes.erase(it);
+    while (!timer_nodes.empty() && timer_nodes.front().deadline < now) {
+        auto handler = timer_nodes.front().handler;
+        // the callback is able to start and cancel timers, i.e. to get here again
+        timer_nodes.pop_front();
+        handler->owner->access<to::on_timer_trigger, request_id_t, bool>(handler->request_id, false);
     }
 }
 
@@ -115,14 +115,12 @@ void system_context_thread_t::start_timer(const pt::time_duration &interval, tim
 }
 
 void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
-    if (intercepting)
-        update_time();
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
     assert(it != timer_nodes.end() && "timer has been found");
-    auto &actor_ptr = it->handler->owner;
-    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
+    auto actor_ptr = it->handler->owner;
     timer_nodes.erase(it);
+    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
 }
 
 } // namespace rotor
-- 
2.43.0


From 288f23130f16ff7e089eb42dfcd8897909a99538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 33/49] fix: fltk: the callback of the main loop refers to
 destroyed supervisor, other contexts are never awakened after that

---
 include/rotor/fltk/system_context_fltk.h |  5 +++++
 src/rotor/fltk/system_context_fltk.cpp   | 24 +++++++++++++-----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/rotor/fltk/system_context_fltk.h b/include/rotor/fltk/system_context_fltk.h
index 18de94b..e4c6cfc 100644
--- a/include/rotor/fltk/system_context_fltk.h
+++ b/include/rotor/fltk/system_context_fltk.h
@@ -9,6 +9,8 @@
 #include "rotor/arc.hpp"
 #include "rotor/fltk/export.h"
 #include "rotor/system_context.h"
+#include <atomic>
+#include <cstdint>
 
 namespace rotor {
 namespace fltk {
@@ -23,6 +25,9 @@ struct ROTOR_FLTK_API system_context_fltk_t : system_context_t {
 
   private:
     void enqueue(message_ptr_t message) noexcept;
+    void process_inbound() noexcept;
+
+    std::atomic_int32_t queue_counter{0};
     friend supervisor_fltk_t;
 };
 
diff --git a/src/rotor/fltk/system_context_fltk.cpp b/src/rotor/fltk/system_context_fltk.cpp
index aeb6bd8..8af7006 100644
--- a/src/rotor/fltk/system_context_fltk.cpp
+++ b/src/rotor/fltk/system_context_fltk.cpp
@@ -6,9 +6,6 @@
 
 #include "rotor/fltk/system_context_fltk.h"
 #include "rotor/supervisor.h"
-#include <atomic>
-#include <cstdint>
-
 #include <FL/Fl.H>
 
 using namespace rotor;
@@ -24,12 +21,10 @@ struct queue {};
 template <> inline auto &rotor::supervisor_t::access<to::inbound_queue>() noexcept { return inbound_queue; }
 template <> inline auto &rotor::supervisor_t::access<to::queue>() noexcept { return queue; }
 
-static std::atomic_int32_t queue_counter{0};
-
-static void _callback(void *data) {
-    auto sup_raw = static_cast<supervisor_t *>(data);
-    auto &inbound = sup_raw->access<to::inbound_queue>();
-    auto &queue = sup_raw->access<to::queue>();
+void system_context_fltk_t::process_inbound() noexcept {
+    auto sup = get_supervisor();
+    auto &inbound = sup->access<to::inbound_queue>();
+    auto &queue = sup->access<to::queue>();
     message_base_t *ptr;
     bool try_fetch = true;
     while (try_fetch) {
@@ -40,7 +35,7 @@ static void _callback(void *data) {
             ++fetched;
         }
         if (fetched) {
-            sup_raw->do_process();
+            sup->do_process();
             try_fetch = queue_counter.fetch_sub(fetched) != fetched;
         }
     }
@@ -52,7 +47,14 @@ void system_context_fltk_t::enqueue(message_ptr_t message) noexcept {
         auto &inbound = sup->access<to::inbound_queue>();
         inbound.push(message.detach());
         if (queue_counter.fetch_add(1) == 0) {
-            Fl::awake(_callback, sup);
+            // the context has to be alive until the callback is invoked
+            intrusive_ptr_add_ref(this);
+            Fl::awake(
+                [](void *data) {
+                    auto ctx = system_context_ptr_t(static_cast<system_context_fltk_t *>(data), false);
+                    ctx->process_inbound();
+                },
+                this);
         }
     }
 }
-- 
2.43.0


From 4ce03be133febb639d756db0d7b43fd545572dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 34/49] fix: routed messages are lost when recipients in
 different loops release them concurrently; destruction of unprocessed ones
 uses destroyed supervisors

---
 include/rotor/message.h         |  8 ++++++++
 include/rotor/messages.hpp      |  2 --
 include/rotor/plugin/delivery.h |  3 +++
 include/rotor/supervisor.h      | 13 +++++++++----
 src/rotor/messages.cpp          | 22 +++++++++++-----------
 src/rotor/plugin/delivery.cpp   |  8 ++++++++
 6 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/include/rotor/message.h b/include/rotor/message.h
index 805918d..2e45e89 100644
--- a/include/rotor/message.h
+++ b/include/rotor/message.h
@@ -117,6 +117,14 @@ template <typename T> const void *message_t<T>::message_type = message_support::
 /** \brief intrusive pointer for message */
 using message_ptr_t = intrusive_ptr_t<message_base_t>;
 
+namespace message_support {
+/** \brief returns true if nobody else holds the message, otherwise releases it
+ *
+ * The message might be released by different loops concurrently, but only one of them is the last.
+ */
+ROTOR_API bool is_last_holder(message_ptr_t &message) noexcept;
+} // namespace message_support
+
 /** \brief structure to hold messages (intrusive pointers) */
 using messages_queue_t = std::deque<message_ptr_t>;
 
diff --git a/include/rotor/messages.hpp b/include/rotor/messages.hpp
index 93f16d0..1105b3d 100644
--- a/include/rotor/messages.hpp
+++ b/include/rotor/messages.hpp
@@ -131,8 +131,6 @@ struct shutdown_request_t {
  *
  */
 struct handler_call_t {
-    ~handler_call_t();
-
     /** \brief The original message (intrusive pointer) sent to an address */
     message_ptr_t orig_message;
 
diff --git a/include/rotor/plugin/delivery.h b/include/rotor/plugin/delivery.h
index a366dd0..471b877 100644
--- a/include/rotor/plugin/delivery.h
+++ b/include/rotor/plugin/delivery.h
@@ -67,6 +67,9 @@ struct ROTOR_API delivery_plugin_base_t : public plugin_base_t {
     void activate(actor_base_t *actor) noexcept override;
 
   protected:
+    /** \brief routes the original message of the processed foreign call further */
+    void route_foreign(message_ptr_t &message) noexcept;
+
     /** \brief non-owning raw pointer of supervisor's messages queue */
     messages_queue_t *queue = nullptr;
 
diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index aad2af8..6ce4681 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -455,7 +455,9 @@ template <> inline size_t delivery_plugin_t<plugin::local_delivery_t>::process()
             if (local_recipients) {
                 plugin::local_delivery_t::delivery(message, *local_recipients);
             }
-            if (message->next_route && message->use_count() == 1) {
+            if (message->type_index == message::handler_call_t::message_type) {
+                route_foreign(message);
+            } else if (message->next_route && message_support::is_last_holder(message)) {
                 message->address = std::move(message->next_route);
                 queue->emplace_back(std::move(message));
             }
@@ -481,11 +483,14 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
             if (local_recipients) {
                 plugin::inspected_local_delivery_t::delivery(message, *local_recipients, stringifier);
             }
-            if (ptr->next_route && ptr->use_count() == 1) {
+            if (!local_recipients && !(ptr->next_route && ptr->use_count() == 1)) {
+                plugin::inspected_local_delivery_t::discard(message, stringifier);
+            }
+            if (message->type_index == message::handler_call_t::message_type) {
+                route_foreign(message);
+            } else if (message->next_route && message_support::is_last_holder(message)) {
                 message->address = std::move(message->next_route);
                 queue->emplace_back(std::move(message));
-            } else if (!local_recipients) {
-                plugin::inspected_local_delivery_t::discard(message, stringifier);
             }
         } else {
             dest->supervisor.enqueue(std::move(message));
diff --git a/src/rotor/messages.cpp b/src/rotor/messages.cpp
index 971e3ed..a3c6551 100644
--- a/src/rotor/messages.cpp
+++ b/src/rotor/messages.cpp
@@ -4,19 +4,19 @@
 // Distributed under the MIT Software License
 //
 
-#include "rotor/messages.hpp"
-#include "rotor/handler.h"
-#include "rotor/supervisor.h"
+#include "rotor/message.h"
+#include <mutex>
 
-namespace rotor::payload {
+namespace rotor::message_support {
 
-handler_call_t::~handler_call_t() {
-    auto ptr = orig_message.get();
-    if (ptr && ptr->next_route && ptr->use_count() == 1) {
-        ptr->address = std::move(ptr->next_route);
-        auto &sup = handler->actor_ptr->get_supervisor();
-        sup.enqueue(std::move(orig_message));
+bool is_last_holder(message_ptr_t &message) noexcept {
+    static std::mutex mutex;
+    std::lock_guard<std::mutex> lock(mutex);
+    if (message->use_count() == 1) {
+        return true;
     }
+    message.reset();
+    return false;
 }
 
-} // namespace rotor::payload
+} // namespace rotor::message_support
diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index 7bea664..4b941e8 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -36,6 +36,14 @@ void delivery_plugin_base_t::activate(actor_base_t *actor_) noexcept {
     stringifier = &actor->get_supervisor().access<to::context>()->get_stringifier();
 }
 
+void delivery_plugin_base_t::route_foreign(message_ptr_t &message) noexcept {
+    auto &orig_message = static_cast<message::handler_call_t *>(message.get())->payload.orig_message;
+    if (orig_message->next_route && message_support::is_last_holder(orig_message)) {
+        orig_message->address = std::move(orig_message->next_route);
+        queue->emplace_back(std::move(orig_message));
+    }
+}
+
 void local_delivery_t::delivery(message_ptr_t &message,
                                 const subscription_t::joint_handlers_t &local_recipients) noexcept {
     for (auto &handler : local_recipients.external) {
-- 
2.43.0


From df8694755127cab8da14ad91a11343dbc56103fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 35/49] fix: wx: a timer, cancelled by a callback of another
 timer expired simultaneously, crashes

---
 src/rotor/wx/supervisor_wx.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rotor/wx/supervisor_wx.cpp b/src/rotor/wx/supervisor_wx.cpp
index 31d466a..8719a22 100644
--- a/src/rotor/wx/supervisor_wx.cpp
+++ b/src/rotor/wx/supervisor_wx.cpp
@@ -30,6 +30,11 @@ supervisor_wx_t::timer_t::timer_t(timer_handler_base_t *handler_, supervisor_ptr
     : handler{handler_}, sup{std::move(sup_)} {}
 
 void supervisor_wx_t::timer_t::Notify() noexcept {
+    if (!handler) {
+        // it has been cancelled by a callback of another timer, expired simultaneously
+        delete this;
+        return;
+    }
     auto timer_id = handler->request_id;
     auto *supervisor = sup.get();
     auto &timers_map = sup->timers_map;
@@ -85,8 +90,14 @@ void supervisor_wx_t::do_start_timer(const pt::time_duration &interval, timer_ha
 void supervisor_wx_t::do_cancel_timer(request_id_t timer_id) noexcept {
     try {
         auto &timer = timers_map.at(timer_id);
-        timer->Stop();
         auto actor_ptr = timer->handler->owner;
+        if (timer->IsRunning()) {
+            timer->Stop();
+        } else {
+            // already expired, i.e. wx is going to notify it
+            timer->handler = nullptr;
+            timer.release();
+        }
         actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
         timers_map.erase(timer_id);
     } catch (std::out_of_range &ex) {
-- 
2.43.0


From 8108cc22a5bf7ea2391ada7045581ccdeeeb89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 36/49] fix: subscription, confirmed after the starter plugin
 has been deactivated, terminates the process

---
 src/rotor/plugin/plugin_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 98632d6..fee4deb 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -76,6 +76,7 @@ bool plugin_base_t::forget_subscription(const subscription_point_t &point) noexc
                 actor->shutdown_continue();
             }
             actor = nullptr;
+            reaction = 0;
         }
         return true;
     }
-- 
2.43.0


From 6c474ac510fed4fa38e4ab95473ea1a436613a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 37/49] fix: wx: routed messages never reach their second
 address

---
 src/rotor/wx/supervisor_wx.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rotor/wx/supervisor_wx.cpp b/src/rotor/wx/supervisor_wx.cpp
index 8719a22..720f38f 100644
--- a/src/rotor/wx/supervisor_wx.cpp
+++ b/src/rotor/wx/supervisor_wx.cpp
@@ -72,9 +72,11 @@ void supervisor_wx_t::shutdown() noexcept {
 
 void supervisor_wx_t::enqueue(message_ptr_t message) noexcept {
     supervisor_ptr_t self{this};
-    handler->CallAfter([self = std::move(self), message = std::move(message)]() {
+    // wx copies the functor; the message has to be held by the queue only, otherwise it would not be routed further
+    auto holder = std::make_shared<message_ptr_t>(std::move(message));
+    handler->CallAfter([self = std::move(self), holder = std::move(holder)]() {
         auto &sup = *self;
-        sup.put(message);
+        sup.put(std::move(*holder));
         sup.do_process();
     });
 }
-- 
2.43.0


From a20419dd0d8037ec8e83bb568eafbdcfe7f5f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 38/49] fix: supervisor reads fields of a child supervisor of
 another locality, racing with its loop

---
 include/rotor/detail/child_info.h    |  3 +++
 include/rotor/plugin/child_manager.h |  2 +-
 src/rotor/plugin/child_manager.cpp   | 29 +++++++++++++++++++++-------
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/rotor/detail/child_info.h b/include/rotor/detail/child_info.h
index 6ff7924..5cf1c4e 100644
--- a/include/rotor/detail/child_info.h
+++ b/include/rotor/detail/child_info.h
@@ -105,6 +105,9 @@ struct ROTOR_API child_info_t : boost::intrusive_ref_counter<child_info_t, boost
     /** \brief the timer_id when actor should be spawned */
     request_id_t timer_id{0};
 
+    /** \brief the id of the init-request, made to the actor */
+    request_id_t init_request_id{0};
+
     /** \brief when an actor was successfully spawned */
     pt::ptime last_instantiation;
 
diff --git a/include/rotor/plugin/child_manager.h b/include/rotor/plugin/child_manager.h
index 7b6c1ef..cf64ef2 100644
--- a/include/rotor/plugin/child_manager.h
+++ b/include/rotor/plugin/child_manager.h
@@ -105,7 +105,7 @@ struct ROTOR_API child_manager_plugin_t : public plugin_base_t {
     bool has_initializing() const noexcept;
     void init_continue() noexcept;
     void request_shutdown(const extended_error_ptr_t &ec) noexcept;
-    void cancel_init(const actor_base_t *child) noexcept;
+    void cancel_init(const detail::child_info_t &child_state) noexcept;
     void request_shutdown(detail::child_info_t &child_state, const extended_error_ptr_t &ec) noexcept;
     void on_spawn_timer(request_id_t timer_id, bool cancelled) noexcept;
 
diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 6730b8e..ce0a5d4 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -125,7 +125,7 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
         actor->do_shutdown(supervisor_reason);
     }
 
-    cancel_init(&child);
+    cancel_init(info);
     auto child_reason = info.actor->get_shutdown_reason();
     bool erase_spawner = true;
     static_cast<supervisor_t &>(*actor).access<to::alive_actors>().erase(&child);
@@ -208,7 +208,8 @@ void child_manager_plugin_t::on_create(message::create_actor_t &message) noexcep
     auto &child_actor = message.payload.actor;
     auto &actor_address = child_actor->get_address();
     assert(actors_map.count(actor_address) == 1);
-    sup.template request<payload::initialize_actor_t>(actor_address).send(message.payload.timeout);
+    auto request_id = sup.template request<payload::initialize_actor_t>(actor_address).send(message.payload.timeout);
+    actors_map.at(actor_address)->init_request_id = request_id;
 }
 
 void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept {
@@ -272,9 +273,12 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
 
     auto &sup = static_cast<supervisor_t &>(*actor);
     bool continue_init = false;
-    continue_init = !ec && !has_initializing();
     auto it_actor = actors_map.find(address);
     bool actor_found = it_actor != actors_map.end();
+    if (actor_found && !ec) {
+        it_actor->second->initialized = true;
+    }
+    continue_init = !ec && !has_initializing();
 
     auto &self_state = actor->access<to::state>();
     if (ec) {
@@ -311,7 +315,6 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
         /* the if is needed for the very rare case when supervisor was immediately shut down
            right after creation */
         if (actor_found) {
-            it_actor->second->initialized = true;
             bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
                                                               : !sup.access<to::synchronize_start>() ||
                                                                     (self_state == state_t::OPERATIONAL);
@@ -346,9 +349,17 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
     actor_.get_supervisor().access<to::system_context>()->on_error(&actor_, ec);
 }
 
-void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
+void child_manager_plugin_t::cancel_init(const detail::child_info_t &child_state) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
-    auto &init_request = child->access<to::init_request>();
+    if (!child_state.address->same_locality(*actor->get_address())) {
+        /* the child is executed concurrently, it must not be touched directly */
+        auto &timer_id = child_state.init_request_id;
+        if (timer_id && sup.access<to::timers_map>().count(timer_id)) {
+            sup.access<to::discard_request, request_id_t>(timer_id);
+        }
+        return;
+    }
+    auto &init_request = child_state.actor->access<to::init_request>();
     /* the supervisor itself might be initialized by its parent, the request id has no sense here then */
     if (init_request && init_request->payload.origin == actor->get_address()) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
@@ -410,7 +421,7 @@ void child_manager_plugin_t::request_shutdown(detail::child_info_t &child_state,
         auto &sup = static_cast<supervisor_t &>(*actor);
         auto &source_actor = child_state.actor;
 
-        cancel_init(source_actor.get());
+        cancel_init(child_state);
         if (source_actor == actor) {
             if (sup.access<to::parent>()) {
                 // will be routed via shutdown request
@@ -489,6 +500,10 @@ bool child_manager_plugin_t::has_initializing() const noexcept {
         if (!child) {
             return false;
         }
+        if (!it.first->same_locality(*actor->get_address())) {
+            /* the child is executed concurrently, it must not be touched directly */
+            return !info.initialized;
+        }
         auto &state = child->template access<to::state>();
         bool still_initializing =
             (it.first != actor->get_address()) && (state <= state_t::INITIALIZING) && !info.initialized;
-- 
2.43.0


From 75cac3265153b6eb335a60c2f57dade86a135579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 39/49] fix: subscription, made by a handler during shutdown,
 hangs the shutdown

---
 src/rotor/plugin/lifetime.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index aaf371e..02de913 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -141,7 +141,8 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
         }
         points.erase(it);
         result = true;
-        if (points.empty()) {
+        /* until the other plugins are active, new subscriptions might appear */
+        if (points.empty() && ready_to_shutdown()) {
             plugin_base_t::deactivate();
         }
     } else {
-- 
2.43.0


From b5d43aeea7ea42e6b339b8bb0b04002b2513d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 40/49] fix: (un)subscriptions, made by handlers of an actor
 which is being unsubscribed upon shutdown, hang it or terminate the process

---
 include/rotor/plugin/lifetime.h |  3 +++
 src/rotor/plugin/lifetime.cpp   | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/rotor/plugin/lifetime.h b/include/rotor/plugin/lifetime.h
index 65be3ab..df7dee4 100644
--- a/include/rotor/plugin/lifetime.h
+++ b/include/rotor/plugin/lifetime.h
@@ -75,6 +75,9 @@ struct ROTOR_API lifetime_plugin_t : public plugin_base_t {
     /** \brief recorded subscription points (i.e. handler/address pairs) */
     subscription_container_t points;
 
+    /** \brief whether all subscriptions are being unsubscribed (due to shutdown) */
+    bool unsubscribing = false;
+
     bool ready_to_shutdown() noexcept;
 };
 
diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 02de913..d7fbb28 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -12,6 +12,7 @@ using namespace rotor::plugin;
 
 namespace to {
 struct state {};
+struct actor_state {};
 struct internal_address {};
 struct owner_tag {};
 struct own_subscriptions {};
@@ -19,6 +20,7 @@ struct deactivating_plugins {};
 } // namespace to
 
 template <> auto &plugin_base_t::access<to::own_subscriptions>() noexcept { return own_subscriptions; }
+template <> auto &actor_base_t::access<to::actor_state>() noexcept { return state; }
 template <> auto &actor_base_t::access<to::deactivating_plugins>() noexcept { return deactivating_plugins; }
 template <> auto &subscription_info_t::access<to::state>() noexcept { return state; }
 template <> auto &subscription_info_t::access<to::internal_address>() noexcept { return internal_address; }
@@ -77,14 +79,19 @@ void lifetime_plugin_t::unsubscribe(const handler_ptr_t &h, const address_ptr_t
     auto it = points.find(point);
     if (it == points.end()) { // the handler might be just an equal one
         auto rit = std::find_if(points.rbegin(), points.rend(), [&](auto &info) { return *info == point; });
-        assert(rit != points.rend());
-        unsubscribe(*rit);
+        if (rit != points.rend()) {
+            unsubscribe(*rit);
+        } else {
+            /* upon shutdown the points are already forgotten, and they are being unsubscribed */
+            assert((!actor || actor->access<to::actor_state>() == rotor::state_t::SHUTTING_DOWN) && "subscription exists");
+        }
     } else {
         unsubscribe(*it);
     }
 }
 
 void lifetime_plugin_t::unsubscribe() noexcept {
+    unsubscribing = true;
     auto rit = points.rbegin();
     while (rit != points.rend()) {
         auto &info = *rit;
@@ -126,6 +133,10 @@ void lifetime_plugin_t::on_unsubscription_external(message::unsubscription_exter
 
 void lifetime_plugin_t::initate_subscription(const subscription_info_ptr_t &info) noexcept {
     points.emplace_back(info);
+    /* the rest of the subscriptions is already on the way out */
+    if (unsubscribing && info->owner_tag == owner_tag_t::ANONYMOUS) {
+        unsubscribe(info);
+    }
 }
 
 bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point, bool external) noexcept {
-- 
2.43.0


From bbf404614430604c50f5813fd95e9372e67309d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 41/49] fix: fltk: timers fire earlier than their interval,
 when previous ones were fired late

---
 include/rotor/fltk/supervisor_fltk.h | 7 +++++++
 src/rotor/fltk/supervisor_fltk.cpp   | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/rotor/fltk/supervisor_fltk.h b/include/rotor/fltk/supervisor_fltk.h
index 48bd29b..3a33837 100644
--- a/include/rotor/fltk/supervisor_fltk.h
+++ b/include/rotor/fltk/supervisor_fltk.h
@@ -10,6 +10,7 @@
 #include "rotor/fltk/export.h"
 #include "rotor/fltk/supervisor_config_fltk.h"
 
+#include <chrono>
 #include <memory>
 #include <unordered_map>
 
@@ -59,6 +60,9 @@ struct ROTOR_FLTK_API supervisor_fltk_t : public supervisor_t {
         /** \brief alias for intrusive pointer for the fltk supervisor */
         using supervisor_ptr_t = intrusive_ptr_t<supervisor_fltk_t>;
 
+        /** \brief alias for the clock, by which the timer is measured */
+        using clock_t = std::chrono::steady_clock;
+
         /** \brief constructs timer from flt supervisor and timer handler */
         timer_t(supervisor_ptr_t supervisor, timer_handler_base_t *handler);
 
@@ -67,6 +71,9 @@ struct ROTOR_FLTK_API supervisor_fltk_t : public supervisor_t {
 
         /** \brief non-owning pointer to timer handler */
         timer_handler_base_t *handler;
+
+        /** \brief the earliest moment when the timer can be fired */
+        clock_t::time_point deadline;
     };
 
   protected:
diff --git a/src/rotor/fltk/supervisor_fltk.cpp b/src/rotor/fltk/supervisor_fltk.cpp
index 897457c..6d0546a 100644
--- a/src/rotor/fltk/supervisor_fltk.cpp
+++ b/src/rotor/fltk/supervisor_fltk.cpp
@@ -33,6 +33,14 @@ static void on_timeout(void *data) noexcept {
     auto timer = reinterpret_cast<supervisor_fltk_t::timer_t *>(data);
     auto *sup = timer->sup.get();
 
+    // fltk shortens new timeouts by the lateness of the previously fired ones
+    auto now = supervisor_fltk_t::timer_t::clock_t::now();
+    if (now < timer->deadline) {
+        auto remaining = std::chrono::duration<double>(timer->deadline - now);
+        Fl::add_timeout(remaining.count(), on_timeout, timer);
+        return;
+    }
+
     auto timer_id = timer->handler->request_id;
     auto &timers_map = sup->access<to::timers_map>();
 
@@ -57,6 +65,7 @@ void supervisor_fltk_t::do_start_timer(const pt::time_duration &interval, timer_
     auto self = timer_t::supervisor_ptr_t(this);
     auto timer = std::make_unique<timer_t>(std::move(self), &handler);
     auto seconds = interval.total_nanoseconds() / 1000000000.;
+    timer->deadline = timer_t::clock_t::now() + std::chrono::microseconds(interval.total_microseconds());
     Fl::add_timeout(seconds, on_timeout, timer.get());
     timers_map.emplace(handler.request_id, std::move(timer));
     intrusive_ptr_add_ref(this);
-- 
2.43.0


From a90076ee12e637f24139c8521c9d244e46a52ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 42/49] fix: asio: supervisors, which share a strand but not
 the messages queue, park or reorder messages of each other

---
 src/rotor/asio/supervisor_asio.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rotor/asio/supervisor_asio.cpp b/src/rotor/asio/supervisor_asio.cpp
index 4df7e75..7f02650 100644
--- a/src/rotor/asio/supervisor_asio.cpp
+++ b/src/rotor/asio/supervisor_asio.cpp
@@ -33,7 +33,18 @@ supervisor_asio_t::supervisor_asio_t(supervisor_config_asio_t &config_)
     }
 }
 
-rotor::address_ptr_t supervisor_asio_t::make_address() noexcept { return instantiate_address(strand.get()); }
+rotor::address_ptr_t supervisor_asio_t::make_address() noexcept {
+    // the locality is shared with the ancestors only, as the messages queue is; other supervisors on the same strand
+    // have their own queues, i.e. they are different localities
+    auto root_sup = this;
+    while (auto parent_sup = dynamic_cast<supervisor_asio_t *>(root_sup->parent)) {
+        if (parent_sup->strand != strand) {
+            break;
+        }
+        root_sup = parent_sup;
+    }
+    return instantiate_address(root_sup);
+}
 
 void supervisor_asio_t::start() noexcept { create_forwarder (&supervisor_asio_t::do_process)(); }
 
-- 
2.43.0


From ce79f069ab3bfc15c9b499795326dd6787dbc3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 43/49] fix: do not continue shutdown from inside of its start

Release of the last resource in shutdown_start() polled the plugins
immediately, i.e. before the shutdown has been actually started.
---
 src/rotor/actor_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index ab232b2..4a4ae7d 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -111,6 +111,8 @@ void actor_base_t::on_start() noexcept { state = state_t::OPERATIONAL; }
 
 void actor_base_t::shutdown_start() noexcept {
     state = state_t::SHUTTING_DOWN;
+    /* the resources, released upon the start, do not continue shutdown: shutdown_continue() follows */
+    continuation_mask = continuation_mask | PROGRESS_SHUTDOWN;
     /* the supervisor of a (nested) supervisor is its parent; nobody is above the root one */
     auto upstream = (supervisor == this) ? supervisor->access<to::parent>() : supervisor;
     if (!spawner_address && upstream) {
-- 
2.43.0


From 82ad239683481a979388aa608e874f2efe722731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 44/49] fix: poll plugins again if others, polled later, gave
 them new work

A plugin, which was already polled for init or shutdown (e.g. resources),
might be re-armed by the plugins polled later; the actor became
initialized (or shut down) without waiting for it.
---
 src/rotor/actor_base.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 4a4ae7d..7739623 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -163,20 +163,22 @@ void actor_base_t::init_continue() noexcept {
     }
 
     continuation_mask = continuation_mask | PROGRESS_INIT;
-    std::size_t in_progress = plugins.size();
-    for (auto &plugin : plugins) {
+    std::size_t i = 0;
+    while (i < plugins.size()) {
+        auto &plugin = plugins[i];
         if (plugin->get_reaction() & plugin_base_t::INIT) {
-            if (plugin->handle_init(init_request.get())) {
-                plugin->reaction_off(plugin_base_t::INIT);
-                --in_progress;
-                continue;
+            if (!plugin->handle_init(init_request.get())) {
+                break;
             }
-            break;
+            plugin->reaction_off(plugin_base_t::INIT);
+            /* already polled plugins might get new work meanwhile */
+            i = 0;
+            continue;
         }
-        --in_progress;
+        ++i;
     }
     continuation_mask = continuation_mask & ~PROGRESS_INIT;
-    if (in_progress == 0) {
+    if (i == plugins.size()) {
         init_finish();
     }
 }
@@ -186,22 +188,23 @@ void actor_base_t::configure(plugin_base_t &) noexcept {}
 void actor_base_t::shutdown_continue() noexcept {
     assert(state == state_t::SHUTTING_DOWN);
 
-    std::size_t in_progress = plugins.size();
+    std::size_t i = plugins.size();
     continuation_mask = continuation_mask | PROGRESS_SHUTDOWN;
-    for (size_t i = plugins.size(); i > 0; --i) {
+    while (i > 0) {
         auto plugin = plugins[i - 1];
         if (plugin->get_reaction() & plugin_base_t::SHUTDOWN) {
-            if (plugin->handle_shutdown(shutdown_request.get())) {
-                plugin->reaction_off(plugin_base_t::SHUTDOWN);
-                --in_progress;
-                continue;
+            if (!plugin->handle_shutdown(shutdown_request.get())) {
+                break;
             }
-            break;
+            plugin->reaction_off(plugin_base_t::SHUTDOWN);
+            /* already polled plugins might get new work meanwhile */
+            i = plugins.size();
+            continue;
         }
-        --in_progress;
+        --i;
     }
     continuation_mask = continuation_mask & ~PROGRESS_SHUTDOWN;
-    if (in_progress == 0) {
+    if (i == 0) {
         shutdown_finish();
     }
 }
-- 
2.43.0


From be2e13bfefcde6cc873cdb0196d3751bf3833c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 45/49] fix: unsubscription of a method unsubscribes another
 method with the same signature

handlers of different methods of an actor were considered equal, if the
methods have the same signature, so the wrong subscription was dropped
---
 include/rotor/handler.h | 15 ++++++++++++++-
 src/rotor/handler.cpp   |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/rotor/handler.h b/include/rotor/handler.h
index b2ff861..5e4a080 100644
--- a/include/rotor/handler.h
+++ b/include/rotor/handler.h
@@ -135,7 +135,7 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
 
     /** \brief compare two handler for equality */
     inline bool operator==(const handler_base_t &rhs) const noexcept {
-        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr;
+        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr && origin()->same(*rhs.origin());
     }
 
     /** \brief attempt to delivery message to the handler
@@ -168,6 +168,10 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
     /** \brief the handler itself or, when it was tagged (upgraded), the original one */
     virtual const handler_base_t *origin() const noexcept;
 
+    /** \brief whether the other handler of the same type and actor is actually the same, i.e. not just a different
+     * method with the same signature */
+    virtual bool same(const handler_base_t &rhs) const noexcept;
+
     /** \brief unique per-message-type pointer used for routing */
     virtual const void *message_type() const noexcept = 0;
 };
@@ -262,6 +266,10 @@ struct handler_t<Handler, std::enable_if_t<details::is_actor_handler_v<Handler>>
         (final_obj.*handler)(*final_message);
     }
 
+    bool same(const handler_base_t &rhs) const noexcept override {
+        return handler == static_cast<const handler_t &>(rhs).handler;
+    }
+
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
   private:
@@ -310,6 +318,11 @@ struct handler_t<Handler, std::enable_if_t<details::is_plugin_handler_v<Handler>
         (final_obj.*handler)(*final_message);
     }
 
+    bool same(const handler_base_t &rhs) const noexcept override {
+        auto &other = static_cast<const handler_t &>(rhs);
+        return &plugin == &other.plugin && handler == other.handler;
+    }
+
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
   private:
diff --git a/src/rotor/handler.cpp b/src/rotor/handler.cpp
index e990cc8..e637263 100644
--- a/src/rotor/handler.cpp
+++ b/src/rotor/handler.cpp
@@ -43,6 +43,8 @@ handler_base_t::~handler_base_t() { intrusive_ptr_release(actor_ptr); }
 
 const handler_base_t *handler_base_t::origin() const noexcept { return this; }
 
+bool handler_base_t::same(const handler_base_t &) const noexcept { return true; }
+
 handler_ptr_t handler_base_t::upgrade(const void *tag) noexcept {
     handler_ptr_t self(this);
     return handler_ptr_t(new handler_intercepted_t(self, tag));
-- 
2.43.0


From 869c652a322cd5ee096f460bfc45f17743c59cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 46/49] fix: a supervisor, which is shutting down, stops
 serving foreign subscribers before its children are down

---
 src/rotor/plugin/foreigners_support.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index a0f7893..4454e8b 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -90,8 +90,5 @@ void foreigners_support_plugin_t::on_unsubscription(message::commit_unsubscripti
 
     sup.commit_unsubscription(info);
     foreign_points.erase(it);
-
-    if (foreign_points.empty() && actor->access<to::state>() == state_t::SHUTTING_DOWN) {
-        plugin_base_t::deactivate();
-    }
+    /* the plugin serves the foreigners until it is asked to deactivate, as the children might be still shutting down */
 }
-- 
2.43.0


From 208e51d8f92c1692b55ca3729fcba3c0ec657d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:45 +0000
Subject: [PATCH 47/49] fix: asio supervisors and their locality leaders are
 kept while their messages are enqueued and processed

---
 src/rotor/asio/supervisor_asio.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rotor/asio/supervisor_asio.cpp b/src/rotor/asio/supervisor_asio.cpp
index 7f02650..df14d77 100644
--- a/src/rotor/asio/supervisor_asio.cpp
+++ b/src/rotor/asio/supervisor_asio.cpp
@@ -91,11 +91,13 @@ void supervisor_asio_t::do_cancel_timer(request_id_t timer_id) noexcept {
 
 void supervisor_asio_t::enqueue(rotor::message_ptr_t message) noexcept {
     auto leader = static_cast<supervisor_asio_t *>(locality_leader);
+    /* the message is processed by the leader, both might be released by the parents as soon as it is there */
+    auto actor_ptr = supervisor_ptr_t(this);
+    auto leader_ptr = supervisor_ptr_t(leader);
     auto &inbound = leader->inbound_queue;
     inbound.push(message.detach());
 
-    auto actor_ptr = supervisor_ptr_t(this);
-    asio::defer(get_strand(), [actor = std::move(actor_ptr)]() mutable {
+    asio::defer(get_strand(), [leader = std::move(leader_ptr), actor = std::move(actor_ptr)]() mutable {
         auto &sup = *actor;
         sup.do_process();
     });
@@ -118,6 +120,9 @@ void supervisor_asio_t::do_process() noexcept {
     using time_units_t = std::chrono::microseconds;
 
     auto leader = static_cast<supervisor_asio_t *>(locality_leader);
+    /* upon shutdown confirmation they might be released by the parent, which is executed concurrently */
+    auto self_guard = supervisor_ptr_t(this);
+    auto leader_guard = supervisor_ptr_t(leader);
     auto &inbound = leader->inbound_queue;
     auto &leader_queue = leader->queue;
     auto enqueued_messages = size_t{0};
-- 
2.43.0


From 32fe358ab3ea0f464f3efc412b0036ab2043b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 48/49] fix: asio forwarders keep the supervisor of the actor
 until the completion is processed

---
 include/rotor/asio/forwarder.hpp | 62 ++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/include/rotor/asio/forwarder.hpp b/include/rotor/asio/forwarder.hpp
index c7693ae..737aadc 100644
--- a/include/rotor/asio/forwarder.hpp
+++ b/include/rotor/asio/forwarder.hpp
@@ -16,6 +16,7 @@ namespace rotor::asio {
 namespace {
 namespace to {
 struct supervisor {};
+struct locality_leader {};
 } // namespace to
 } // namespace
 } // namespace rotor::asio
@@ -25,6 +26,9 @@ namespace rotor {
 /** \brief access to supervisor */
 template <> inline auto &actor_base_t::access<asio::to::supervisor>() noexcept { return supervisor; }
 
+/** \brief access to the locality leader of supervisor */
+template <> inline auto &supervisor_t::access<asio::to::locality_leader>() noexcept { return locality_leader; }
+
 namespace asio {
 
 namespace asio = boost::asio;
@@ -83,11 +87,19 @@ template <typename Actor, typename Handler> struct forwarder_base_t<Actor, Handl
     using typed_sup_t = supervisor_asio_t;
 
     /** \brief constructs forwarder_base for the actor from it handler function */
-    forwarder_base_t(Actor &actor_, Handler &&handler_) : typed_actor{&actor_}, handler{std::move(handler_)} {}
+    forwarder_base_t(Actor &actor_, Handler &&handler_)
+        : typed_actor{&actor_}, leader{actor_.get_supervisor().template access<to::locality_leader>()},
+          sup{&actor_.get_supervisor()}, handler{std::move(handler_)} {}
 
     /** intrusive pointer to the actor */
     typed_actor_ptr_t typed_actor;
 
+    /** intrusive pointer to the locality leader, it processes messages on behalf of the supervisor */
+    intrusive_ptr_t<supervisor_t> leader;
+
+    /** intrusive pointer to the supervisor of the actor, it might be released earlier than the callback is invoked */
+    intrusive_ptr_t<supervisor_t> sup;
+
     /** pointer-to-member function of the actor to handle positive case result */
     Handler handler;
 };
@@ -128,18 +140,18 @@ struct forwarder_t<Actor, Handler, details::count::_0, ErrHandler> : forwarder_b
      * two different methods of the actor
      */
     template <typename T = void> inline void operator()(const boost::system::error_code &ec) noexcept {
-        auto &typed_actor = base_t::typed_actor;
-        auto &sup = static_cast<supervisor_asio_t &>(typed_actor->get_supervisor());
-        auto &strand = get_strand(sup);
+        auto &strand = get_strand(static_cast<supervisor_asio_t &>(*base_t::sup));
         if (ec) {
-            asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::err_handler), ec]() {
+            asio::defer(strand, [leader = base_t::leader, sup = base_t::sup, actor = base_t::typed_actor,
+                                 handler = std::move(base_t::err_handler), ec]() {
                 ((*actor).*handler)(ec);
-                actor->get_supervisor().do_process();
+                sup->do_process();
             });
         } else {
-            asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::handler)]() {
+            asio::defer(strand, [leader = base_t::leader, sup = base_t::sup, actor = base_t::typed_actor,
+                                 handler = std::move(base_t::handler)]() {
                 ((*actor).*handler)();
-                actor->get_supervisor().do_process();
+                sup->do_process();
             });
         }
     }
@@ -156,19 +168,18 @@ struct forwarder_t<Actor, Handler, details::count::_1, ErrHandler> : forwarder_b
      * two different methods of the actor
      */
     template <typename T> inline void operator()(const boost::system::error_code &ec, T arg) noexcept {
-        auto &typed_actor = base_t::typed_actor;
-        auto &sup = static_cast<supervisor_asio_t &>(typed_actor->get_supervisor());
-        auto &strand = get_strand(sup);
+        auto &strand = get_strand(static_cast<supervisor_asio_t &>(*base_t::sup));
         if (ec) {
-            asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::err_handler), ec = ec]() {
+            asio::defer(strand, [leader = base_t::leader, sup = base_t::sup, actor = base_t::typed_actor,
+                                 handler = std::move(base_t::err_handler), ec = ec]() {
                 ((*actor).*handler)(ec);
-                actor->get_supervisor().do_process();
+                sup->do_process();
             });
         } else {
-            asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::handler),
-                                 arg = std::move(arg)]() mutable {
+            asio::defer(strand, [leader = base_t::leader, sup = base_t::sup, actor = base_t::typed_actor,
+                                 handler = std::move(base_t::handler), arg = std::move(arg)]() mutable {
                 ((*actor).*handler)(std::move(arg));
-                actor->get_supervisor().do_process();
+                sup->do_process();
             });
         }
     }
@@ -185,12 +196,11 @@ struct forwarder_t<Actor, Handler, details::count::_0, void> : forwarder_base_t<
      * two different methods of the actor
      */
     template <typename T = void> inline void operator()() noexcept {
-        auto &typed_actor = base_t::typed_actor;
-        auto &sup = static_cast<supervisor_asio_t &>(typed_actor->get_supervisor());
-        auto &strand = get_strand(sup);
-        asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::handler)]() {
+        auto &strand = get_strand(static_cast<supervisor_asio_t &>(*base_t::sup));
+        asio::defer(strand, [leader = base_t::leader, sup = base_t::sup, actor = base_t::typed_actor,
+                             handler = std::move(base_t::handler)]() {
             ((*actor).*handler)();
-            actor->get_supervisor().do_process();
+            sup->do_process();
         });
     }
 };
@@ -206,13 +216,11 @@ struct forwarder_t<Actor, Handler, details::count::_1, void> : forwarder_base_t<
      * actor's member method.
      */
     template <typename T> inline void operator()(T arg) noexcept {
-        auto &typed_actor = base_t::typed_actor;
-        auto &sup = static_cast<supervisor_asio_t &>(typed_actor->get_supervisor());
-        auto &strand = get_strand(sup);
-        asio::defer(strand, [actor = base_t::typed_actor, handler = std::move(base_t::handler),
-                             arg = std::move(arg)]() mutable {
+        auto &strand = get_strand(static_cast<supervisor_asio_t &>(*base_t::sup));
+        asio::defer(strand, [leader = base_t::leader, sup = base_t::sup, actor = base_t::typed_actor,
+                             handler = std::move(base_t::handler), arg = std::move(arg)]() mutable {
             ((*actor).*handler)(std::move(arg));
-            actor->get_supervisor().do_process();
+            sup->do_process();
         });
     }
 };
-- 
2.43.0


From 7588f5bd8fb1bf04bfb07fdb80e4019187498e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:40 +0000
Subject: [PATCH 49/49] fix: a restart timer, which fires while its supervisor
 has begun to shut down, does not block the shutdown

---
 src/rotor/plugin/child_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index ce0a5d4..85725ab 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -542,13 +542,14 @@ void child_manager_plugin_t::on_spawn_timer(request_id_t timer_id, bool cancelle
     auto info = it->second;
     info->timer_id = 0;
     spawning_map.erase(it);
-    if (cancelled) {
+    auto &state = actor->access<to::state>();
+    if (!cancelled && state <= state_t::OPERATIONAL) {
+        actor->send<payload::spawn_actor_t>(actor->get_address(), info->address);
+    } else {
+        /* the timer might also fire before the shutdown reaches the plugin */
         info->active = false;
-        auto &state = actor->access<to::state>();
         if (state == state_t::SHUTTING_DOWN) {
             actor->shutdown_continue();
         }
-    } else if (actor->access<to::state>() <= state_t::OPERATIONAL) {
-        actor->send<payload::spawn_actor_t>(actor->get_address(), info->address);
     }
 }
-- 
2.43.0

