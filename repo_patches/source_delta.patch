From 7fa4ff2cabcace44bbb56beb45f0ce9149ef75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 01/72] fix: queue-group persist prepared work before the
 prepare vote

The group replied ok to a prepare request before the work done in the
transaction was persisted. A crash between the vote and the commit lost
work that the transaction manager already decided to commit.
---
 middleware/queue/source/group/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 04ec089..7b9f2dc 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -485,7 +485,8 @@ namespace casual
                            reply.trid = message.trid;
                            reply.state = common::code::xa::ok;
 
-                           state.multiplex.send( message.process.ipc, reply);
+                           // a prepared transaction has to survive a crash, the work needs to be persisted before we vote.
+                           local::detail::persistent::reply( state, message.process, std::move( reply));
                         };
                      }
                   } // prepare
-- 
2.43.0


From 0194ddb35af1d576f9f41281d714be16aa9fcdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 02/72] fix: queue-group keep queues with only uncommitted
 messages as zombies

A queue that is removed from the configuration while it only holds
uncommitted messages was regarded as empty, and the attempt to remove it
violated the foreign key constraint and took the group down.
---
 middleware/queue/source/group/handle.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 7b9f2dc..4c6e652 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -752,7 +752,11 @@ namespace casual
                         using Type = queue::ipc::message::group::state::queue::Type;
                         algorithm::for_each_if( zombies, join_with_error_queue, []( auto& queue){ return queue.type() == Type::queue;});
 
-                        auto has_messages = []( auto& item){ return std::get< 0>( item).metric.count > 0 || std::get< 1>( item).metric.count > 0;};
+                        auto has_messages = []( auto& item)
+                        {
+                           auto contains_messages = []( auto& queue){ return queue.metric.count > 0 || queue.metric.uncommitted > 0;};
+                           return contains_messages( std::get< 0>( item)) || contains_messages( std::get< 1>( item));
+                        };
 
                         auto [ nonempty_queues, empty_queues] = algorithm::partition( joined, has_messages);
 
-- 
2.43.0


From 7264a07030ba612437f597fa28d5dec88f791f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 03/72] fix: queue-group let a zombie queue become an ordinary
 queue when it is configured again

The zombies were only ever added to, hence a queue that once was a zombie was
excluded from the configuration reply, and never advertised again.
---
 middleware/queue/source/group/handle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 4c6e652..be5320b 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -775,6 +775,9 @@ namespace casual
                         };
 
                         populate( empty_queues, remove);
+
+                        // all zombies are found on every update, a queue that is configured again is not a zombie any more.
+                        state.zombies.clear();
                         populate( nonempty_queues, state.zombies);
 
                         log::line( verbose::log, "remove: ", remove);
-- 
2.43.0


From 0c1cf4a5cb6ddfe89ee02bbcb3f60b1e49806fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 04/72] fix: run the idle work after cached messages are
 consumed, before the message pump blocks

---
 middleware/common/include/common/communication/select.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/common/include/common/communication/select.h b/middleware/common/include/common/communication/select.h
index 117b5ed..51bb77a 100644
--- a/middleware/common/include/common/communication/select.h
+++ b/middleware/common/include/common/communication/select.h
@@ -229,13 +229,19 @@ namespace casual
                         // make sure we try to consume from the 'consume-handlers' before
                         // we might block forever. This gives possibilities to consume cached messages
                         // that wont be triggered via multiplexing on file descriptors
+                        bool consumed = false;
                         while( detail::consume::dispatch( handlers...))
-                           ; // no-op
+                           consumed = true;
 
                         // we might be done after idle, and consumed
                         if( condition::detail::invoke< condition::detail::tag::done>( condition))
                            return;
 
+                        // the consumed messages might have produced work that relies on `idle`, we need
+                        // to invoke it (again) before we might block forever.
+                        if( consumed)
+                           continue;
+
                         // we block in `detail::select` with the read and write sets.
                         handle::dispatch( 
                            detail::select( directive),
-- 
2.43.0


From 8269ae4efb697b802a66ccbc1b9293459094831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 05/72] fix: consume all cached messages before the message
 pump blocks, also when a handler reports that it did nothing

---
 .../common/include/common/communication/select/ipc.h     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/middleware/common/include/common/communication/select/ipc.h b/middleware/common/include/common/communication/select/ipc.h
index a76d7ef..ada2b4e 100644
--- a/middleware/common/include/common/communication/select/ipc.h
+++ b/middleware/common/include/common/communication/select/ipc.h
@@ -23,7 +23,14 @@ namespace casual
                
                bool operator () ( tag::consume)
                {
-                  return predicate::boolean( m_handler( communication::ipc::inbound::device().cached()));
+                  auto complete = communication::ipc::inbound::device().cached();
+
+                  if( ! complete)
+                     return false;
+
+                  // regardless of the outcome of the handler, the message is consumed, and there might be more in the cache.
+                  m_handler( complete);
+                  return true;
                }
 
                bool operator() ( strong::file::descriptor::id descriptor, tag::read)
-- 
2.43.0


From 6884d7ad7dec83b01792bca86b8060f8f5fd24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 06/72] fix: service-manager sets the timer for deadlines of
 pending lookups

The result of adding a deadline for a pending lookup was ignored: the timer was
only (re)set by other lookups, hence a pending lookup could wait way past its deadline.
---
 middleware/service/source/manager/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e743331..70fd59a 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -522,7 +522,8 @@ namespace casual
 
                               if( auto deadline = detail::calculate_deadline( state.services[ service_id], now, message.deadline))
                                  if( state.services[ service_id].has_sequential())
-                                    state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation});
+                                    if( auto next = state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation}))
+                                       signal::timer::set( next.value() - now);
 
                               state.pending.lookups.emplace_back( std::move( message), now);
 
-- 
2.43.0


From c59607068a44838364fa05083837a999bbec1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 07/72] fix: service-manager does not read past the end when
 the last deadline is removed

---
 middleware/service/source/manager/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 51675a1..00b5c2e 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -212,7 +212,7 @@ namespace casual
                {
                   if( auto found = algorithm::find( m_entries, correlation))
                   {
-                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries))
+                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries) && next != std::end( m_entries))
                         return { next->when};
                   }
                   return {};
-- 
2.43.0


From c267738bcaab410da755c71915c5aa79085759c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 08/72] fix: service-manager discards the reservation when the
 caller is gone

The destination is the caller, not the reserved instance, hence the reservation was
never discarded and the instance stayed busy for ever.
---
 middleware/service/source/manager/handle.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 70fd59a..1ef9448 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -484,10 +484,13 @@ namespace casual
                         }
 
                         // send reply, if caller gone, we discard the reservation.
-                        state.multiplex.send( message.process.ipc, reply, [ &state]( auto& destination, auto& complete)
+                        state.multiplex.send( message.process.ipc, reply, []( auto& destination, auto& complete)
                         {
-                           if( auto instance_id = state.instances.sequential.lookup( destination))
-                              state.instances.sequential[ instance_id].discard();
+                           // we can be deep in the handling of another message, so we handle the discard later
+                           common::message::service::lookup::discard::Request request{ common::process::handle()};
+                           request.correlation = complete.correlation();
+                           request.reply = false;
+                           ipc::device().push( std::move( request));
                         });
                      }
 
-- 
2.43.0


From 29fc78a9eedadcba6f519b42872188b4e22068a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 09/72] fix: service-manager completes prepare shutdown for an
 instance that has timed out

When the call of an instance timed out the correlation was cleared, and a prepare
shutdown request for the (still busy) instance was never replied.
---
 middleware/service/include/service/manager/state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 26e3818..97c5eed 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -150,8 +150,9 @@ namespace casual
                //! @returns and consumes associated caller to the correlation. 'empty' caller if not found.
                inline instance::Caller consume( const common::strong::correlation::id& correlation)
                {
+                  // keep the correlation, so the reservation can be related to the lookup until it is acked
                   if( m_caller == correlation)
-                     return std::exchange( m_caller, {});
+                     return { std::exchange( m_caller.process, {}), m_caller.correlation};
                   return {};
                }
 
-- 
2.43.0


From c0ca3d378a1af364e82a2952632bb8de3c42d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 10/72] fix: service-manager keeps an instance in shutdown mode
 when it advertises

The instance was no longer regarded as disabled after an advertise, hence it could be
used when it is about to exit, and a pending prepare shutdown was never replied.
---
 middleware/service/source/manager/state.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 00b5c2e..8aed4b3 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -684,11 +684,8 @@ namespace casual
          instances.sequential[ instance_id].alias = std::move( message.alias);
 
          // instance might be in "shutdown" mode..
-         if( auto found = algorithm::find( disabled, instance_id))
-         {
-            algorithm::container::erase( disabled, std::begin( found));
+         if( algorithm::contains( disabled, instance_id))
             return {};
-         }
 
          // add
          {
-- 
2.43.0


From 81e6a3f13e4934a39e573deb98834199e1da285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 11/72] fix: service-manager takes the order of an instance
 directive into account

The order of the instance was updated, but not the order that the services use to
select an instance.
---
 middleware/service/include/service/manager/state.h | 3 ++-
 middleware/service/source/manager/state.cpp        | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 97c5eed..5048886 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -314,7 +314,8 @@ namespace casual
                //!   Otherwise, the first instance, and rotate.
                instance::concurrent::id::type next_concurrent( std::span< instance::concurrent::id::type> preferred) noexcept;
 
-               void update_prioritized();
+               //! updates the order of the instance, if it's known, and what is most prioritized
+               void update_order( instance::concurrent::id::type id, platform::size::type order);
 
                inline const auto& sequential() const noexcept { return m_sequential;}
                inline const auto& concurrent() const noexcept { return m_concurrent;}
diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 8aed4b3..f05ff18 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -155,8 +155,11 @@ namespace casual
                return algorithm::random::next( m_prioritized_concurrent)->id;
             }
 
-            void Instances::update_prioritized()
+            void Instances::update_order( instance::concurrent::id::type id, platform::size::type order)
             {
+               if( auto found = algorithm::find( m_concurrent, id))
+                  found->order = order;
+
                algorithm::stable_sort( m_concurrent);
                prioritize();
             }
@@ -756,7 +759,7 @@ namespace casual
 
             // We need to go through all services and update order/prio
             for( auto service_id : services.indexes())
-               services[ service_id].instances.update_prioritized();
+               services[ service_id].instances.update_order( id, message.order);
 
             // nothing added, no new services available.
             return {};
-- 
2.43.0


From ad8b5e42884724f35d96f75891e7bc6577c4d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 12/72] fix: service-manager does not roll back a transaction
 of a later call

When a call that timed out was not in a transaction, the instance was still regarded
as timed out, and the transaction of a later successful call was rolled back.
---
 middleware/service/source/manager/handle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 1ef9448..dec7eb7 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -988,13 +988,14 @@ namespace casual
                {
                   log::line( verbose::log, "state.timeout_instances: ", state.timeout_instances);
 
-                  if( ! ack.metric.trid)
-                     return;
-                  
                   if( auto found = algorithm::find( state.timeout_instances, ack.metric.process.pid))
                   {
+                     // regardless if the call was in transaction, the next ack has nothing to do with the timeout.
                      state.timeout_instances.erase( std::begin( found));
 
+                     if( ! ack.metric.trid)
+                        return;
+
                      // Rollback the transaction (again). If TM got instances involved a rollback will be executed, 
                      // otherwise it will be a "no-op".
                      // TODO: we might want to have a dedicated message for this. SM should not order a rollback?
-- 
2.43.0


From 55b61cc6d0450f4dd7f1723f6796edbeb9fba8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 13/72] fix: service-manager keeps the order of pending lookups
 when a busy instance advertises

The first pending lookup was extracted and added last, even if the instance could not
take care of it.
---
 middleware/service/source/manager/state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index f05ff18..5a7bcf4 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -709,7 +709,9 @@ namespace casual
          // remove
          local::remove_services( *this, instance_id, message.services.remove);
 
-         // now we need to check if there are pending request that this instance has enabled
+         // now we need to check if there are pending request that this instance has enabled. If it's busy the
+         // pending keep their places, and get the instance when it's done.
+         if( instances.sequential[ instance_id].idle())
          {
             auto requested_service = [ &, instance_id]( auto& pending)
             {
-- 
2.43.0


From 800b42f8449b1a0ad54a2948b54c81aabdba10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 14/72] fix: service-manager makes a discarded instance
 available

When the reservation of an instance was discarded, pending lookups were not served, a
pending prepare shutdown was not replied, and the deadline of the lookup remained.
---
 middleware/service/source/manager/handle.cpp | 104 ++++++++++++-------
 1 file changed, 65 insertions(+), 39 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index dec7eb7..9b69142 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -660,6 +660,46 @@ namespace casual
                   };
                }
 
+               namespace detail
+               {
+                  //! takes care of an instance that is not reserved any more.
+                  void available( State& state, state::instance::sequential::id::type instance_id, const common::message::service::call::ACK& ack)
+                  {
+                     Trace trace{ "service::manager::handle::local::service::detail::available"};
+
+                     if( algorithm::contains( state.disabled, instance_id))
+                     {
+                        // we let the shutdown task take care of it.
+                        state.pending.shutdown( ack);
+                        return;
+                     }
+
+                     auto& instance = state.instances.sequential[ instance_id];
+
+                     log::line( verbose::log, "instance: ", instance);
+
+                     // Check if there are pending request for services that this
+                     // instance has.
+
+                     auto has_pending = [ &state, instance]( const auto& pending)
+                     {
+                        return instance.service( state.services.lookup( pending.request.requested));
+                     };
+
+                     if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
+                     {
+                        log::line( verbose::log, "found pending: ", *found);
+
+                        auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
+
+                        // We now know that there are one idle server that has advertised the
+                        // requested service (we've just marked it as idle...).
+                        // We can use the normal request to get the response
+                        detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
+                     }
+                  }
+               } // detail
+
                namespace discard
                {
                   auto lookup( State& state)
@@ -683,16 +723,32 @@ namespace casual
                         {
                            log::line( log, "failed to find pending to discard - check if we have reserved the service already");
 
-                           // we need to go through all sequential instances.
+                           // we need to go through all sequential instances. An instance without a caller has
+                           // got the call, and it will be acked
+                           auto is_reserved = [ &state, correlation = message.correlation]( auto id)
+                           {
+                              auto& instance = state.instances.sequential[ id];
+                              return ! instance.idle() && instance.caller() && instance.caller() == correlation;
+                           };
+
+                           auto ids = state.instances.sequential.indexes();
 
-                           state.instances.sequential.for_each( [ correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
+                           if( auto found = algorithm::find_if( ids, is_reserved))
                            {
-                              if( ! instance.idle() && instance.caller().correlation == correlation)
-                              {
-                                 log::line( verbose::log, "found reserved instance: ", instance);
-                                 instance.discard();
-                              }
-                           });
+                              auto& instance = state.instances.sequential[ *found];
+                              log::line( verbose::log, "found reserved instance: ", instance);
+
+                              if( auto deadline = state.pending.deadline.remove( message.correlation))
+                                 signal::timer::set( deadline.value() - platform::time::clock::type::now());
+
+                              instance.discard();
+
+                              // there will not be an ack for this reservation.
+                              common::message::service::call::ACK ack;
+                              ack.correlation = message.correlation;
+                              ack.metric.process = instance.process;
+                              detail::available( state, *found, ack);
+                           }
 
                            // regardless, we assume we've already replied.
                            reply.state = decltype( reply.state)::replied;
@@ -1043,37 +1099,7 @@ namespace casual
 
                   state.unreserve( instance_id, message.metric);
 
-                  if( auto found = algorithm::find( state.disabled, instance_id))
-                  {
-                     // we let the shutdown task take care of it.
-                     state.pending.shutdown( message);
-                     return;
-                  }
-
-                  auto& instance = state.instances.sequential[ instance_id];
-
-                  log::line( verbose::log, "instance: ", instance);
-
-                  // Check if there are pending request for services that this
-                  // instance has.
-
-                  auto has_pending = [ &state, instance]( const auto& pending)
-                  {
-                     return instance.service( state.services.lookup( pending.request.requested));
-                  };
-
-                  if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
-                  {
-                     log::line( verbose::log, "found pending: ", *found);
-
-                     auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
-
-                     // We now know that there are one idle server that has advertised the
-                     // requested service (we've just marked it as idle...).
-                     // We can use the normal request to get the response
-                     service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
-                  }
- 
+                  service::detail::available( state, instance_id, message);
                };
             }
 
-- 
2.43.0


From 482850f68e6a9d2dfe7128ff9125fa9890ff3612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:35 +0000
Subject: [PATCH 15/72] fix: service-manager looks up pending again when the
 last instance unadvertises

Pending lookups for a service that lost its last instance by unadvertise were never
replied. Do the same as when the instance exits, or prepares shutdown.
---
 middleware/service/source/manager/state.cpp | 38 ++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 5a7bcf4..3e1744b 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -483,10 +483,13 @@ namespace casual
             };
 
 
-            void remove_services( State& state, auto instance_id, const std::vector< std::string>& services)
+            //! @returns the services
+            std::vector< state::service::id::type> remove_services( State& state, auto instance_id, const std::vector< std::string>& services)
             {
                Trace trace{ "service::manager::local::remove_services"};
 
+               std::vector< state::service::id::type> result;
+
                // unadvertise only comes with origin service names.
                for( auto service_id : state.services.indexes())
                {
@@ -494,8 +497,23 @@ namespace casual
                   {
                      state.services[ service_id].instances.remove( instance_id);
                      state.instances.remove_service( instance_id, service_id);
+                     result.push_back( service_id);
                   }
                }
+
+               return result;
+            }
+
+            //! @returns (and extracts) pending lookups for the services that have no instances (any more)
+            std::vector< state::service::pending::Lookup> extract_lost_lookups( State& state, const std::vector< state::service::id::type>& services)
+            {
+               auto is_lost = [ &]( auto& pending)
+               {
+                  auto service_id = state.services.lookup( pending.request.requested);
+                  return service_id && algorithm::contains( services, service_id) && ! state.services[ service_id].has_instances();
+               };
+
+               return algorithm::container::extract( state.pending.lookups, algorithm::stable::filter( state.pending.lookups, is_lost));
             }
 
             template< typename M>
@@ -675,9 +693,16 @@ namespace casual
 
          if( message.clear())
          {
+            auto lost = [ &]() -> std::vector< state::service::id::type>
+            {
+               if( auto instance_id = instances.sequential.lookup( message.process.ipc))
+                  return instances.sequential[ instance_id].services();
+               return {};
+            }();
+
             // we just remove the process all together.
             std::ignore = remove( message.process.pid);
-            return {}; 
+            return local::extract_lost_lookups( *this, lost);
          }
          
          // honour possible restriction for the alias
@@ -707,7 +732,9 @@ namespace casual
          }
 
          // remove
-         local::remove_services( *this, instance_id, message.services.remove);
+         auto lost = local::remove_services( *this, instance_id, message.services.remove);
+
+         std::vector< state::service::pending::Lookup> result;
 
          // now we need to check if there are pending request that this instance has enabled. If it's busy the
          // pending keep their places, and get the instance when it's done.
@@ -721,10 +748,11 @@ namespace casual
             };
  
             if( auto found = algorithm::find_if( pending.lookups, requested_service))
-               return { algorithm::container::extract( pending.lookups, std::begin( found))};
+               result.push_back( algorithm::container::extract( pending.lookups, std::begin( found)));
          }
 
-         return {};
+         algorithm::container::append( local::extract_lost_lookups( *this, lost), result);
+         return result;
       }
 
 
-- 
2.43.0


From 4b94d93ebe7ebe1bbdf298c4bca17fc7377c56c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 16/72] fix: service-forward looks up the requested name
 (route) when the call is forwarded

---
 middleware/service/source/forward/handle.cpp | 2 +-
 middleware/service/source/manager/handle.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/forward/handle.cpp b/middleware/service/source/forward/handle.cpp
index 5cd0c94..d838cf0 100644
--- a/middleware/service/source/forward/handle.cpp
+++ b/middleware/service/source/forward/handle.cpp
@@ -106,7 +106,7 @@ namespace casual
                         // lookup service
                         {
                            message::service::lookup::Request request{ process::handle()};
-                           request.requested = message.service.name;
+                           request.requested = message.service.logical_name();
                            request.correlation = message.correlation;
                            // semantic explicitly as a lookup from service-forward
                            request.context.semantic = decltype( request.context.semantic)::forward_request;
diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 9b69142..4ab2ee1 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -499,6 +499,9 @@ namespace casual
                         auto reply = common::message::reverse::type( message);
                         reply.service = state.services[ service_id].information;
 
+                        if( reply.service.name != message.requested)
+                           reply.service.requested = message.requested;
+
                         switch( message.context.semantic)
                         {
                            using Semantic = decltype( message.context.semantic);
-- 
2.43.0


From a372dcebf58dc26e1fded02cf42b2a59dfd26b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:08 +0000
Subject: [PATCH 17/72] fix: service-manager discards the reservation also when
 a caller that expects no reply is gone

---
 middleware/service/source/manager/handle.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 4ab2ee1..9f08295 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -727,11 +727,12 @@ namespace casual
                            log::line( log, "failed to find pending to discard - check if we have reserved the service already");
 
                            // we need to go through all sequential instances. An instance without a caller has
-                           // got the call, and it will be acked
-                           auto is_reserved = [ &state, correlation = message.correlation]( auto id)
+                           // got the call, and it will be acked. Unless it's our own discard, then the caller
+                           // was gone before it got to know which instance to call.
+                           auto is_reserved = [ &state, correlation = message.correlation, own = message.process == common::process::handle()]( auto id)
                            {
                               auto& instance = state.instances.sequential[ id];
-                              return ! instance.idle() && instance.caller() && instance.caller() == correlation;
+                              return ! instance.idle() && ( own || instance.caller()) && instance.caller() == correlation;
                            };
 
                            auto ids = state.instances.sequential.indexes();
-- 
2.43.0


From 9e9f48488fbe7a57663ffa1f225912516340b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 18/72] fix: service-manager prepare shutdown removes the
 services from the instance

---
 middleware/service/source/manager/state.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 3e1744b..a64e6ed 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -660,10 +660,16 @@ namespace casual
             if( auto instance_id = instances.sequential.lookup( process.ipc))
             {
                // take care of services
-               for( auto service_id : instances.sequential[ instance_id].services())
+               const auto provided = instances.sequential[ instance_id].services();
+
+               for( auto service_id : provided)
+               {
+                  instances.sequential[ instance_id].remove( service_id);
+
                   if( services[ service_id].instances.remove( instance_id))
                      // This was the last instance for the service, we get the name(s) of the service for lookup-rejects
                      algorithm::container::append( services.names( service_id), result.services);
+               }
 
                result.instances.push_back( instance_id);
             }
-- 
2.43.0


From 8b6fd6f36c54c8e9358875a28abd0178bd94de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 19/72] fix: service-manager does not give calls to an instance
 that is about to be killed

---
 middleware/service/source/manager/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index a64e6ed..d765cd0 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -613,9 +613,10 @@ namespace casual
       {
          Trace trace{ "service::manager::State::reserve_sequential"};
 
+         // an instance that is about to be killed gets no more calls
          auto is_idle = [ &]( auto instance_id)
          {
-            return instances.sequential[ instance_id].idle();
+            return instances.sequential[ instance_id].idle() && ! algorithm::contains( disabled, instance_id);
          };
 
          auto& service = services[ service_id];
-- 
2.43.0


From d8513a8b4fe07c54d75d459b51d792f8064e46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 20/72] fix: transaction-manager fails the requests of a
 resource proxy instance that dies

---
 .../include/transaction/manager/state.h       | 16 +++-
 .../transaction/source/manager/handle.cpp     | 80 +++++++++++++++++--
 .../transaction/source/manager/state.cpp      | 40 +++++++---
 3 files changed, 116 insertions(+), 20 deletions(-)

diff --git a/middleware/transaction/include/transaction/manager/state.h b/middleware/transaction/include/transaction/manager/state.h
index a216a02..219af38 100644
--- a/middleware/transaction/include/transaction/manager/state.h
+++ b/middleware/transaction/include/transaction/manager/state.h
@@ -96,6 +96,11 @@ namespace casual
                   void state( instance::State state);
                   instance::State state() const;
 
+                  //! associates the request that the instance is working with. If the instance dies, 
+                  //! this is the request that will not get a reply.
+                  inline void request( common::communication::ipc::message::Complete request) noexcept { m_request = std::move( request);}
+                  inline const auto& request() const noexcept { return m_request;}
+
                   inline const Metrics& metrics() const noexcept { return m_metrics;}
                   inline const common::Metric& pending() const noexcept { return m_pending;}
 
@@ -107,6 +112,7 @@ namespace casual
                      CASUAL_SERIALIZE( process);
                      CASUAL_SERIALIZE( m_state);
                      CASUAL_SERIALIZE( m_reserved);
+                     CASUAL_SERIALIZE( m_request);
                      CASUAL_SERIALIZE( m_metrics);
                      CASUAL_SERIALIZE( m_pending);
                   )
@@ -116,6 +122,7 @@ namespace casual
 
                   instance::State m_state{};
                   platform::time::point::type m_reserved{};
+                  common::communication::ipc::message::Complete m_request;
                   Metrics m_metrics;
                   common::Metric m_pending;
                };
@@ -146,7 +153,11 @@ namespace casual
                //! @return true if all instances 'has connected'
                bool booted() const;
 
-               bool remove_instance( common::strong::process::id pid);
+               //! @return the removed instance, if found
+               std::optional< proxy::Instance> remove_instance( common::strong::process::id pid);
+
+               //! @return true if there is an instance that could take care of requests, now or later.
+               bool serviceable() const;
 
                inline friend bool operator < ( const Proxy& lhs, const Proxy& rhs) { return lhs.id < rhs.id;}
                inline friend bool operator == ( const Proxy& lhs, common::strong::resource::id rhs) { return lhs.id == rhs; }
@@ -461,9 +472,10 @@ namespace casual
          const state::resource::Proxy& get_resource( const std::string& name) const;
          state::resource::Proxy* find_resource( common::strong::resource::id rm);
          state::resource::Proxy* find_resource( const std::string& name);
+         state::resource::proxy::Instance* find_instance( common::strong::resource::id rm, common::strong::process::id pid);
          state::resource::proxy::Instance& get_instance( common::strong::resource::id rm, common::strong::process::id pid);
 
-         bool remove_instance( common::strong::process::id pid);
+         std::optional< state::resource::proxy::Instance> remove_instance( common::strong::process::id pid);
 
          //! @return a reserved instance, nullptr if all are busy.
          state::resource::proxy::Instance* try_reserve( common::strong::resource::id rm);
diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 84afb22..bfc7d1e 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -238,6 +238,26 @@ namespace casual
                      return ipc::device().push( reply);
                   }
 
+                  //! pushes the error reply for a _complete_ request
+                  void reply( const common::communication::ipc::message::Complete& complete)
+                  {
+                     auto push_reply = [ &complete]( auto request)
+                     {
+                        common::serialize::native::complete( complete, request);
+                        common::log::error( common::code::xa::resource_fail, "resource: ", request.resource, " will not reply to ", request.type(), ", trid: ", request.trid, " - action: emulate reply with ", common::code::xa::resource_fail);
+                        error::reply( request);
+                     };
+
+                     switch( complete.type())
+                     {
+                        using Type = common::message::Type;
+                        case Type::transaction_resource_prepare_request: push_reply( common::message::transaction::resource::prepare::Request{}); break;
+                        case Type::transaction_resource_commit_request: push_reply( common::message::transaction::resource::commit::Request{}); break;
+                        case Type::transaction_resource_rollback_request: push_reply( common::message::transaction::resource::rollback::Request{}); break;
+                        default: break;
+                     }
+                  }
+
                } // push::resource::error
 
                namespace create::resource::error
@@ -305,7 +325,20 @@ namespace casual
                         if( state::resource::id::local( request.resource))
                         {
                            if( auto reserved = state.try_reserve( request.resource))
+                           {
+                              if( ! request.correlation)
+                                 request.correlation = common::strong::correlation::id::generate();
+
+                              reserved->request( common::serialize::native::complete< common::communication::ipc::message::Complete>( request));
                               return state.multiplex.send( reserved->process.ipc, request, create::resource::error::callback( request));
+                           }
+
+                           // If there is no instance left, no one will ever take care of the request
+                           if( auto resource = state.find_resource( request.resource); ! resource || ! resource->serviceable())
+                           {
+                              common::log::error( common::code::xa::resource_fail, "no instances for resource: ", request.resource, " for trid: ", request.trid, " - action: emulate reply with ", common::code::xa::resource_fail);
+                              return push::resource::error::reply( request);
+                           }
 
                            common::log::line( log, "could not send to resource: ", request.resource, " - action: try later");
                            // (we know message is an rvalue, so it's going to be a move)
@@ -701,27 +734,57 @@ namespace casual
                      {
                         Trace trace{ "transaction::manager::handle::local::resource::detail::instance::done"};
 
+                        // the instance could be on its way to shutdown
+                        if( instance.state() != state::resource::proxy::instance::State::idle)
+                           return;
+
                         if( auto request = state.pending.requests.next( instance.id))
                         {
                            // We got a pending request for this resource, let's oblige
-                           if( state.multiplex.send( instance.process.ipc, std::move( request.complete)))
-                              instance.reserve( request.created);
-                           else
+                           instance.reserve( request.created);
+                           instance.request( common::communication::ipc::message::Complete{ 
+                              request.complete.type(), request.complete.correlation(), platform::binary::type{ request.complete.payload}});
+
+                           if( ! state.multiplex.send( instance.process.ipc, std::move( request.complete)))
                               common::log::line( common::log::category::error, "the instance: ", instance , " - does not seem to be running");
                         }
                      }
 
+                     //! the instance has been removed (the process is gone). Take care of the requests that nobody 
+                     //! will reply to.
+                     void lost( State& state, const state::resource::proxy::Instance& removed)
+                     {
+                        Trace trace{ "transaction::manager::handle::local::resource::detail::instance::lost"};
+
+                        namespace error = local::detail::push::resource::error;
+
+                        if( removed.request())
+                           error::reply( removed.request());
+
+                        if( auto resource = state.find_resource( removed.id); resource && resource->serviceable())
+                           return;
+
+                        while( auto request = state.pending.requests.next( removed.id))
+                           error::reply( request.complete);
+                     }
+
                      template< typename M>
                      void replied( State& state, const M& message)
                      {
                         if( state::resource::id::local( message.resource))
                         {
-                           // The resource is a local resource proxy, and it's done, and ready for more work
-                           auto& instance = state.get_instance( message.resource, message.process.pid);
+                           // the instance could be gone already (or, if the reply is emulated, it's not from the instance at all)
+                           auto instance = state.find_instance( message.resource, message.process.pid);
+
+                           if( ! instance)
                            {
-                              instance.unreserve( message.statistics);
-                              instance::ready( state, instance);
+                              common::log::line( log, "failed to find instance for resource: ", message.resource, ", pid: ", message.process.pid, " - action: ignore");
+                              return;
                            }
+
+                           // The resource is a local resource proxy, and it's done, and ready for more work
+                           instance->unreserve( message.statistics);
+                           instance::ready( state, *instance);
                         } 
                      }
 
@@ -1129,8 +1192,9 @@ namespace casual
                      common::log::line( verbose::log, "message: ", message);
 
                      // Check if it's a resource proxy instance
-                     if( state.remove_instance( message.state.pid))
+                     if( auto removed = state.remove_instance( message.state.pid))
                      {
+                        resource::detail::instance::lost( state, *removed);
                         state.multiplex.send( common::communication::instance::outbound::domain::manager::device(), message);
                         return;
                      }
diff --git a/middleware/transaction/source/manager/state.cpp b/middleware/transaction/source/manager/state.cpp
index 3a50d19..ba6546e 100644
--- a/middleware/transaction/source/manager/state.cpp
+++ b/middleware/transaction/source/manager/state.cpp
@@ -83,6 +83,9 @@ namespace casual
                   if( m_state == instance::State::busy)
                      m_state = instance::State::idle;
 
+                  // the request has been taken care of
+                  m_request = {};
+
                   m_metrics.resource += statistics.end - statistics.start;
                   m_metrics.roundtrip +=  platform::time::clock::type::now() - std::exchange( m_reserved, {});
                }
@@ -133,16 +136,23 @@ namespace casual
                });
             }
 
-            bool Proxy::remove_instance( common::strong::process::id pid)
+            std::optional< proxy::Instance> Proxy::remove_instance( common::strong::process::id pid)
             {
                if( auto found = algorithm::find( instances, pid))
                {
                   metrics += found->metrics();
                   pending += found->pending();
-                  instances.erase( std::begin( found));
-                  return true;
+                  return algorithm::container::extract( instances, std::begin( found));
                }
-               return false;
+               return {};
+            }
+
+            bool Proxy::serviceable() const
+            {
+               return ! common::algorithm::all_of( instances, []( auto& instance)
+               {
+                  return instance.state() == proxy::instance::State::shutdown;
+               });
             }
 
             namespace external
@@ -306,20 +316,30 @@ namespace casual
          code::raise::error( code::casual::invalid_argument, "failed to find resource - name: ", name);
       }
 
+      state::resource::proxy::Instance* State::find_instance( common::strong::resource::id rm, common::strong::process::id pid)
+      {
+         if( auto resource = find_resource( rm))
+            if( auto found = common::algorithm::find( resource->instances, pid))
+               return found.data();
+
+         return nullptr;
+      }
+
       state::resource::proxy::Instance& State::get_instance( common::strong::resource::id rm, common::strong::process::id pid)
       {
-         auto& resource = get_resource( rm);
-         if( auto found = common::algorithm::find( resource.instances, pid))
+         if( auto found = find_instance( rm, pid))
             return *found;
 
          code::raise::error( code::casual::invalid_argument, "failed to find instance - rm: ", rm, ", pid: ", pid);
       }
 
-      bool State::remove_instance( common::strong::process::id pid)
+      std::optional< state::resource::proxy::Instance> State::remove_instance( common::strong::process::id pid)
       {
-         return ! common::algorithm::find_if( resources, [pid]( auto& r){
-            return r.remove_instance( pid);
-         }).empty();
+         for( auto& resource : resources)
+            if( auto removed = resource.remove_instance( pid))
+               return removed;
+
+         return {};
       }  
 
       state::resource::proxy::Instance* State::try_reserve( common::strong::resource::id rm)
-- 
2.43.0


From 0af69534095002c81cd7ea62f5c785ea0e0a910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 21/72] fix: transaction-manager does not rollback a
 transaction that is already on its way to an outcome

---
 middleware/transaction/source/manager/handle.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index bfc7d1e..2c39c27 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -710,6 +710,16 @@ namespace casual
                      auto transaction = detail::branch::involved( state, message);
                      common::log::line( verbose::log, "transaction: ", *transaction);
 
+                     if( transaction->stage > state::transaction::Stage::involved)
+                     {
+                        // transaction is not in the correct 'stage'
+                        detail::send::reply( state, message, []( auto& reply)
+                        { 
+                           reply.state = decltype( reply.state)::protocol;
+                        });
+                        return;
+                     }
+
                      // start the rollback phase, directly
                      transaction->stage = state::transaction::Stage::rollback;
                      transaction->owner = message.process;
@@ -1217,6 +1227,10 @@ namespace casual
 
                      auto trids = common::algorithm::accumulate( state.transactions, std::vector< common::transaction::ID>{}, [ pid = message.state.pid]( auto result, auto& transaction)
                      {
+                        // if the transaction is already on its way to an outcome (prepare, commit or rollback), we let it.
+                        if( transaction.stage > state::transaction::Stage::involved)
+                           return result;
+
                         if( ! transaction.branches.empty() && transaction.branches.back().trid.owner().pid == pid)
                            result.push_back( transaction.branches.back().trid);
 
-- 
2.43.0


From 0d9d2fd0d53987313caa55f3a75d5393c155644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 22/72] fix: transaction-manager keeps the id of an external
 resource that is registered again

---
 middleware/transaction/source/manager/state.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/middleware/transaction/source/manager/state.cpp b/middleware/transaction/source/manager/state.cpp
index ba6546e..083033a 100644
--- a/middleware/transaction/source/manager/state.cpp
+++ b/middleware/transaction/source/manager/state.cpp
@@ -168,13 +168,16 @@ namespace casual
 
                   void add( State& state, common::message::transaction::resource::external::Instance&& message)
                   {
+                     // if we know the instance since before, transactions could already be associated with the id.
+                     auto found = common::algorithm::find( state.externals, message.process.ipc);
+
                      external::Instance instance;
-                     instance.id = allocate_id();
+                     instance.id = found ? found->id : allocate_id();
                      instance.alias = std::move( message.alias);
                      instance.description = std::move( message.description);
                      instance.process = message.process;
 
-                     if( auto found = common::algorithm::find( state.externals, message.process.ipc))
+                     if( found)
                         *found = std::move( instance);
                      else
                         state.externals.push_back( std::move( instance));
-- 
2.43.0


From 8e4bc74a7ff9962755537b926b6069194ef523dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 23/72] fix: transaction-manager treats an unknown xid during
 prepare as a failed prepare

---
 middleware/transaction/source/manager/handle.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 2c39c27..14b4336 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -533,7 +533,14 @@ namespace casual
                         // we're done with the prepare phase
                         transaction->stage = state::transaction::Stage::post_prepare;
 
-                        const auto code = detail::accumulate::code( replies, outcome);
+                        const auto code = []( auto code)
+                        {
+                           // A resource that doesn't know the transaction has not prepared anything, and 
+                           // can't vote for commit.
+                           if( code == decltype( code)::invalid_xid)
+                              return decltype( code)::rollback_other;
+                           return code;
+                        }( detail::accumulate::code( replies, outcome));
                         common::log::line( verbose::log, "code: ", code);
 
                         // filter away all read-only replies
-- 
2.43.0


From 352408a28b1fcbfc3c883e81d9ae13d0fdd43269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:56 +0000
Subject: [PATCH 24/72] fix: transaction-manager disassociate event refers to
 the transaction that is removed

---
 middleware/transaction/source/manager/handle.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 14b4336..b700157 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -288,12 +288,15 @@ namespace casual
                      if( auto found = common::algorithm::find( state.transactions, global))
                      {
                         common::log::line( verbose::log, "remove: ", *found);
+
+                        // `global` could refer to the transaction we're about to erase
+                        common::message::event::transaction::Disassociate event{ common::process::handle()};
+                        event.gtrid = global;
+
                         common::algorithm::container::erase( state.transactions, std::begin( found));
 
                         // other "managers" might have state associated with the transaction, send an event
                         // to help them get rid of it.
-                        common::message::event::transaction::Disassociate event{ common::process::handle()};
-                        event.gtrid = global;
                         common::event::send( state.multiplex, event);
                      }
                   }
-- 
2.43.0


From c4a0be13845ecf1a006e80011a9d48b0ca8c775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 25/72] fix: transaction state of a service reply is mapped to
 the wrong transaction state

---
 .../common/source/transaction/context.cpp     | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ddc0a6e..7e9daea 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -504,13 +504,36 @@ namespace casual
          }
 
 
+         namespace local
+         {
+            namespace
+            {
+               namespace transform
+               {
+                  //! the representations differ between the message and the transaction
+                  Transaction::State state( message::service::transaction::State state) noexcept
+                  {
+                     using State = message::service::transaction::State;
+                     switch( state)
+                     {
+                        case State::ok: return Transaction::State::active;
+                        case State::timeout: return Transaction::State::timeout;
+                        case State::rollback:
+                        case State::error: return Transaction::State::rollback;
+                     }
+                     return Transaction::State::rollback;
+                  }
+               } // transform
+            } // <unnamed>
+         } // local
+
          void Context::update( message::service::call::Reply& reply)
          {
             Trace trace{ "transaction::Context::update"};
 
             if( auto found = algorithm::find( m_transactions, reply.correlation))
             {
-               auto state = Transaction::State( reply.transaction_state);
+               auto state = local::transform::state( reply.transaction_state);
 
                if( found->state < state)
                   found->state = state;
-- 
2.43.0


From 1f3280732938ac171321551f66b6d984b608a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 26/72] fix: service reply is ok when the transaction it
 started is rollback only and is rolled back

---
 middleware/common/source/transaction/context.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 7e9daea..d73510b 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -589,10 +589,14 @@ namespace casual
 
             auto invoke_commit_rollback = [ this, invoke_rollback, commit]( const Transaction& transaction)
             {
-               if( commit && transaction.state == Transaction::State::active)
-                  return local::log::code( Context::commit( transaction), "failed to commit trid: ", transaction.trid);
-               else
+               if( ! commit)
                   return invoke_rollback( transaction);
+
+               if( transaction.state == Transaction::State::active)
+                  return local::log::code( Context::commit( transaction), "failed to commit trid: ", transaction.trid);
+
+               // we're supposed to commit but we can't, the caller has to know that we did rollback.
+               return invoke_rollback( transaction) + code::tx::rollback;
             };
 
             auto transform_state = casual::overloaded{
-- 
2.43.0


From 6f5b68e146a560b5b16ec7832d2ddf79493fa816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 27/72] fix: transaction with pending replies is committed when
 a service returns

---
 middleware/common/source/transaction/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index d73510b..62ef4b8 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -573,6 +573,7 @@ namespace casual
                      log::line( log::category::transaction, transaction);
 
                      result = message::service::transaction::State::error;
+                     transaction.state = Transaction::State::rollback;
                   }
 
                   // Discard pending
-- 
2.43.0


From 013c525272660fc8898509a473486473448e64be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 28/72] fix: conversational service that fails commits its
 transaction

---
 middleware/common/source/server/handle/service.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/server/handle/service.cpp b/middleware/common/source/server/handle/service.cpp
index 4701a7f..54ed410 100644
--- a/middleware/common/source/server/handle/service.cpp
+++ b/middleware/common/source/server/handle/service.cpp
@@ -150,9 +150,15 @@ namespace casual
             reply.duplex = decltype( reply.duplex)::terminated;
 
             if( result.transaction == common::service::invoke::Result::Transaction::commit)
-               reply.code.result = code::xatmi::ok;  
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::ok;
+               reply.code.result = code::xatmi::ok;
+            }
             else
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::rollback;
                reply.code.result = code::xatmi::service_fail;
+            }
 
 
             log::line( log::debug, "reply: ", reply);
-- 
2.43.0


From f70abee5d3536a81cc5b653f5795260b3cadcc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 29/72] fix: resources stay associated when a service fails to
 start a transaction

---
 middleware/common/source/transaction/context.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 62ef4b8..ae4c9ec 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -477,15 +477,16 @@ namespace casual
          {
             Trace trace{ "transaction::Context::start"};
 
-            auto transaction = local::start::transaction();
+            // we add it before we start the resources. If any of them fails, the ones that
+            // did start will be ended and rolled back when the transaction is finalized 
+            auto& transaction = m_transactions.emplace_back( local::start::transaction());
 
             local::raise::code( local::resources::start::invoke( local::resources::start::policy::start(), transaction, m_resources.fixed),
                "failed to start on ore more fixed resources");
 
             local::log::event( "start", transaction.trid);
 
-            m_transactions.push_back( std::move( transaction));
-            return m_transactions.back();
+            return transaction;
          }
 
          Transaction& Context::branch( const transaction::ID& trid)
-- 
2.43.0


From cee14a91a6b977a0322a4e46aefd9ee23e0de1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 30/72] fix: transaction is neither committed nor rolled back
 when a resource fails to end

---
 .../include/common/transaction/context.h      |  2 ++
 .../common/source/transaction/context.cpp     | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 71243e2..f38a62f 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -158,6 +158,8 @@ namespace casual
 
          [[nodiscard]] code::tx commit( const Transaction& transaction);
          [[nodiscard]] code::tx rollback( const Transaction& transaction);
+         //! rollback when resources has been ended
+         [[nodiscard]] code::tx rollback_ended( const Transaction& transaction);
 
 
          [[nodiscard]] code::tx resource_commit( strong::resource::id rm, const Transaction& transaction, flag::xa::Flag flags);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ae4c9ec..981d104 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -856,7 +856,13 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "commit - failed to end one or more resources");
+            {
+               log::line( log::category::error, code, " commit - failed to end one or more resources - action: rollback transaction: ", transaction.trid);
+
+               // we can't commit, and nobody else will take care of the transaction.
+               auto result = rollback_ended( transaction);
+               return local::log::code( result == code::tx::ok ? code::tx::rollback : result, "commit - failed to end one or more resources");
+            }
 
             if( transaction.local() && transaction.involved().size() <= 1)
             {
@@ -948,9 +954,16 @@ namespace casual
             Trace trace{ "transaction::Context::rollback"};
             casual::assertion( transaction, "not a valid transaction: ", transaction);
 
-            // end resources
+            // end resources - the transaction has to be rolled back regardless
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+               log::line( log::category::error, code, " rollback - failed to end one or more resources for transaction: ", transaction.trid);
+
+            return rollback_ended( transaction);
+         }
+
+         code::tx Context::rollback_ended( const Transaction& transaction)
+         {
+            Trace trace{ "transaction::Context::rollback_ended"};
 
             if( transaction.local())
             {
-- 
2.43.0


From 34f24b332f8774298a485b346cafa258b740781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 31/72] fix: failed asynchronous call is kept as pending with
 the transaction

---
 middleware/common/source/service/call/context.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index ce6e43b..2d05369 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -156,8 +156,15 @@ namespace casual
          // The service exists. Take care of reserving descriptor and determine timeout
          auto prepared = local::prepare::message( m_state, std::move( buffer), std::move( header), flags, target);
 
-         // If some thing goes wrong we unreserve the descriptor
-         auto unreserve = common::execute::scope( [&](){ m_state.pending.unreserve( prepared.descriptor);});
+         // If some thing goes wrong we unreserve the descriptor, and there will be no reply to wait for
+         auto unreserve = common::execute::scope( [&]()
+         {
+            common::transaction::context().current().replied( target.correlation);
+
+            // there is no descriptor with no_reply
+            if( prepared.descriptor != 0)
+               m_state.pending.unreserve( prepared.descriptor);
+         });
 
 
          if( target.state != decltype( target.state)::idle)
-- 
2.43.0


From b25726158fe6aa614e8731c59caacdbcc1d5f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:22 +0000
Subject: [PATCH 32/72] fix: transaction with a conversation can never be
 committed, even when the conversation has ended

The association is never released, and the transaction state of the callee is not
propagated to the transaction of the initiator.
---
 .../include/common/transaction/context.h      |  4 +++
 .../source/service/conversation/context.cpp   | 34 +++++++++++++++----
 .../common/source/transaction/context.cpp     | 11 ++++--
 3 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index f38a62f..4621de1 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -102,6 +102,10 @@ namespace casual
 
          void update( message::service::call::Reply& state);
 
+         //! `correlation` is done, if associated with a transaction the state is propagated to the 
+         //! transaction, and the association is removed.
+         void update( const strong::correlation::id& correlation, message::service::transaction::State state);
+
          //! commits or rollback transaction created from this server
          message::service::transaction::State finalize( bool commit);
 
diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index e907fd7..789a6bf 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -124,7 +124,7 @@ namespace casual
                      // It also handles the case of a pending service_reply
                      // that may have been sent by the service manager if/when
                      // it detected that the server process terminated while busy. 
-                     send::Result pending_event(common::service::conversation::state::descriptor::Value value)
+                     send::Result pending_event( common::service::conversation::state::descriptor::Value value, message::service::transaction::State& transaction_state)
                      {
                         send::Result result; // assumes no return event! User code 0
 
@@ -183,6 +183,7 @@ namespace casual
                               // tpreturn by the subordinate when not in control
                               // Need to generate TPEV_SVCFAIL or TPEV_SVCERR
                               serialize::native::complete( complete_msg, inp_message);
+                              transaction_state = inp_message.transaction_state;
                               using Result = decltype( inp_message.code.result);
                               switch( inp_message.code.result)
                               {
@@ -239,6 +240,15 @@ namespace casual
 
                   } // check
 
+                  //! The conversation is terminated: unreserves the descriptor and, if the conversation is associated
+                  //! with a transaction, releases the association and propagates the (callee) transaction state.
+                  void terminate( State& state, strong::conversation::descriptor::id descriptor, message::service::transaction::State transaction_state)
+                  {
+                     const auto correlation = state.descriptors.at( descriptor).correlation;
+                     state.descriptors.unreserve( descriptor);
+                     common::transaction::context().update( correlation, transaction_state);
+                  }
+
                } // <unnamed>
             } // local
 
@@ -294,7 +304,10 @@ namespace casual
                log::line( log::debug, "descriptor: ", descriptor, ", value: ", value);
 
                // If some thing goes wrong we unreserve the descriptor
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               auto unreserve = common::execute::scope( [&]()
+               { 
+                  local::terminate( m_state, descriptor, message::service::transaction::State::ok);
+               });
 
                auto target = service::lookup::reply( std::move( lookup));
 
@@ -372,7 +385,9 @@ namespace casual
                value.duplex = local::duplex::convert( flags);
                // if an event occurs (TPEV_DISCONIMM, TPEV_SVCFAI or TPEV_SVCERR)
                // the conversation is terminated. The descriptor shall be unreserved.
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               // We don't know the outcome at the callee, unless told otherwise.
+               auto transaction_state = message::service::transaction::State::rollback;
+               auto unreserve = common::execute::scope( [&](){ local::terminate( m_state, descriptor, transaction_state);});
 
                local::check::disconnect( value);
 
@@ -408,7 +423,7 @@ namespace casual
                // disconnect.
                // This low level impementation is in check::pending_event()
                //common::Flag< Event> result_event = local::check::pending_event( value);
-               send::Result result = local::check::pending_event( value);
+               send::Result result = local::check::pending_event( value, transaction_state);
 
                if( flag::empty( result.event))
                {
@@ -436,7 +451,9 @@ namespace casual
 
                local::validate::receive( value);
 
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               // We don't know the outcome at the callee, unless told otherwise.
+               auto transaction_state = message::service::transaction::State::rollback;
+               auto unreserve = common::execute::scope( [&](){ local::terminate( m_state, descriptor, transaction_state);});
 
                local::check::disconnect( value);
 
@@ -604,6 +621,7 @@ namespace casual
                   
                   // we're done with this conversation,
                   // descriptor will be unreserved
+                  transaction_state = message.transaction_state;
                   return result;
                }
                
@@ -631,7 +649,11 @@ namespace casual
 
                local::validate::disconnect( value);
 
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( handle);});
+               // the callee will not get to know the outcome, hence the transaction can only be rolled back
+               auto unreserve = common::execute::scope( [&]()
+               { 
+                  local::terminate( m_state, handle, message::service::transaction::State::rollback);
+               });
 
                {
                   auto message = local::prepare::message< message::conversation::Disconnect>( value);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 981d104..e46c6e0 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -529,18 +529,23 @@ namespace casual
          } // local
 
          void Context::update( message::service::call::Reply& reply)
+         {
+            update( reply.correlation, reply.transaction_state);
+         }
+
+         void Context::update( const strong::correlation::id& correlation, message::service::transaction::State transaction_state)
          {
             Trace trace{ "transaction::Context::update"};
 
-            if( auto found = algorithm::find( m_transactions, reply.correlation))
+            if( auto found = algorithm::find( m_transactions, correlation))
             {
-               auto state = local::transform::state( reply.transaction_state);
+               auto state = local::transform::state( transaction_state);
 
                if( found->state < state)
                   found->state = state;
 
                // this descriptor is done, and we can remove the association to the transaction
-               found->replied( reply.correlation);
+               found->replied( correlation);
             }
             // TODO:
             // We seem to propagate transaction state even if the call was not in a transaction
-- 
2.43.0


From a1f72396523591c7d758c0306dbd92978910fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 33/72] fix: failed connect acknowledges the caller, not the
 instance that was reserved

If the caller is a server it becomes idle for service-manager, while it still
executes a service. The reserved instance is not released.
---
 middleware/common/source/service/conversation/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index 789a6bf..4f0b641 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -335,12 +335,14 @@ namespace casual
                {
                   message::service::call::ACK ack;
 
+                  ack.correlation = message.correlation;
                   ack.execution = message.execution;
                   ack.metric.execution = message.execution;
                   ack.metric.span = strong::execution::span::id::generate();
                   ack.metric.service = service;
                   ack.metric.parent = message.parent;
-                  ack.metric.process = common::process::handle();
+                  // it's the target that is reserved, not us
+                  ack.metric.process = target.process;
                   ack.metric.trid = message.trid;
 
                   ack.metric.start = start;
-- 
2.43.0


From 39253fc4c41a5415c73aaf821a6829a51c6dc201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 34/72] fix: connect blocks forever if the instance dies before
 it has accepted the conversation

And, if the wait for the accept is interrupted there is only one acknowledge.
---
 .../source/service/conversation/context.cpp     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index 4f0b641..f9d07a9 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -362,15 +362,24 @@ namespace casual
 
                   log::line( log::debug, "connect - request: ", message);
 
-                  auto reply = communication::ipc::call( target.process.ipc, message);
+                  auto correlation = communication::device::blocking::send( target.process.ipc, message);
 
-                  log::line( log::debug, "connect - reply: ", reply);
+                  // from now on the instance is responsible for the ack
+                  send_ack.release();
 
+                  // service-manager sends a service_reply if the instance dies
+                  auto complete = communication::device::blocking::next(
+                     communication::ipc::inbound::device(),
+                     common::array::make( message::conversation::connect::Reply::type(), message::Type::service_reply),
+                     correlation);
+
+                  log::line( log::debug, "connect - reply: ", complete);
+
+                  if( complete.type() == message::Type::service_reply)
+                     code::raise::error( code::xatmi::system, "failed to connect to service: ", service);
                }
 
                unreserve.release();
-               send_ack.release();
-
 
                return descriptor;
             }
-- 
2.43.0


From 540fd8cb01e66b6e4c2a7526c1044c1c90a92701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 35/72] fix: transaction is lost for the application if suspend
 or resume fails

It was marked as suspended without the xid, or as resumed without being the current one,
and could neither be committed nor rolled back.
---
 middleware/common/source/transaction/context.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index e46c6e0..0bbf258 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1105,15 +1105,15 @@ namespace casual
 
             // We don't check if current transaction is aborted. This differs from Tuxedo's semantics
 
-            // mark the transaction as suspended
-            ongoing.suspend();
-
             // Tell the RM:s to suspend
             if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), ongoing, m_resources.all); code != code::tx::ok)
                return local::log::code( code::tx::protocol, "suspend: failed to suspend one or more resources");
 
             *xid = ongoing.trid.xid;
 
+            // mark the transaction as suspended
+            ongoing.suspend();
+
             local::log::event( "suspend", ongoing.trid);
 
             return code::tx::ok;
@@ -1131,12 +1131,12 @@ namespace casual
                if( ! found->suspended())
                   return local::log::code( code::tx::protocol, "resume: wanted transaction is not suspended");
 
-               found->resume();
-
                // Tell the RM:s to resume
                if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), *found, m_resources.fixed); code != code::tx::ok)
                   return local::log::code( code::tx::argument, "resume: failed to resume one or more fixed resources");
 
+               found->resume();
+
                // We rotate the wanted to end;
                algorithm::rotate( m_transactions, ++found);
 
-- 
2.43.0


From 1d5e906e9dbaaefc43ffcb86948037e9cf088cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 36/72] fix: begin that fails leaves branches in the resources,
 and the ongoing transaction suspended

---
 middleware/common/source/transaction/context.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 0bbf258..63df440 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -770,8 +770,18 @@ namespace casual
                      // to mark this extremely short lived transaction with 'error'. Don't know
                      // how resources "wants it"...
                      resource.end( transaction.trid, flag::xa::Flag::success);
+
+                     // nobody else knows about this transaction.
+                     resource.rollback( transaction.trid, flag::xa::Flag::no_flags);
                   });
 
+                  // the ongoing transaction (stacked) is still the current, and was suspended above
+                  if( auto& ongoing = current())
+                  {
+                     if( local::resources::start::invoke( local::resources::start::policy::resume(), ongoing, m_resources.fixed) != code::tx::ok)
+                        ongoing.state = Transaction::State::rollback;
+                  }
+
                   return local::log::code( code::tx::error, "some resources failed to start: ", algorithm::transform( failed, []( auto& rm){ return rm.id();}));
                }
             }            
-- 
2.43.0


From db0595fb906c4131b01deea870c39f3cc3e4dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 37/72] fix: commit or rollback in chained mode reports error
 when only the new transaction failed to begin

---
 middleware/common/source/transaction/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 63df440..48bf354 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1218,7 +1218,9 @@ namespace casual
                   
                case Control::chained:
                   // We start a new one
-                  return code + begin();
+                  if( begin() == code::tx::ok)
+                     return code;
+                  return code + code::tx::no_begin;
 
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
-- 
2.43.0


From 6c6877e718a5074bb5d51da873abcfe20cbad67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 38/72] fix: stacked mode resumes dynamic resources that has
 nothing to do with the transaction

They got involved in the transaction, and xa_start was called without a prior registration.
---
 middleware/common/source/transaction/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 48bf354..33c412b 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1225,7 +1225,7 @@ namespace casual
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
                   if( auto& current = Context::current())
-                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
+                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.fixed);
                   return code;
             }
 
-- 
2.43.0


From e5e4262f39bbd8bf15971e67929e89bcd1aed9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 39/72] fix: transaction can be committed when resources failed
 to resume after a service call

---
 middleware/common/source/service/call/context.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index 2d05369..9f82d04 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -27,6 +27,7 @@
 #include "common/transaction/context.h"
 
 #include "common/execute.h"
+#include "common/exception/capture.h"
 
 #include "xatmi.h"
 
@@ -310,7 +311,16 @@ namespace casual
                         if( ! transaction)
                            return;
 
-                        common::transaction::context().resources_resume( *transaction);
+                        try
+                        {
+                           common::transaction::context().resources_resume( *transaction);
+                        }
+                        catch( ...)
+                        {
+                           // work with the resources will not be part of the transaction
+                           log::line( log::category::error, exception::capture(), " failed to resume resources - action: rollback only for: ", transaction->trid);
+                           transaction->state = common::transaction::Transaction::State::rollback;
+                        }
                      });
                   };
 
-- 
2.43.0


From 7ce0a4a3e86da03022a77771f1fd8510608ddfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 40/72] fix: rollback only is lost when a service forwards

The caller of the service could commit a transaction that a subordinate wanted to roll back.
---
 middleware/common/source/server/handle/policy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/common/source/server/handle/policy.cpp b/middleware/common/source/server/handle/policy.cpp
index 919aeb6..e023576 100644
--- a/middleware/common/source/server/handle/policy.cpp
+++ b/middleware/common/source/server/handle/policy.cpp
@@ -204,6 +204,11 @@ namespace casual
                   if( transaction::context().pending())
                      code::raise::error( code::xatmi::service_error, "forward with pending transactions - service: ", message.service.name);
 
+                  // the caller will only get the state from the service we forward to
+                  if( auto& transaction = transaction::context().current(); transaction && 
+                     ( transaction.state != transaction::Transaction::State::active || transaction.pending()))
+                     code::raise::error( code::xatmi::service_error, "forward with transaction that can only be rolled back - service: ", message.service.name);
+
                   common::service::Lookup lookup{
                      forward.parameter.service.name,
                      decltype( common::service::lookup::Context::semantic)::no_reply};
-- 
2.43.0


From e8cb0280269335f4796ada997913cbfff6497737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 41/72] fix: server dies when a conversation has been
 disconnected and the service returns

---
 middleware/common/include/common/server/handle/service.h | 9 ++++++---
 .../common/include/common/service/conversation/state.h   | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/common/server/handle/service.h b/middleware/common/include/common/server/handle/service.h
index 1ba578f..5caaf85 100644
--- a/middleware/common/include/common/server/handle/service.h
+++ b/middleware/common/include/common/server/handle/service.h
@@ -163,10 +163,13 @@ namespace casual
          
          // transform::parameter( message) may have reserved a descriptor that we need to
          // unreserve! 
-         auto execute_unreserve_descriptor = execute::scope( [descriptor = parameter.descriptor]()
+         // If the conversation has ended the descriptor is already unreserved, and might be reserved by another conversation.
+         auto execute_unreserve_descriptor = execute::scope( [descriptor = parameter.descriptor, correlation = message.correlation]()
          {
-            if( descriptor)
-               common::service::conversation::Context::instance().descriptors().unreserve( descriptor);
+            auto& descriptors = common::service::conversation::Context::instance().descriptors();
+
+            if( descriptor && descriptors.contains( descriptor) && descriptors.at( descriptor).correlation == correlation)
+               descriptors.unreserve( descriptor);
          });
 
 
diff --git a/middleware/common/include/common/service/conversation/state.h b/middleware/common/include/common/service/conversation/state.h
index 79eb26d..88e018e 100644
--- a/middleware/common/include/common/service/conversation/state.h
+++ b/middleware/common/include/common/service/conversation/state.h
@@ -46,6 +46,12 @@ namespace casual
 
                void unreserve( index_type index) { lookup( *this, index) = V{};}
 
+               //! @return true if `index` is reserved
+               bool contains( index_type index) const noexcept
+               {
+                  return index.value() >= 0 && index.value() < capacity() && ! absent( m_values[ index.value()]);
+               }
+
                auto& at( index_type index) { return lookup( *this, index);}
                auto& at( index_type index) const { return lookup( *this, index);}
 
-- 
2.43.0


From 5517686a517d3a9b0364a779e862ba189a4e0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 42/72] fix: server dies when the transaction for a
 conversation can not be started

---
 .../common/source/server/handle/conversation.cpp      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/server/handle/conversation.cpp b/middleware/common/source/server/handle/conversation.cpp
index 67aefec..e47865a 100644
--- a/middleware/common/source/server/handle/conversation.cpp
+++ b/middleware/common/source/server/handle/conversation.cpp
@@ -12,6 +12,7 @@
 
 #include "common/communication/ipc.h"
 
+#include "common/exception/capture.h"
 #include "common/execute.h"
 
 namespace casual
@@ -30,8 +31,14 @@ namespace casual
 
                policy::call::Default policy;
 
-               service::call( policy, common::service::conversation::context(), message, true);
-   
+               try
+               {
+                  service::call( policy, common::service::conversation::context(), message, true);
+               }
+               catch( ...)
+               {
+                  log::line( log::category::error, exception::capture());
+               }
             }
 
 
-- 
2.43.0


From 7db90a3afd7ef9d61e549514b29e15c8b34d3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 43/72] fix: connect blocks forever if the service could not be
 executed

---
 .../source/service/conversation/context.cpp       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index f9d07a9..75f2e2b 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -304,9 +304,10 @@ namespace casual
                log::line( log::debug, "descriptor: ", descriptor, ", value: ", value);
 
                // If some thing goes wrong we unreserve the descriptor
+               auto transaction_state = message::service::transaction::State::ok;
                auto unreserve = common::execute::scope( [&]()
                { 
-                  local::terminate( m_state, descriptor, message::service::transaction::State::ok);
+                  local::terminate( m_state, descriptor, transaction_state);
                });
 
                auto target = service::lookup::reply( std::move( lookup));
@@ -370,12 +371,20 @@ namespace casual
                   // service-manager sends a service_reply if the instance dies
                   auto complete = communication::device::blocking::next(
                      communication::ipc::inbound::device(),
-                     common::array::make( message::conversation::connect::Reply::type(), message::Type::service_reply),
+                     common::array::make( message::conversation::connect::Reply::type(), message::conversation::callee::Send::type(), message::Type::service_reply),
                      correlation);
 
                   log::line( log::debug, "connect - reply: ", complete);
 
-                  if( complete.type() == message::Type::service_reply)
+                  // the callee could not execute the service, hence the conversation is terminated before it's established
+                  if( complete.type() == message::conversation::callee::Send::type())
+                  {
+                     message::conversation::callee::Send reply;
+                     serialize::native::complete( complete, reply);
+                     transaction_state = reply.transaction_state;
+                  }
+
+                  if( complete.type() != message::conversation::connect::Reply::type())
                      code::raise::error( code::xatmi::system, "failed to connect to service: ", service);
                }
 
-- 
2.43.0


From 9c87e12efc21308fdbd29a4dcdd2df2536926477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:52 +0000
Subject: [PATCH 44/72] fix: sockets were inherited by every child process

close_in_child is a flag of the descriptor (F_SETFD), setting it with F_SETFL had no
effect, and accepted/created sockets never got it: a connection the gateway closed looked
open to the remote as long as another connection's handshake process lived.
---
 .../common/source/communication/socket.cpp    | 31 ++++++++++++++++---
 .../common/source/communication/tcp.cpp       |  2 ++
 .../gateway/group/tcp/logical/connect.h       |  2 +-
 .../source/group/tcp/logical/connect.cpp      |  9 +++++-
 4 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/middleware/common/source/communication/socket.cpp b/middleware/common/source/communication/socket.cpp
index 6e2df49..12561b3 100644
--- a/middleware/common/source/communication/socket.cpp
+++ b/middleware/common/source/communication/socket.cpp
@@ -36,6 +36,27 @@ namespace casual
          
       } // socket::option
 
+      namespace local
+      {
+         namespace
+         {
+            struct Commands
+            {
+               int get;
+               int set;
+            };
+
+            //! `close_in_child` is a flag of the file descriptor, the others are status flags of the open file.
+            constexpr Commands commands( socket::option::File option) noexcept
+            {
+               if( option == socket::option::File::close_in_child)
+                  return { F_GETFD, F_SETFD};
+
+               return { F_GETFL, F_SETFL};
+            }
+         } // <unnamed>
+      } // local
+
       Socket::Socket( strong::socket::id descriptor) noexcept 
          : m_descriptor( std::move( descriptor)) 
       {
@@ -65,15 +86,17 @@ namespace casual
       void Socket::set( socket::option::File option)
       {
          log::line( verbose::log, "set - socket: ", m_descriptor, ", option: ", option);
-         auto flags = ::fcntl( m_descriptor.value(), F_GETFL);
-         posix::result( ::fcntl( m_descriptor.value(), F_SETFL, flags | std::to_underlying( option)), "failed to set file option: ", option);
+         const auto [ get, set] = local::commands( option);
+         auto flags = ::fcntl( m_descriptor.value(), get);
+         posix::result( ::fcntl( m_descriptor.value(), set, flags | std::to_underlying( option)), "failed to set file option: ", option);
       }
 
       void Socket::unset( socket::option::File option)
       {
          log::line( verbose::log, "unset - socket: ", m_descriptor, ", option: ", option);
-         auto flags = ::fcntl( m_descriptor.value(), F_GETFL);
-         posix::result( ::fcntl( m_descriptor.value(), F_SETFL, flags & ~std::to_underlying( option)), "failed to unset file option: ", option);
+         const auto [ get, set] = local::commands( option);
+         auto flags = ::fcntl( m_descriptor.value(), get);
+         posix::result( ::fcntl( m_descriptor.value(), set, flags & ~std::to_underlying( option)), "failed to unset file option: ", option);
       }
 
 
diff --git a/middleware/common/source/communication/tcp.cpp b/middleware/common/source/communication/tcp.cpp
index 0d08b13..bcc7b79 100644
--- a/middleware/common/source/communication/tcp.cpp
+++ b/middleware/common/source/communication/tcp.cpp
@@ -214,6 +214,7 @@ namespace casual
 
                      if( socket)
                      {
+                        socket.set( communication::socket::option::File::close_in_child);
                         socket.set( local::socket::option::no_delay{});
                         // make sure we honour keepalive
                         socket.set( communication::socket::option::keepalive< true>{});
@@ -318,6 +319,7 @@ namespace casual
                   }
 
                   Socket socket{ std::move( result)};
+                  socket.set( communication::socket::option::File::close_in_child);
                   socket.set( socket::option::no_delay{});
                   // make sure we honour keepalive.
                   socket.set( communication::socket::option::keepalive< true>{});
diff --git a/middleware/gateway/include/gateway/group/tcp/logical/connect.h b/middleware/gateway/include/gateway/group/tcp/logical/connect.h
index 87dec14..f699456 100644
--- a/middleware/gateway/include/gateway/group/tcp/logical/connect.h
+++ b/middleware/gateway/include/gateway/group/tcp/logical/connect.h
@@ -31,7 +31,7 @@ namespace casual
       constexpr std::string_view description( Bound value) noexcept;
 
 
-      common::Process spawn( Bound bound, const common::communication::Socket& socket);
+      common::Process spawn( Bound bound, common::communication::Socket& socket);
 
       template< typename Configuration>
       struct Pending
diff --git a/middleware/gateway/source/group/tcp/logical/connect.cpp b/middleware/gateway/source/group/tcp/logical/connect.cpp
index 7c32c32..dca8e17 100644
--- a/middleware/gateway/source/group/tcp/logical/connect.cpp
+++ b/middleware/gateway/source/group/tcp/logical/connect.cpp
@@ -8,6 +8,7 @@
 #include "gateway/message/protocol.h"
 
 #include "common/string/compose.h"
+#include "common/execute.h"
 
 
 namespace casual
@@ -38,8 +39,14 @@ namespace casual
          return "<unknown>";
       }
 
-      common::Process spawn( Bound bound, const common::communication::Socket& socket)
+      common::Process spawn( Bound bound, common::communication::Socket& socket)
       {
+         using File = communication::socket::option::File;
+
+         // only this child is to inherit the socket
+         socket.unset( File::close_in_child);
+         auto restore = execute::scope( [ &socket](){ socket.set( File::close_in_child);});
+
          return Process{ local::path(), {
             "--descriptor", std::to_string( socket.descriptor().value()),
             "--ipc", string::compose( process::handle().ipc),
-- 
2.43.0


From 5ea4d46b4cf8133a4fe706bd2fb62541816dc05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 45/72] fix: the duplex of a conversation was lost between
 protocol versions

The transform of a connect request to and from protocol 1.2 dropped the duplex, the
callee always started as sender.
---
 middleware/gateway/include/gateway/message/protocol/transform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/middleware/gateway/include/gateway/message/protocol/transform.h b/middleware/gateway/include/gateway/message/protocol/transform.h
index 7f95726..b40e20a 100644
--- a/middleware/gateway/include/gateway/message/protocol/transform.h
+++ b/middleware/gateway/include/gateway/message/protocol/transform.h
@@ -87,6 +87,7 @@ namespace casual
          result.service.name = std::move( message.service.name);
          result.service.timeout.duration = message.deadline.remaining.value_or( platform::time::unit{});
          result.trid = std::move( message.trid);
+         result.duplex = message.duplex;
          return result;
       }
 
@@ -104,6 +105,7 @@ namespace casual
             result.deadline.remaining = message.service.timeout.duration;
          
          result.trid = std::move( message.trid);
+         result.duplex = message.duplex;
          return result;
       }
 
-- 
2.43.0


From 1a271d46cc3a32f1d7d3f71943034ab1751e9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 46/72] fix: a task that loses its connection while it is
 invoked was erased during the invocation

A handler that sends on a lost connection ends up in Coordinator::failed, which erased
the unit (and moved the others) while its handler was still running.
---
 .../common/include/casual/task/concurrent.h   | 67 ++++++++++++++++---
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/middleware/common/include/casual/task/concurrent.h b/middleware/common/include/casual/task/concurrent.h
index 850a2e6..9dcd7e6 100644
--- a/middleware/common/include/casual/task/concurrent.h
+++ b/middleware/common/include/casual/task/concurrent.h
@@ -11,8 +11,13 @@
 #include "common/strong/id.h"
 #include "common/message/type.h"
 #include "common/functional.h"
+#include "common/execute.h"
+#include "common/algorithm.h"
+#include "common/algorithm/container.h"
 
+#include <list>
 #include <string_view>
+#include <utility>
 
 namespace casual
 {
@@ -189,9 +194,27 @@ namespace casual
          template< typename M>
          void operator() ( M&& message)
          {
-            if( auto found = common::algorithm::find( m_units, message.correlation))
-               if( std::invoke( *found, message) == unit::Dispatch::done)
-                  common::algorithm::container::erase( m_units, std::begin( found));
+            auto found = common::algorithm::find( m_units, message.correlation);
+
+            if( ! found)
+               return;
+
+            // The handler might end up in `failed` for its own key (a send that detects a lost connection). 
+            // We make sure the unit stays in place until the handler is done.
+            auto unit = std::begin( found);
+            Active active{ unit.operator->()};
+            auto previous = std::exchange( m_active, &active);
+            auto restore = common::execute::scope( [ this, previous](){ m_active = previous;});
+
+            if( std::invoke( *unit, message) == unit::Dispatch::pending)
+            {
+               if( ! active.failed)
+                  return;
+
+               invoke_failed( *unit);
+            }
+
+            m_units.erase( unit);
          }
 
          bool contains( const common::strong::correlation::id& correlation) const noexcept
@@ -208,14 +231,15 @@ namespace casual
          //! then remove the unit. It's optional for the unit to have a handler for message::task::Failed.
          void failed( const Key& key)
          {
-            common::algorithm::container::erase_if( m_units, [ &key]( auto& unit)
+            common::algorithm::container::erase_if( m_units, [ this, &key]( auto& unit)
             {
                if( unit != key)
                   return false;
 
-               message::task::Failed message;
-               message.correlation = unit.correlation();
-               std::invoke( unit, message);
+               if( active( unit))
+                  return false;
+
+               invoke_failed( unit);
 
                return true;
             });
@@ -234,7 +258,34 @@ namespace casual
          )
 
       private:
-         std::vector< unit_type> m_units;
+
+         //! the unit that is being invoked
+         struct Active
+         {
+            const unit_type* unit{};
+            bool failed = false;
+         };
+
+         //! @returns true if the unit is being invoked, and if so, marks it as failed
+         bool active( const unit_type& unit) noexcept
+         {
+            if( ! m_active || m_active->unit != &unit)
+               return false;
+
+            m_active->failed = true;
+            return true;
+         }
+
+         static void invoke_failed( unit_type& unit)
+         {
+            message::task::Failed message;
+            message.correlation = unit.correlation();
+            std::invoke( unit, message);
+         }
+
+         // units has to be stable, a handler might add or remove other units. 
+         std::list< unit_type> m_units;
+         Active* m_active{};
       };
       
       
-- 
2.43.0


From 78b1239bd44754d36ab1b7ee53ab974500cc5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 47/72] fix: a request to a lost connection was never answered

If the send to the remote detected that the connection was lost, the task was added after
everything associated with the connection had been failed - the caller never got a reply.
---
 .../gateway/source/group/outbound/handle.cpp  | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index a85b28a..df526b2 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -262,21 +262,17 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
-                           if( message::protocol::compatible< common::message::service::call::callee::Request>( connection->protocol()))
-                           {
-                              tcp::send( state, connection->descriptor(), message);
+                           const auto tcp = connection->descriptor();
 
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
-                           }
-                           else
-                           {
-                              // we need to do this first, since we're doing a destructive transform on the message (we cant use after moved)
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
+                           // we need to do this before we send, if the send fails the connection is lost and everything 
+                           // that is associated with it is failed.
+                           state.tasks.add( detail::create::task( state, message, tcp));
+                           transaction::associate_and_involve( state, message, tcp);
 
-                              tcp::send( state, connection->descriptor(), message::protocol::transform::to< common::message::service::call::v1_2::callee::Request>( std::move( message)));
-                           }
+                           if( message::protocol::compatible< common::message::service::call::callee::Request>( connection->protocol()))
+                              tcp::send( state, tcp, message);
+                           else
+                              tcp::send( state, tcp, message::protocol::transform::to< common::message::service::call::v1_2::callee::Request>( std::move( message)));
 
                         };
                      }
@@ -502,10 +498,12 @@ namespace casual
 
                            auto tcp = state.connections.partner( descriptor);
 
-                           tcp::send( state, tcp, message);
+                           // we need to do this before we send, if the send fails the connection is lost and everything 
+                           // that is associated with it is failed.
                            state.tasks.add( detail::create::task( state, message, tcp));
-
                            transaction::associate_and_involve( state, message, tcp);
+
+                           tcp::send( state, tcp, message);
                         };
                      }  
                   } // basic
-- 
2.43.0


From a3883a94bb1d52771c7d0ee244a5e2217ee8d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 48/72] fix: a call without reply kept the outbound connection
 busy for ever

The task for the reply, that never comes, was never removed - the connection was never
idle and the outbound group could not shut down.
---
 middleware/gateway/source/group/outbound/handle.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index df526b2..5a2e7ad 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -266,7 +266,10 @@ namespace casual
 
                            // we need to do this before we send, if the send fails the connection is lost and everything 
                            // that is associated with it is failed.
-                           state.tasks.add( detail::create::task( state, message, tcp));
+                           // no one is waiting for a reply to a _no reply_ call, and there will be none.
+                           if( ! flag::contains( message.flags, common::message::service::call::request::Flag::no_reply))
+                              state.tasks.add( detail::create::task( state, message, tcp));
+
                            transaction::associate_and_involve( state, message, tcp);
 
                            if( message::protocol::compatible< common::message::service::call::callee::Request>( connection->protocol()))
-- 
2.43.0


From 42330c5a11297193d02e7d4ccdddb746a9bddc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:52 +0000
Subject: [PATCH 49/72] fix: a conversation through a lost connection never
 ended

The task of a conversation did not handle that its connection failed, and was not removed
if the remote could not establish the conversation. tpconnect ignored the code of the reply.
---
 .../source/service/conversation/context.cpp   | 14 ++++++++
 .../gateway/source/group/outbound/handle.cpp  | 34 ++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index 75f2e2b..f39b5e2 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -386,6 +386,20 @@ namespace casual
 
                   if( complete.type() != message::conversation::connect::Reply::type())
                      code::raise::error( code::xatmi::system, "failed to connect to service: ", service);
+
+                  message::conversation::connect::Reply reply;
+                  serialize::native::complete( complete, reply);
+
+                  // a remote domain might not be able to establish the conversation
+                  switch( reply.code.result)
+                  {
+                     case code::xatmi::ok: break;
+                     case code::xatmi::no_entry:
+                     case code::xatmi::timeout:
+                        code::raise::error( reply.code.result, "failed to connect to service: ", service);
+                     default:
+                        code::raise::error( code::xatmi::system, "failed to connect to service: ", service);
+                  }
                }
 
                unreserve.release();
diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 5a2e7ad..1f46f14 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -298,6 +298,7 @@ namespace casual
                               strong::ipc::id ipc;
                               platform::time::point::type start;
                               common::transaction::ID trid;
+                              bool connected = false;
 
                            };
 
@@ -316,6 +317,14 @@ namespace casual
 
                                  state.multiplex.send( shared->ipc, message);
 
+                                 if( message.code.result != decltype( message.code.result)::ok)
+                                 {
+                                    // there is no conversation
+                                    service::metric( state, message, std::move( *shared), message.code);
+                                    return task::concurrent::unit::Dispatch::done;
+                                 }
+
+                                 shared->connected = true;
                                  return task::concurrent::unit::Dispatch::pending;
                               },
                               [ &state, shared]( common::message::conversation::callee::Send& message, strong::socket::id descriptor)
@@ -342,8 +351,31 @@ namespace casual
                                  service::metric( state, message, std::move( *shared), { .result = code::xatmi::ok});
 
                                  return task::concurrent::unit::Dispatch::done;
+                              },
+                              [ &state, shared]( casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
+                              {
+                                 Trace trace{ "gateway::group::outbound::handle::local::internal::conversation::task task::Failed"};
+
+                                 constexpr auto code = common::code::xatmi::service_error;
+
+                                 if( shared->connected)
+                                 {
+                                    common::message::conversation::callee::Send send;
+                                    send.correlation = message.correlation;
+                                    send.duplex = decltype( send.duplex)::terminated;
+                                    send.code.result = code;
+                                    state.multiplex.send( shared->ipc, send);
+                                 }
+                                 else
+                                 {
+                                    common::message::conversation::connect::Reply reply;
+                                    reply.correlation = message.correlation;
+                                    reply.code.result = code;
+                                    state.multiplex.send( shared->ipc, reply);
+                                 }
+
+                                 service::metric( state, message, std::move( *shared), { .result = code});
                               }
-                              
                            };
                         }
 
-- 
2.43.0


From 7134fbedabb2190236051f9448e4b9162001f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:58 +0000
Subject: [PATCH 50/72] fix: a connection could be marked as disconnecting
 twice

A second disconnect (a disconnect request from the remote, shutdown, removed configuration)
added another entry, and when the connection became idle it was lost twice - which asserts.
---
 .../gateway/include/gateway/group/outbound/state.h  |  3 +++
 middleware/gateway/source/group/outbound/handle.cpp | 13 +++++++++++--
 middleware/gateway/source/group/outbound/state.cpp  | 10 ++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/middleware/gateway/include/gateway/group/outbound/state.h b/middleware/gateway/include/gateway/group/outbound/state.h
index e2a9252..19712ac 100644
--- a/middleware/gateway/include/gateway/group/outbound/state.h
+++ b/middleware/gateway/include/gateway/group/outbound/state.h
@@ -277,6 +277,9 @@ namespace casual
          std::string alias;
          platform::size::type order{};
 
+         //! mark the connection as disconnecting. `directive` remove has precedence if the connection already is disconnecting
+         void disconnect( common::strong::socket::id descriptor, state::disconnect::Directive directive);
+
          //! `descriptor? has failed, @returns "all" extracted state associated with the `descriptor`
          state::extract::Result failed( common::strong::socket::id descriptor); 
 
diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 1f46f14..894c12c 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -986,10 +986,19 @@ namespace casual
 
             state.tasks.failed( descriptor);
 
+            const auto removed = algorithm::any_of( state.disconnecting, [ descriptor]( auto& disconnect)
+            {
+               return disconnect == descriptor && disconnect.directive == state::disconnect::Directive::remove;
+            });
+
             // extract all state associated with the descriptor
             auto extracted = state.failed( descriptor);
             log::line( verbose::log, "extracted: ", extracted);
 
+            // a removed connection should not be (re)connected, even if it's lost before it's idle.
+            if( removed)
+               extracted.information.configuration.enabled = false;
+
             return { std::move( extracted.information.configuration), std::move( extracted.information.domain)};
          }
 
@@ -1001,7 +1010,7 @@ namespace casual
             // unadvertise all associated services and queues, if any.
             handle::unadvertise( state, descriptor);
 
-            state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::disconnect});
+            state.disconnect( descriptor, state::disconnect::Directive::disconnect);
          }
 
          void remove( State& state, common::strong::socket::id descriptor)
@@ -1012,7 +1021,7 @@ namespace casual
             // unadvertise all associated services and queues, if any.
             handle::unadvertise( state, descriptor);
 
-            state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::remove});
+            state.disconnect( descriptor, state::disconnect::Directive::remove);
          }
          
       } // connection
diff --git a/middleware/gateway/source/group/outbound/state.cpp b/middleware/gateway/source/group/outbound/state.cpp
index a287492..4e1f325 100644
--- a/middleware/gateway/source/group/outbound/state.cpp
+++ b/middleware/gateway/source/group/outbound/state.cpp
@@ -133,6 +133,16 @@ namespace casual
 
       } // state
 
+      void State::disconnect( common::strong::socket::id descriptor, state::disconnect::Directive directive)
+      {
+         auto found = algorithm::find( disconnecting, descriptor);
+
+         if( ! found)
+            disconnecting.push_back( state::Disconnect{ descriptor, directive});
+         else if( directive == state::disconnect::Directive::remove)
+            found->directive = directive;
+      }
+
       state::extract::Result State::failed( common::strong::socket::id descriptor)
       {
          Trace trace{ "gateway::group::outbound::State::failed"};
-- 
2.43.0


From 8cf9e4d55e3b30a1589665f7738fd718decb482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:58 +0000
Subject: [PATCH 51/72] fix: a configuration update did not know about
 connections that are not established

An address that was being connected was added once more, a removed one was connected
anyway, and a removed connection that was lost before it was idle was connected again.
---
 .../gateway/group/tcp/logical/connect.h       |   1 +
 .../gateway/source/group/outbound/handle.cpp  |   7 ++
 .../gateway/source/group/outbound/main.cpp    | 115 +++++++++++++++++-
 3 files changed, 118 insertions(+), 5 deletions(-)

diff --git a/middleware/gateway/include/gateway/group/tcp/logical/connect.h b/middleware/gateway/include/gateway/group/tcp/logical/connect.h
index f699456..a59fae2 100644
--- a/middleware/gateway/include/gateway/group/tcp/logical/connect.h
+++ b/middleware/gateway/include/gateway/group/tcp/logical/connect.h
@@ -89,6 +89,7 @@ namespace casual
          }
 
          auto& connections() const noexcept { return m_connectors;}
+         auto& connections() noexcept { return m_connectors;}
 
          CASUAL_LOG_SERIALIZE( 
             CASUAL_SERIALIZE_NAME( m_connectors, "connectors");
diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 894c12c..b0f7bdd 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -833,6 +833,13 @@ namespace casual
                         auto inbound = state.connections.find_internal( descriptors.ipc);
                         CASUAL_ASSERT( inbound);
 
+                        // the connection might have been removed from the configuration during the connect phase
+                        if( auto information = state.connections.information( descriptors.tcp); information && ! information->configuration.enabled)
+                        {
+                           handle::connection::remove( state, descriptors.tcp);
+                           return;
+                        }
+
                         // a new connection has been established, we need to register this with discovery.
                         casual::domain::discovery::provider::registration( *inbound, casual::domain::discovery::provider::Ability::discover);
 
diff --git a/middleware/gateway/source/group/outbound/main.cpp b/middleware/gateway/source/group/outbound/main.cpp
index b76181f..14d4d0f 100644
--- a/middleware/gateway/source/group/outbound/main.cpp
+++ b/middleware/gateway/source/group/outbound/main.cpp
@@ -82,6 +82,10 @@ namespace casual
                {
                   Trace trace{ "gateway::group::outbound::local::external::reconnect"};
 
+                  // the connection has been removed from the configuration
+                  if( ! configuration.enabled)
+                     return;
+
                   if( state.runlevel == decltype( state.runlevel())::running)
                   {
                      log::line( log::category::information, "try to reconnect: '", configuration.address, "'");
@@ -90,6 +94,105 @@ namespace casual
                   }
                }
 
+               //! @returns configuration for all connections (that are not removed), regardless of how far they've come 
+               auto configuration( const State& state)
+               {
+                  std::vector< configuration::model::gateway::outbound::Connection> result;
+
+                  auto is_removed = [ &state]( auto& information)
+                  {
+                     auto found = algorithm::find( state.disconnecting, information.descriptor);
+                     return found && found->directive == outbound::state::disconnect::Directive::remove;
+                  };
+
+                  for( auto& information : state.connections.information())
+                     if( ! is_removed( information))
+                        result.push_back( information.configuration);
+
+                  for( auto& connector : state.connections.pending().connections())
+                     if( connector.configuration.enabled)
+                        result.push_back( connector.configuration);
+
+                  for( auto& pending : state.connect.pending)
+                     result.push_back( pending.prospect.configuration);
+
+                  for( auto& prospect : state.connect.prospects)
+                     result.push_back( prospect.configuration);
+
+                  return result;
+               }
+
+               //! applies `action` on the configuration for connections that are not established yet, with the given address 
+               void unestablished( State& state, const std::string& address, auto action)
+               {
+                  auto apply = [ &]( auto& configuration)
+                  { 
+                     if( configuration.address == address)
+                        action( configuration);
+                  };
+
+                  for( auto& connector : state.connections.pending().connections())
+                     apply( connector.configuration);
+
+                  for( auto& pending : state.connect.pending)
+                     apply( pending.prospect.configuration);
+
+                  for( auto& prospect : state.connect.prospects)
+                     apply( prospect.configuration);
+               }
+
+               void replace( State& state, configuration::model::gateway::outbound::Connection configuration)
+               {
+                  external::unestablished( state, configuration.address, [ &configuration]( auto& value){ value = configuration;});
+                  state.connections.replace_configuration( std::move( configuration));
+               }
+
+               void add( State& state, configuration::model::gateway::outbound::Connection configuration)
+               {
+                  // it might have been removed, but not gone yet.
+                  if( auto descriptor = state.connections.external_descriptor( configuration.address))
+                  {
+                     if( auto found = algorithm::find( state.disconnecting, descriptor))
+                        found->directive = outbound::state::disconnect::Directive::disconnect;
+
+                     external::replace( state, std::move( configuration));
+                     return;
+                  }
+
+                  auto has_address = [ &configuration]( auto& connector){ return connector.configuration.address == configuration.address;};
+
+                  if( algorithm::any_of( state.connections.pending().connections(), has_address))
+                  {
+                     external::replace( state, std::move( configuration));
+                     return;
+                  }
+
+                  state.connect.prospects.emplace_back( std::move( configuration));
+               }
+
+               void remove( State& state, const std::string& address)
+               {
+                  if( auto descriptor = state.connections.external_descriptor( address))
+                  {
+                     outbound::handle::connection::remove( state, descriptor);
+                     return;
+                  }
+
+                  algorithm::container::erase_if( state.connect.prospects, [ &address]( auto& prospect){ return prospect.configuration.address == address;});
+
+                  algorithm::container::erase_if( state.connect.pending, [ &]( auto& pending)
+                  {
+                     if( pending.prospect.configuration.address != address)
+                        return false;
+
+                     state.directive.write.remove( pending.socket.descriptor());
+                     return true;
+                  });
+
+                  // the logical connect phase is in progress, we disconnect when it's done.
+                  external::unestablished( state, address, []( auto& configuration){ configuration.enabled = false;});
+               }
+
             } // external
 
             namespace management
@@ -125,8 +228,11 @@ namespace casual
 
                            auto equal_address = []( auto& lhs, auto& rhs){ return lhs.address == rhs.address;};
 
+                           // all connections we have, regardless of how far they've come.
+                           auto current = external::configuration( state);
+
                            auto change = casual::configuration::model::change::concrete::calculate( 
-                              state.connections.configuration(), 
+                              current, 
                               algorithm::container::vector::create( enabled), 
                               equal_address);
 
@@ -135,20 +241,19 @@ namespace casual
                            // add
                            {
                               for( auto& configuration : change.added)
-                                 state.connect.prospects.emplace_back( std::move( configuration));
+                                 external::add( state, std::move( configuration));
                            }
 
                            // modify
                            {
                               for( auto& configuration : change.modified)
-                                 state.connections.replace_configuration( std::move( configuration));
+                                 external::replace( state, std::move( configuration));
                            }
 
                            // remove
                            {
                               for( auto& configuration : change.removed)
-                                 if( auto descriptor = state.connections.external_descriptor( configuration.address))
-                                    outbound::handle::connection::remove( state, descriptor);
+                                 external::remove( state, configuration.address);
                            }
 
                            // we might got some addresses to try...
-- 
2.43.0


From a0225f2aab73cb126b2f5431d34f9d0b8f9f62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 52/72] fix: gateway inbound replied to prepare, commit and
 rollback with the trid of this domain

---
 middleware/gateway/source/group/inbound/task/create.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 2934185..7053702 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -502,6 +502,8 @@ namespace casual
 
                using reply_type = common::message::reverse::type_t< M>;
 
+               auto origin_trid = message.trid;
+
                // map to the internal trid, we expect to find this in cache
                if( auto found = state.transaction_cache.find( common::transaction::id::range::global( message.trid)))
                {
@@ -516,7 +518,7 @@ namespace casual
                }
 
                return task_unit{ descriptor, message.correlation,
-                  [ &state, origin_trid = message.trid]( reply_type& reply, strong::socket::id descriptor)
+                  [ &state, origin_trid = std::move( origin_trid)]( reply_type& reply, strong::socket::id descriptor)
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_transaction task"};
 
-- 
2.43.0


From e2212029f64961b76bde933aadbbef93d3eeb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 53/72] fix: gateway inbound lost a connection twice when it
 was asked to disconnect twice

---
 middleware/gateway/source/group/inbound/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 418bffc..bd5c048 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -253,7 +253,8 @@ namespace casual
                            common::log::line( verbose::log, "state.transaction_cache: ", state.transaction_cache);
 
                            // connection still got pending stuff to do, we keep track until its 'idle'.
-                           state.pending.disconnects.push_back( descriptor);
+                           if( ! algorithm::contains( state.pending.disconnects, descriptor))
+                              state.pending.disconnects.push_back( descriptor);
                         }
 
                         return true;
-- 
2.43.0


From a983cefd19d1fc1401f910a7fda2f19e33f36344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 54/72] fix: gateway inbound never answered queue requests when
 queue-manager was offline

---
 .../source/group/inbound/task/create.cpp      | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 7053702..9fd1210 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -22,6 +22,16 @@ namespace casual
       {
          namespace
          {
+            // tries to send to the "partner ipc", if it's full/busy we try later via state.multiplex.send abstraction
+            template< typename M>
+            void send_to_partner_ipc( State& state, strong::socket::id descriptor, M&& message)
+            {
+               if( auto found = state.connections.find_internal( descriptor))
+                  state.multiplex.send( found->connector().handle().ipc(), std::forward< M>( message));
+               else
+                  log::error( code::casual::internal_correlation, "failed to correlate the ipc partner for tcp descriptor:  ", descriptor);
+            }
+
             namespace lookup
             {
                template< typename C>
@@ -93,22 +103,11 @@ namespace casual
 
                   //! if queue-manager is offline for some reason, we emulate "no-ent";
                   if( ! state.multiplex.send( ipc::manager::optional::queue(), request))
-                     ipc::inbound().push( common::message::reverse::type( request));
+                     local::send_to_partner_ipc( state, descriptor, common::message::reverse::type( request));
                }
 
             } // lookup
 
-            // tries to send to the "partner ipc", if it's full/busy we try later via state.multiplex.send abstraction
-            template< typename M>
-            void send_to_partner_ipc( State& state, strong::socket::id descriptor, M&& message)
-            {
-               if( auto found = state.connections.find_internal( descriptor))
-                  state.multiplex.send( found->connector().handle().ipc(), std::forward< M>( message));
-               else
-                  log::error( code::casual::internal_correlation, "failed to correlate the ipc partner for tcp descriptor:  ", descriptor);
-            }
-         
-
             template< typename M>
             void fake_service_error_reply( State& state, strong::socket::id descriptor, M&& request, common::code::xatmi code)
             {
-- 
2.43.0


From d2b58215128b71d2ce2aaa69f1be9dd51f53f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 55/72] fix: gateway inbound forgot the branch of a transaction
 when the request was answered before the branch was known

---
 middleware/gateway/source/group/inbound/handle.cpp | 14 +++++++++++++-
 .../gateway/source/group/inbound/task/create.cpp   |  6 ------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index bd5c048..56c258e 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -220,7 +220,19 @@ namespace casual
 
                   namespace coordinate::inbound
                   {
-                     auto reply = internal::basic_task< common::message::transaction::inbound::branch::Reply>;
+                     auto reply( State& state)
+                     {
+                        return [ &state]( common::message::transaction::inbound::branch::Reply& message, strong::ipc::descriptor::id descriptor)
+                        {
+                           Trace trace{ "gateway::group::inbound::handle::local::internal::transaction::coordinate::inbound::reply"};
+                           common::log::line( verbose::log, "message: ", message);
+
+                           // the branch is associated with the connection, regardless if the task that asked for it is done
+                           state.transaction_cache.add( message.trid, state.connections.partner( descriptor));
+
+                           state.tasks( message);
+                        };
+                     }
                   } // coordinate::inbound   
 
                } // transaction
diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 9fd1210..2af00f8 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -266,8 +266,6 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::service::call transaction::inbound::branch::Reply"};
 
-                     state.transaction_cache.add( reply.trid, descriptor);
-
                      shared->message.trid = std::move( reply.trid);
 
                      if( shared->lookup)
@@ -375,8 +373,6 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation transaction::inbound::branch::Reply"};
 
-                     state.transaction_cache.add( reply.trid, descriptor);
-
                      shared->message.trid = std::move( reply.trid);
 
                      if( shared->lookup)
@@ -480,8 +476,6 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_queue transaction::lookup::Reply"};
 
-                     state.transaction_cache.add( reply.trid, descriptor);
-
                      shared->message.trid = std::move( reply.trid);
                      shared->wait_for_branch = false;
 
-- 
2.43.0


From 381607fc4da830970cd45a9fe409a10010a55c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 56/72] fix: gateway inbound kept requests that expects no
 reply for ever, and the connection could not be disconnected

---
 .../source/group/inbound/task/create.cpp      | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 2af00f8..a01f285 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -108,9 +108,23 @@ namespace casual
 
             } // lookup
 
+            bool no_reply( const common::message::service::call::callee::Request& message)
+            {
+               return flag::contains( message.flags, common::message::service::call::request::Flag::no_reply);
+            }
+
+            bool no_reply( const common::message::conversation::connect::callee::Request& message)
+            {
+               return false;
+            }
+
             template< typename M>
             void fake_service_error_reply( State& state, strong::socket::id descriptor, M&& request, common::code::xatmi code)
             {
+               // nobody expects a reply
+               if( local::no_reply( request))
+                  return;
+
                auto reply = common::message::reverse::type( request);
                reply.code.result = code;
                local::send_to_partner_ipc( state, descriptor, std::move( reply));
@@ -232,8 +246,15 @@ namespace casual
                // make sure the ipc partner to the tcp socket gets the reply
                shared->message.process = state.connections.process_handle( descriptor);
 
+               // there will not be a reply for a _no-reply_ request, we're done when it's been taken care of
+               constexpr auto dispatch = []( auto& message)
+               {
+                  using Enum = casual::task::concurrent::unit::Dispatch;
+                  return local::no_reply( message) ? Enum::done : Enum::pending;
+               };
+
                return task_unit{ descriptor, message.correlation,
-                  [ &state, shared]( common::message::service::lookup::Reply& reply, strong::socket::id descriptor) mutable
+                  [ &state, shared, dispatch]( common::message::service::lookup::Reply& reply, strong::socket::id descriptor) mutable
                   {
                      Trace trace{ "gateway::group::inbound::task::create::service::call lookup::Reply"};
 
@@ -246,9 +267,10 @@ namespace casual
 
                            // If the call wasn't in transaction, or we've branched the trid already.
                            // If the call failed, we've "sent" the reply, 
-                           if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
-                              local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                           if( shared->origin_trid && shared->origin_trid == shared->message.trid)
+                              return casual::task::concurrent::unit::Dispatch::pending;
 
+                           local::send::service_request( state, descriptor, *shared->lookup, shared->message);
                            break;
                         }
                         case Enum::absent:
@@ -259,19 +281,20 @@ namespace casual
                            break;
                      }
                      
-                     return casual::task::concurrent::unit::Dispatch::pending;
+                     return dispatch( shared->message);
 
                   },
-                  [ &state, shared]( common::message::transaction::inbound::branch::Reply& reply, strong::socket::id descriptor) mutable
+                  [ &state, shared, dispatch]( common::message::transaction::inbound::branch::Reply& reply, strong::socket::id descriptor) mutable
                   {
                      Trace trace{ "gateway::group::inbound::task::create::service::call transaction::inbound::branch::Reply"};
 
                      shared->message.trid = std::move( reply.trid);
 
-                     if( shared->lookup)
-                        local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                     if( ! shared->lookup)
+                        return casual::task::concurrent::unit::Dispatch::pending;
 
-                     return casual::task::concurrent::unit::Dispatch::pending;
+                     local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                     return dispatch( shared->message);
                   },
                   [ &state, shared]( common::message::service::call::Reply& reply, strong::socket::id descriptor)
                   {
-- 
2.43.0


From a6fea4a3205e22b39585d48ad8ddbdf2298d72f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:49 +0000
Subject: [PATCH 57/72] fix: gateway inbound left reservations, and
 conversations, behind when the connection was lost

---
 .../source/group/inbound/task/create.cpp      | 51 ++++++++++++-------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index a01f285..157c939 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -86,6 +86,19 @@ namespace casual
                   state.multiplex.send( ipc::manager::service(), request);
                }
 
+               //! discards the lookup, regardless if it's pending or if we've got a reservation
+               template< typename M>
+               void discard( State& state, const M& message, const std::string& service)
+               {
+                  common::message::service::lookup::discard::Request request;
+                  request.correlation = message.correlation;
+                  request.execution = message.execution;
+                  request.reply = false;
+                  request.requested = service;
+
+                  state.multiplex.send( ipc::manager::service(), request);
+               }
+
                template< typename M>
                void queue( State& state, strong::socket::id descriptor, const M& message)
                {
@@ -217,6 +230,13 @@ namespace casual
             } // send
 
 
+            //! @returns true if the request is in transaction, and has not got the (branched) trid of this domain yet.
+            template< typename S>
+            bool waits_for_branch( const S& shared)
+            {
+               return shared.origin_trid && shared.origin_trid == shared.message.trid;
+            }
+
             auto handle_service( State& state, strong::socket::id descriptor, common::message::service::call::callee::Request&& message)
             {
                Trace trace{ "gateway::group::inbound::task::create::local::handle_service"};
@@ -267,7 +287,7 @@ namespace casual
 
                            // If the call wasn't in transaction, or we've branched the trid already.
                            // If the call failed, we've "sent" the reply, 
-                           if( shared->origin_trid && shared->origin_trid == shared->message.trid)
+                           if( local::waits_for_branch( *shared))
                               return casual::task::concurrent::unit::Dispatch::pending;
 
                            local::send::service_request( state, descriptor, *shared->lookup, shared->message);
@@ -313,17 +333,9 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
-                     {
-                        // we have a pending lookup, discard.
-                        common::message::service::lookup::discard::Request request;
-                        request.correlation = message.correlation;
-                        request.execution = message.execution;
-                        request.reply = false;
-                        request.requested = shared->message.service.name;
-
-                        state.multiplex.send( ipc::manager::service(), request);
-                     }
+                     // we have a pending lookup, or a reservation that will not be used, discard.
+                     if( ! shared->lookup || local::waits_for_branch( *shared))
+                        local::lookup::discard( state, message, shared->message.service.name);
 
                      return casual::task::concurrent::unit::Dispatch::done;
                   }
@@ -376,7 +388,7 @@ namespace casual
                            shared->lookup = std::move( reply);
 
                            // if the call wasn't in transaction, or we've branched the trid already
-                           if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                           if( ! local::waits_for_branch( *shared))
                               local::send::service_request( state, descriptor, *shared->lookup, shared->message);
 
                            break;
@@ -430,16 +442,17 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
+                     // we have a pending lookup, or a reservation that will not be used, discard.
+                     if( ! shared->lookup || local::waits_for_branch( *shared))
+                        local::lookup::discard( state, message, shared->message.service.name);
+                     else
                      {
-                        // we have a pending lookup, discard.
-                        common::message::service::lookup::discard::Request request;
+                        // the other side of the conversation is gone.
+                        common::message::conversation::Disconnect request;
                         request.correlation = message.correlation;
                         request.execution = message.execution;
-                        request.reply = false;
-                        request.requested = shared->message.service.name;
 
-                        state.multiplex.send( ipc::manager::service(), request);
+                        state.multiplex.send( shared->lookup->process.ipc, request);
                      }
 
                      return casual::task::concurrent::unit::Dispatch::done;
-- 
2.43.0


From bd007d348f3d35be069cd26767eacb4ec98255c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:49 +0000
Subject: [PATCH 58/72] fix: gateway inbound kept conversations that were
 refused, and did not cope with a conversation that is not established

---
 .../gateway/source/group/inbound/handle.cpp   | 28 +++++++++----------
 .../source/group/inbound/task/create.cpp      | 14 ++++++++--
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 56c258e..f9d00fc 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -37,19 +37,6 @@ namespace casual
          {
             namespace internal
             {
-               template< typename Message>
-               auto basic_forward( State& state)
-               {
-                  return [ &state]( Message& message, strong::ipc::descriptor::id descriptor)
-                  {
-                     Trace trace{ "gateway::group::inbound::handle::local::basic_forward"};
-                     common::log::line( verbose::log, "forward message: ", message);
-                     common::log::line( verbose::log, "descriptor: ", descriptor);
-
-                     tcp::send( state, state.connections.partner( descriptor), message);
-                  };
-               }
-
                template< typename Message>
                auto basic_task( State& state)
                {
@@ -84,7 +71,20 @@ namespace casual
                {
                   namespace connect
                   {
-                     auto reply = internal::basic_forward< common::message::conversation::connect::Reply>;
+                     auto reply( State& state)
+                     {
+                        return [ &state]( common::message::conversation::connect::Reply& message, strong::ipc::descriptor::id descriptor)
+                        {
+                           Trace trace{ "gateway::group::inbound::handle::conversation::connect::reply"};
+                           common::log::line( verbose::log, "message: ", message);
+
+                           tcp::send( state, state.connections.partner( descriptor), message);
+
+                           // if the conversation is not established we need to clean the task
+                           if( message.code.result != decltype( message.code.result)::ok)
+                              state.tasks.remove( message.correlation);
+                        };
+                     }
                      
                   } // connect
 
diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 157c939..6bf12cd 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -420,7 +420,12 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation Send"};
 
-                     CASUAL_ASSERT( shared->lookup);
+                     // not possible to send before the conversation is established
+                     if( ! shared->lookup || local::waits_for_branch( *shared))
+                     {
+                        log::error( code::casual::invalid_semantics, "conversation is not established: ", message.correlation, " - action: discard message");
+                        return casual::task::concurrent::unit::Dispatch::pending;
+                     }
 
                      // we send the message to the looked up destination
                      state.multiplex.send( shared->lookup->process.ipc, message);
@@ -432,7 +437,12 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation Disconnect"};
 
-                     CASUAL_ASSERT( shared->lookup);
+                     // the initiator might give up before the conversation is established
+                     if( ! shared->lookup || local::waits_for_branch( *shared))
+                     {
+                        local::lookup::discard( state, message, shared->message.service.name);
+                        return casual::task::concurrent::unit::Dispatch::done;
+                     }
 
                      // we send the message to the looked up destination
                      state.multiplex.send( shared->lookup->process.ipc, message);
-- 
2.43.0


From 437d0bf3f43c6a4fdbde8941101a9c038b18fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:59 +0000
Subject: [PATCH 59/72] fix: gateway inbound lost replies to queue requests
 when the connection was disconnected

---
 .../gateway/source/group/inbound/handle.cpp   |  7 ++++++
 .../source/group/inbound/task/create.cpp      | 22 ++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index f9d00fc..7022efb 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -124,10 +124,14 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
+                           auto correlation = message.correlation;
+
                            if( message::protocol::compatible< casual::queue::ipc::message::group::dequeue::Reply>( connection->protocol()))
                               inbound::tcp::send( state, connection->descriptor(), message);
                            else
                               inbound::tcp::send( state, connection->descriptor(), message::protocol::transform::to< casual::queue::ipc::message::group::dequeue::v1_2::Reply>( std::move( message)));
+
+                           state.tasks.remove( correlation);
                         };
                      }
                   } // dequeue
@@ -144,11 +148,14 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
+                           auto correlation = message.correlation;
+
                            if( message::protocol::compatible< casual::queue::ipc::message::group::enqueue::Reply>( connection->protocol()))
                               inbound::tcp::send( state, connection->descriptor(), message);
                            else
                               inbound::tcp::send( state, connection->descriptor(), message::protocol::transform::to< casual::queue::ipc::message::group::enqueue::v1_2::Reply>( std::move( message)));
 
+                           state.tasks.remove( correlation);
                         };
                      }
 
diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 6bf12cd..9f502fc 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -475,7 +475,7 @@ namespace casual
             {
                Trace trace{ "gateway::group::inbound::task::create::local::handle_queue"};
 
-               // The enqueue/dequeue Reply we just forward to the corresponding tcp socket
+               // The enqueue/dequeue Reply we just forward to the corresponding tcp socket, and remove the task
 
                local::lookup::queue( state, descriptor, message);
 
@@ -504,8 +504,20 @@ namespace casual
                shared->message = std::move( message);
                shared->message.process = state.connections.process_handle( descriptor);
 
+               // we're done when we get the reply. Unless it's a blocking request, that we could wait for "forever".
+               constexpr auto dispatch = []( auto& shared)
+               {
+                  using Enum = casual::task::concurrent::unit::Dispatch;
+
+                  if constexpr( requires { shared.message.block;})
+                     if( shared.message.block && shared.lookup->process.ipc)
+                        return Enum::done;
+
+                  return Enum::pending;
+               };
+
                return task_unit{ descriptor, message.correlation,
-                  [ &state, shared]( casual::queue::ipc::message::lookup::Reply& reply, strong::socket::id descriptor) mutable
+                  [ &state, shared, dispatch]( casual::queue::ipc::message::lookup::Reply& reply, strong::socket::id descriptor) mutable
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_queue lookup::Reply"};
 
@@ -516,9 +528,9 @@ namespace casual
                         return casual::task::concurrent::unit::Dispatch::pending;
 
                      local::send::queue_request( state, descriptor, *shared->lookup, shared->message);
-                     return casual::task::concurrent::unit::Dispatch::done;
+                     return dispatch( *shared);
                   },
-                  [ &state, shared]( common::message::transaction::inbound::branch::Reply& reply, strong::socket::id descriptor) mutable
+                  [ &state, shared, dispatch]( common::message::transaction::inbound::branch::Reply& reply, strong::socket::id descriptor) mutable
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_queue transaction::lookup::Reply"};
 
@@ -529,7 +541,7 @@ namespace casual
                         return casual::task::concurrent::unit::Dispatch::pending;
                      
                      local::send::queue_request( state, descriptor, *shared->lookup, shared->message);
-                     return casual::task::concurrent::unit::Dispatch::done;
+                     return dispatch( *shared);
                   }
                };
             }
-- 
2.43.0


From bbbfee0a490d0d8ced28562bfc943639fd7db822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 60/72] fix: error callbacks of the send coordinator that send
 other messages invalidated the destination that failed

---
 .../include/common/communication/ipc/send.h   | 11 ++++++-
 .../common/source/communication/ipc/send.cpp  | 32 +++++++++++++------
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/middleware/common/include/common/communication/ipc/send.h b/middleware/common/include/common/communication/ipc/send.h
index c21b2ab..a7639c9 100644
--- a/middleware/common/include/common/communication/ipc/send.h
+++ b/middleware/common/include/common/communication/ipc/send.h
@@ -68,6 +68,8 @@ namespace casual
 
             strong::file::descriptor::id descriptor() const noexcept { return m_destination.socket().descriptor();}
 
+            //! @returns true if there's nothing more to do for this _remote_. If there are messages left 
+            //!   in the queue, these failed.
             bool send( select::Directive& directive) noexcept;
 
             inline Remote& push( Message&& message)
@@ -78,6 +80,10 @@ namespace casual
 
             void failed( select::Directive& directive);
 
+            //! invokes the callback (if any) for all messages that are left, and discards the messages.
+            //! @attention the callbacks might use the owner of this _remote_ to send other messages
+            void error();
+
             inline platform::size::type size() const noexcept { return m_queue.size();}
 
             inline auto& destination() const noexcept { return m_destination;}
@@ -181,6 +187,9 @@ namespace casual
 
          strong::correlation::id send( const strong::ipc::id& ipc, coordinator::Message&& message);
 
+         //! removes the destination, and invokes the callback for the messages that could not be sent
+         void done( std::vector< coordinator::Remote>::iterator where);
+
          //! Take care of devices that can "connect"
          template< typename D>
          auto send_dispatch( D& device, coordinator::Message&& message, traits::priority::tag< 1>) 
@@ -202,7 +211,7 @@ namespace casual
             if( auto found = algorithm::find( m_destinations, device.connector().process().ipc))
             {
                if( found->push( std::move( message)).send( *m_directive))
-                  m_destinations.erase( std::begin( found));
+                  done( std::begin( found));
 
                return result;
             }
diff --git a/middleware/common/source/communication/ipc/send.cpp b/middleware/common/source/communication/ipc/send.cpp
index 4c62f28..22a35a8 100644
--- a/middleware/common/source/communication/ipc/send.cpp
+++ b/middleware/common/source/communication/ipc/send.cpp
@@ -55,17 +55,22 @@ namespace casual
             catch( ...)
             {
                log::line( log, exception::capture(), " failed to send to destination: ", m_destination, " - action: invoke callback (if any) and discard for all pending messages to the destination");
-               failed( directive);
+               // we're done with this "remote", what's left in the queue will not be sent
+               directive.write.remove( descriptor());
                return true;
             }
          }
 
          void Remote::failed( select::Directive& directive)
          {
-            for( auto& message : m_queue)
-               message.error( m_destination.ipc());
-
             directive.write.remove( descriptor());
+            error();
+         }
+
+         void Remote::error()
+         {
+            for( auto& message : std::exchange( m_queue, {}))
+               message.error( m_destination.ipc());
          }
          
       } // coordinator
@@ -79,7 +84,7 @@ namespace casual
          {
             log::line( verbose::log, "found: ", *found);
             if( found->send( *m_directive))
-               m_destinations.erase( std::begin( found));
+               done( std::begin( found));
 
             return true;
          }
@@ -96,7 +101,9 @@ namespace casual
             return ! destination.send( *directive);
          }));
 
-         algorithm::container::erase( m_destinations, erase);
+         // the callbacks might send other messages, we need to extract the destinations before we invoke them
+         for( auto& destination : algorithm::container::extract( m_destinations, erase))
+            destination.error();
 
          return empty();
       }
@@ -113,11 +120,18 @@ namespace casual
       {
          if( auto found = algorithm::find( m_destinations, ipc))
          {
-            found->failed( *m_directive);
-            algorithm::container::erase( m_destinations, std::begin( found));
+            auto destination = algorithm::container::extract( m_destinations, std::begin( found));
+            destination.failed( *m_directive);
          }
       }
 
+      void Coordinator::done( std::vector< coordinator::Remote>::iterator where)
+      {
+         // the callbacks might send other messages, we need to extract the destination before we invoke them
+         auto destination = algorithm::container::extract( m_destinations, where);
+         destination.error();
+      }
+
       strong::correlation::id Coordinator::send( const strong::ipc::id& ipc, coordinator::Message&& message)
       {
          Trace trace{ "communication::ipc::send::Coordinator::send"};
@@ -127,7 +141,7 @@ namespace casual
          if( auto found = algorithm::find( m_destinations, ipc))
          {
             if( found->push( std::move( message)).send( *m_directive))
-               m_destinations.erase( std::begin( found));
+               done( std::begin( found));
          }
          else
          {
-- 
2.43.0


From 64cfd5d68eaaed0984f3d521e7ed8a9a03f8aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:36 +0000
Subject: [PATCH 61/72] fix: a blocking receive over tcp missed a signal that
 was already pending, the gateway groups could hang at shutdown

---
 middleware/common/source/communication/tcp.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/communication/tcp.cpp b/middleware/common/source/communication/tcp.cpp
index bcc7b79..2c4d9c9 100644
--- a/middleware/common/source/communication/tcp.cpp
+++ b/middleware/common/source/communication/tcp.cpp
@@ -689,11 +689,17 @@ namespace casual
 
          cache_range_type Blocking::receive( Connector& tcp, cache_type& cache)
          {
-            tcp.socket().unset( communication::socket::option::File::no_block);
+            tcp.socket().set( communication::socket::option::File::no_block);
 
             while( true)
+            {
                if( auto result = local::receive( tcp.socket(), cache))
                   return result;
+
+               // wait for more, takes care of atomic signals. A signal that is pending already
+               // would not interrupt a blocking _receive_
+               select::block::read( tcp.descriptor());
+            }
          }
 
          strong::correlation::id Blocking::send( Connector& tcp, complete_type&& complete)
-- 
2.43.0


From ae2378dbc455f1a26d1d88978ee8b521e8b5eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:21 +0000
Subject: [PATCH 62/72] fix: queue forward flows were stuck, or lost, when a
 queue group died or took a dequeue request back

* the source group died (or was already gone): the pending dequeues were never ended and never replaced, and with a
  shutdown the process did not end, since the request to forget the dequeue was sent to the group (if any) that the forward
  was using at the moment.
* the target group of a queue forward was gone: the enqueue could not be delivered and the flow waited for ever for a reply.
* a group that took a dequeue request back ended the flow for good, the forward never looked up the queue again.
* lookups were discarded when another queue of the forward was lost, and never requested again.
---
 .../queue/include/queue/forward/state.h       |  28 ++-
 middleware/queue/source/forward/handle.cpp    | 220 +++++++++++-------
 2 files changed, 158 insertions(+), 90 deletions(-)

diff --git a/middleware/queue/include/queue/forward/state.h b/middleware/queue/include/queue/forward/state.h
index 7cd1e42..db4a814 100644
--- a/middleware/queue/include/queue/forward/state.h
+++ b/middleware/queue/include/queue/forward/state.h
@@ -281,12 +281,27 @@ namespace casual
             {
                struct Lookup : base
                {
+                  std::string name;
+
+                  CASUAL_LOG_SERIALIZE(
+                     base::serialize( archive);
+                     CASUAL_SERIALIZE( name);
+                  )
                };
 
             } // queue
 
             struct Dequeue : transaction_base
             {
+               //! the queue-group the request was sent to, the forward might have 'moved on' since then.
+               common::process::Handle target{};
+
+               inline friend bool operator == ( const Dequeue& lhs, common::process::compare_equal_to_handle auto rhs) { return lhs.target == rhs;}
+
+               CASUAL_LOG_SERIALIZE(
+                  transaction_base::serialize( archive);
+                  CASUAL_SERIALIZE( target);
+               )
             };
 
             namespace service
@@ -349,7 +364,18 @@ namespace casual
             struct Enqueue : transaction_base
             {
                Enqueue() = default;
-               Enqueue( const transaction_base& other) : transaction_base{ other} {}
+               Enqueue( const transaction_base& other, common::process::Handle target)
+                  : transaction_base{ other}, target{ target} {}
+
+               //! the queue-group the request was sent to, the forward might have 'moved on' since then.
+               common::process::Handle target{};
+
+               inline friend bool operator == ( const Enqueue& lhs, common::process::compare_equal_to_handle auto rhs) { return lhs.target == rhs;}
+
+               CASUAL_LOG_SERIALIZE(
+                  transaction_base::serialize( archive);
+                  CASUAL_SERIALIZE( target);
+               )
             };
 
          } // pending
diff --git a/middleware/queue/source/forward/handle.cpp b/middleware/queue/source/forward/handle.cpp
index 5dd95d9..a273a20 100644
--- a/middleware/queue/source/forward/handle.cpp
+++ b/middleware/queue/source/forward/handle.cpp
@@ -151,6 +151,7 @@ namespace casual
 
                         state::pending::queue::Lookup pending;
                         pending.id = id;
+                        pending.name = name;
                         pending.correlation = state.multiplex.send( ipc::queue::manager(), request);
                         return pending;
                      };
@@ -172,6 +173,26 @@ namespace casual
                      state.pending.queue.lookups.push_back( detail::send::request( state, forward.id, forward.target.queue));
                   }
 
+                  //! requests lookup for the queues that are not known, unless there already is a pending lookup.
+                  template< typename F>
+                  void missing( State& state, F& forward)
+                  {
+                     auto request = [ &]( auto& queue)
+                     {
+                        auto is_pending = [ &]( auto& pending){ return pending.id == forward.id && pending.name == queue.queue;};
+
+                        if( ! queue && ! algorithm::find_if( state.pending.queue.lookups, is_pending))
+                           state.pending.queue.lookups.push_back( detail::send::request( state, forward.id, queue.queue));
+                     };
+
+                     request( forward.source);
+
+                     if constexpr( std::is_same_v< F, state::forward::Queue>)
+                        request( forward.target);
+                     else if( forward.reply)
+                        request( *forward.reply);
+                  }
+
                } // detail
 
                auto request( State& state)
@@ -200,6 +221,34 @@ namespace casual
 
             namespace send
             {
+               namespace faked
+               {
+                  //! push a faked 'error' reply to our self, to keep the "state-machine" going
+                  //! @{
+                  void reply( const state::pending::Dequeue& pending)
+                  {
+                     Trace trace{ "queue::forward::send::faked::reply dequeue"};
+                     common::log::line( verbose::log, "pending: ", pending);
+
+                     ipc::message::group::dequeue::Reply message;
+                     message.correlation = pending.correlation;
+
+                     ipc::device().push( message);
+                  }
+
+                  void reply( const state::pending::Enqueue& pending)
+                  {
+                     Trace trace{ "queue::forward::send::faked::reply enqueue"};
+                     common::log::line( verbose::log, "pending: ", pending);
+
+                     ipc::message::group::enqueue::Reply message;
+                     message.correlation = pending.correlation;
+
+                     ipc::device().push( message);
+                  }
+                  //! @}
+               } // faked
+
                namespace dequeue
                {
                   template< typename F>
@@ -210,6 +259,10 @@ namespace casual
 
                      auto send_request =[ &]()
                      {
+                        // the group might turn out to be gone
+                        if( ! forward.source)
+                           return;
+
                         ipc::message::group::dequeue::Request request{ common::process::handle()};
                         request.trid = common::transaction::id::create( common::process::handle());
                         request.correlation = strong::correlation::id::generate();
@@ -224,15 +277,27 @@ namespace casual
                         pending.id = forward.id;
                         pending.correlation = request.correlation;
                         pending.trid = request.trid;
+                        pending.target = forward.source.process;
+
+                        const auto destination = pending.target.ipc;
 
                         state.pending.dequeues.push_back( std::move( pending));
                         ++forward;
 
-                        state.multiplex.send( forward.source.process.ipc, request, [ &state]( auto& ipc, auto& complete)
+                        state.multiplex.send( destination, request, [ &state]( auto& ipc, auto& complete)
                         {
-                           algorithm::container::erase( state.pending.dequeues, complete.correlation());
-                           // TODO send "error reply"?
+                           auto pending = algorithm::find( state.pending.dequeues, complete.correlation());
+                           if( ! pending)
+                              return;
+
+                           // the group is gone, the queue needs to be looked up again when the 'flow' has ended.
+                           state.forward_apply( pending->id, [ &pending]( auto& forward)
+                           {
+                              if( forward.source.process == pending->target)
+                                 forward.source.invalidate();
+                           });
 
+                           faked::reply( *pending);
                         });
                         
                      };
@@ -283,6 +348,22 @@ namespace casual
                } // transaction
             } // send
 
+            namespace detail::send::enqueue
+            {
+               //! sends the enqueue request, if the group is gone the 'flow' gets an 'error' reply
+               template< typename P, typename M>
+               void request( State& state, P&& pending, const process::Handle& target, M&& message)
+               {
+                  state.pending.enqueues.emplace_back( std::forward< P>( pending), target);
+
+                  state.multiplex.send( target.ipc, message, [ &state]( auto& ipc, auto& complete)
+                  {
+                     if( auto pending = algorithm::find( state.pending.enqueues, complete.correlation()))
+                        local::send::faked::reply( *pending);
+                  });
+               }
+            } // detail::send::enqueue
+
             namespace detail::send::discard
             {
                template< typename F>
@@ -291,7 +372,7 @@ namespace casual
                   ipc::message::group::dequeue::forget::Request request{ process::handle()};
                   request.correlation = pending.correlation;
                   
-                  state.multiplex.send( forward.source.process.ipc, request);
+                  state.multiplex.send( pending.target.ipc, request);
                }
 
                template< typename F>
@@ -304,29 +385,23 @@ namespace casual
                   state.multiplex.send( ipc::service::manager(), request);
                }
 
-               template< typename F>
-               void request( State& state, const F& forward, const state::pending::queue::Lookup& pending)
-               {
-                  ipc::message::lookup::discard::Request request{ process::handle()};
-                  request.correlation = pending.correlation;
-
-                  state.multiplex.send( ipc::queue::manager(), request);
-               }
-
             } // detail::send::discard
 
             namespace detail::machine
             {
                // if the queues are _not invalidated_ we try to dequeue again.
-               //! Otherwise we lookup the queues, unless we have pending lookups for
-               //! the queues
+               //! Otherwise we lookup the queues that are invalidated, unless we have 
+               //! pending lookups for them
                template< typename F>
                void next( State& state, F& forward)
                {
+                  if( ! forward.enabled || forward.instances.missing() == 0)
+                     return;
+
                   if( forward.valid_queues())
                      local::send::dequeue::request( state, forward);
-                  else if( ! algorithm::find( state.pending.queue.lookups, forward.id))
-                     local::queue::lookup::detail::request( state, forward);
+                  else
+                     local::queue::lookup::detail::missing( state, forward);
                }
             } // detail::machine
 
@@ -577,9 +652,7 @@ namespace casual
 
                            log::line( verbose::log, "enqueue request: ", request);
 
-                           state.multiplex.send( forward->target.process.ipc, request);
-                           state.pending.enqueues.emplace_back( std::move( *pending));
-
+                           local::detail::send::enqueue::request( state, std::move( *pending), forward->target.process, std::move( request));
                         }
                      };
                   }
@@ -599,10 +672,16 @@ namespace casual
 
                               auto pending = algorithm::container::extract( state.pending.dequeues, std::begin( found));
 
-                              state.forward_apply( pending.id, []( auto& forward)
+                              state.forward_apply( pending.id, [ &state, &pending]( auto& forward)
                               {
                                  --forward;                                 
                                  common::log::line( verbose::log, "forward: ", forward);
+
+                                 // the queue is not there any more, we wait for it to be available again.
+                                 if( forward.source.process == pending.target)
+                                    forward.source.invalidate();
+
+                                 local::detail::machine::next( state, forward);
                               });
 
                               common::log::line( verbose::log, "state.pending.dequeues: ", state.pending.dequeues);
@@ -765,13 +844,7 @@ namespace casual
 
                               log::line( verbose::log, "enqueue reply: ", request);
                               
-                              state.pending.enqueues.emplace_back( std::move( *call));
-                              state.multiplex.send( reply.process.ipc, request, [ &state]( auto& ipc, auto& complete)
-                              {
-                                 // remove the added pending.
-                                 if( auto pending = pending::consume( state.pending.enqueues, complete.correlation()))
-                                    send::transaction::rollback::request( state, std::move( *pending));
-                              });
+                              local::detail::send::enqueue::request( state, std::move( *call), reply.process, std::move( request));
                            }
                            else
                               send::transaction::commit::request( state, std::move( *call));
@@ -947,23 +1020,6 @@ namespace casual
 
                namespace dead
                {
-                  namespace detail::push::faked
-                  {
-                     void reply( const forward::state::pending::Enqueue& pending)
-                     {
-                        Trace trace{ "queue::forward::service::local::handle::dead::detail::push::faked::reply"};
-                        log::line( verbose::log, "pending: ", pending);
-
-                        ipc::message::group::enqueue::Reply message;
-                        message.correlation = pending.correlation;
-
-                        log::line( verbose::log, "message: ", message);
-                        
-                        ipc::device().push( message);
-                     }
-                     
-                  } // detail::push::faked
-
                   namespace detail
                   {
                      void dead_event( State& state, common::process::compare_equal_to_handle auto handle)
@@ -974,62 +1030,48 @@ namespace casual
 
                         log::line( verbose::log, "state.pending: ", state.pending);
 
-                        // g++13 incorrectly gives a warning "unused-but-set-variable"
-                        // for is_forward. Bug reported
-                        // (https://gcc.gnu.org/bugzilla/show_bug.cgi?id=114450)
-                        [[maybe_unused]] static constexpr auto is_forward = []( auto id) { return [ id]( auto& forward){ return forward == id;};};
+                        // if we've got pendings to the lost queue-group we need to fake replies
+                        // to keep the "state-machine" going
+                        for( auto& pending : state.pending.dequeues)
+                           if( pending == handle)
+                              send::faked::reply( pending);
+
+                        for( auto& pending : state.pending.enqueues)
+                           if( pending == handle)
+                              send::faked::reply( pending);
 
-                        auto invalidate_queue_forward = [ &state, handle]( auto& forward)
+                        // invalidates the queues that are lost, and let the 'flow' look them up again
+                        auto invalidate = [ &state, handle]( auto& forward, auto* target)
                         {
-                           log::line( verbose::log, "forward: ", forward);
+                           const bool source_lost = forward.source == handle;
+                           const bool target_lost = target && *target == handle;
 
-                           if( forward != handle)
+                           if( ! source_lost && ! target_lost)
                               return;
 
-                           for( auto& pending : algorithm::filter( state.pending.queue.lookups, is_forward( forward.id)))
-                              local::detail::send::discard::request( state, forward, pending);
+                           log::line( verbose::log, "forward: ", forward);
 
-                           for( auto& pending : algorithm::filter( state.pending.dequeues, is_forward( forward.id)))
-                              local::detail::send::discard::request( state, forward, pending);
+                           if( source_lost)
+                              forward.source.invalidate();
 
-                           if( forward.target != handle)
-                              return;
+                           if( target_lost)
+                           {
+                              target->invalidate();
 
-                           forward.target.invalidate();
+                              // there is no use to dequeue messages that can't be forwarded
+                              for( auto& pending : state.pending.dequeues)
+                                 if( pending.id == forward.id && pending != handle)
+                                    local::detail::send::discard::request( state, forward, pending);
+                           }
 
-                           // if we've got pending enqueues to lost target we need to fake a reply
-                           // to keep the "state-machine" going
-                           for( auto& pending : algorithm::filter( state.pending.enqueues, is_forward( forward.id)))
-                              detail::push::faked::reply( pending);
-                             
+                           local::detail::machine::next( state, forward);
                         };
 
-                        algorithm::for_each( state.forward.queues, invalidate_queue_forward);
-
-
-                        auto invalidate_service_forward = [ &state, handle]( auto& forward)
-                        {
-                           if( forward != handle)
-                              return;
-
-                           for( auto& pending : algorithm::filter( state.pending.queue.lookups, is_forward( forward.id)))
-                              local::detail::send::discard::request( state, forward, pending);
-
-                           for( auto& pending : algorithm::filter( state.pending.dequeues, is_forward( forward.id)))
-                              local::detail::send::discard::request( state, forward, pending);
-
-                           if( forward.reply != handle)
-                              return;
-
-                           forward.reply->invalidate();
-
-                           // if we've got pending enqueues to lost reply we need to fake a reply
-                           // to keep the "state-machine" going
-                           for( auto& pending : algorithm::filter( state.pending.enqueues, is_forward( forward.id)))
-                              detail::push::faked::reply( pending);
-                        };
+                        for( auto& forward : state.forward.queues)
+                           invalidate( forward, &forward.target);
 
-                        algorithm::for_each( state.forward.services, invalidate_service_forward);
+                        for( auto& forward : state.forward.services)
+                           invalidate( forward, forward.reply ? &*forward.reply : nullptr);
                      }
 
                   } // detail
-- 
2.43.0


From 220f56ce59a658fcb28dca82a0f8d509f733f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:45 +0000
Subject: [PATCH 63/72] fix: a discovered service that is configured without
 routes was not part of the reply

---
 middleware/domain/source/discovery/handle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/middleware/domain/source/discovery/handle.cpp b/middleware/domain/source/discovery/handle.cpp
index c1db42f..2328272 100644
--- a/middleware/domain/source/discovery/handle.cpp
+++ b/middleware/domain/source/discovery/handle.cpp
@@ -802,6 +802,10 @@ namespace casual
 
          for( auto& service : model.service.services)
          {
+            // a service without routes is known by its own name
+            if( service.routes.empty())
+               continue;
+
             state.service_name.to_routes[ service.name] = service.routes;
             for( auto& route : service.routes)
                state.service_name.to_origin[ route] = service.name;
-- 
2.43.0


From ed5343e6c88f5d8563b09033f934cb92b0157316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:45 +0000
Subject: [PATCH 64/72] fix: discovery requests that were accumulated were
 never replied if discovery was told to shut down

---
 middleware/domain/include/domain/discovery/state.h | 3 +++
 middleware/domain/source/discovery/state.cpp       | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/middleware/domain/include/domain/discovery/state.h b/middleware/domain/include/domain/discovery/state.h
index d366fe6..339c74d 100644
--- a/middleware/domain/include/domain/discovery/state.h
+++ b/middleware/domain/include/domain/discovery/state.h
@@ -180,6 +180,9 @@ namespace casual
 
             accumulate::Requests extract();
 
+            //! @returns true if there are requests that are to be replied
+            bool pending() const noexcept;
+
             //! @returns true if we should accumulate
             explicit operator bool() const noexcept;
 
diff --git a/middleware/domain/source/discovery/state.cpp b/middleware/domain/source/discovery/state.cpp
index 27ed554..d0b0cd2 100644
--- a/middleware/domain/source/discovery/state.cpp
+++ b/middleware/domain/source/discovery/state.cpp
@@ -181,6 +181,11 @@ namespace casual
             return std::exchange( m_requests, {});
          }
 
+         bool Accumulate::pending() const noexcept
+         {
+            return ! m_requests.discovery.empty() || ! m_requests.api.empty();
+         }
+
          Accumulate::operator bool() const noexcept
          {
             if( m_deadline)
@@ -210,8 +215,9 @@ namespace casual
       
       bool State::done() const noexcept
       {
+         // requests that are accumulated are still to be replied
          if( runlevel > decltype( runlevel())::running)
-            return coordinate.empty();
+            return coordinate.empty() && ! accumulate.pending();
 
          return false;
       }
-- 
2.43.0


From 86e6f2a8c5a5c1ad363f68b392747f1517a99d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:56 +0000
Subject: [PATCH 65/72] fix: groups were booted before groups they depend on,
 depending on the order of the groups in the configuration

---
 .../domain/source/manager/state/order.cpp     | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/middleware/domain/source/manager/state/order.cpp b/middleware/domain/source/manager/state/order.cpp
index d68e9b7..b416a10 100644
--- a/middleware/domain/source/manager/state/order.cpp
+++ b/middleware/domain/source/manager/state/order.cpp
@@ -14,6 +14,43 @@ namespace casual
 
    namespace domain::manager::state::order
    {
+      namespace local
+      {
+         namespace
+         {
+            //! @returns references to the groups, every group after all groups it depends on (directly or not), and otherwise
+            //!   in the order they're defined. 
+            //! `Group::boot::Order` only knows about direct dependencies, hence it is not a strict weak ordering that we can sort by.
+            auto dependency_order( const std::vector< Group>& groups)
+            {
+               auto remaining = algorithm::container::vector::reference::create( groups);
+
+               decltype( remaining) result;
+               result.reserve( remaining.size());
+
+               while( ! remaining.empty())
+               {
+                  auto no_remaining_dependency = [ &remaining]( auto& group)
+                  {
+                     return algorithm::none_of( remaining, [ &group]( auto& other)
+                     {
+                        return state::Group::boot::Order{}( other.get(), group.get());
+                     });
+                  };
+
+                  auto found = algorithm::find_if( remaining, no_remaining_dependency);
+
+                  // there are only circular dependencies left, we've to start somewhere
+                  auto next = found ? std::begin( found) : std::begin( remaining);
+
+                  result.push_back( *next);
+                  remaining.erase( next);
+               }
+
+               return result;
+            }
+         } // <unnamed>
+      } // local
 
       std::vector< state::dependency::Group> boot(
          const State& state,
@@ -22,8 +59,7 @@ namespace casual
       {
          Trace trace{ "domain::manager::state::create::boot::order"};
 
-         auto group_wrapper = algorithm::container::vector::reference::create( state.groups);
-         algorithm::stable_sort( group_wrapper, state::Group::boot::Order{});
+         auto group_wrapper = local::dependency_order( state.groups);
 
          auto server_wrappers = algorithm::container::vector::reference::create( source_servers);
          auto excutable_wrappers = algorithm::container::vector::reference::create( source_executables);
-- 
2.43.0


From ab7fa8fc5d4063797ddf9816b2c9a2954384430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:56 +0000
Subject: [PATCH 66/72] fix: servers that were scaled in before they had
 connected were forgotten, and kept running

---
 middleware/domain/source/manager/state.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/middleware/domain/source/manager/state.cpp b/middleware/domain/source/manager/state.cpp
index 473c98f..e3796e4 100644
--- a/middleware/domain/source/manager/state.cpp
+++ b/middleware/domain/source/manager/state.cpp
@@ -237,10 +237,11 @@ namespace casual
             {
                case instance::Phase::running:
                   return handle ? instance::State::running : handle.pid ? instance::State::spawned : instance::State::scale_out;
+               // the process might not have connected yet, it's alive and has to be scaled in regardless.
                case instance::Phase::exit:
-                  return handle ? instance::State::scale_in : instance::State::exit;
+                  return handle.pid ? instance::State::scale_in : instance::State::exit;
                case instance::Phase::disabled:
-                  return handle ? instance::State::scale_in : instance::State::disabled;
+                  return handle.pid ? instance::State::scale_in : instance::State::disabled;
                case instance::Phase::error:
                   return instance::State::error;
             }
-- 
2.43.0


From c2611390495a3dc402f0c7390a550b8db52f4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:25 +0000
Subject: [PATCH 67/72] fix: a domain could not be scaled, or shutdown, if
 instances were scaled in while others in the same task had not connected

---
 middleware/domain/source/manager/handle.cpp | 44 ++++++++++++---------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index bdcf270..5a8f27b 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -286,8 +286,9 @@ namespace casual
 
          state.runlevel = decltype( state.runlevel())::shutdown;
 
-         // abort all abortable running or pending task
-         state.tasks.cancel();
+         // abort all running or pending task. What we want of the instances changes below, hence a running
+         // task might never be done, and we'd never get to the shutdown.
+         state.tasks = {};
 
 
          auto done_event = task::create::event::parent( state, string::compose( "shutdown domain: ", common::domain::identity()));
@@ -322,20 +323,6 @@ namespace casual
 
             auto scalables = state.scalables( algorithm::transform( aliases, []( auto& alias){ return alias.name;}));
 
-            // prepare the scaling
-            {                  
-               auto scale_runnable = [&aliases]( auto& runnable)
-               {
-                  auto is_alias = [&runnable]( auto& alias){ return alias.name == runnable.get().alias;};
-
-                  if( auto found = algorithm::find_if( aliases, is_alias))
-                     runnable.get().scale( found->instances);
-               };
-
-               algorithm::for_each( scalables.servers, scale_runnable);
-               algorithm::for_each( scalables.executables, scale_runnable);
-            }
-
             auto transform_id = []( auto& entity){ return entity.get().id;};
 
             state::dependency::Group group;
@@ -345,10 +332,29 @@ namespace casual
                algorithm::transform( scalables.executables, group.executables, transform_id);
             }
 
-            auto groups = manager::task::create::scale::groups( state, { std::move( group)}); 
+            // we prepare the scaling when the task starts. Otherwise we'd change what preceding (running) tasks wait
+            // for, and they might never be done.
+            auto prepare_scale = [ aliases = std::move( aliases), group = std::move( group)]( State& state) mutable
+            {
+               auto scale_runnable = [ &state, &aliases]( auto id)
+               {
+                  auto& runnable = state.entity( id);
+                  auto is_alias = [ &runnable]( auto& alias){ return alias.name == runnable.alias;};
+
+                  if( auto found = algorithm::find_if( aliases, is_alias))
+                     runnable.scale( found->instances);
+               };
 
-            auto result = casual::task::ids( groups, done_event);
-            state.tasks.then( std::move( groups)).then( std::move( done_event));
+               algorithm::for_each( group.servers, scale_runnable);
+               algorithm::for_each( group.executables, scale_runnable);
+
+               return std::move( group);
+            };
+
+            auto task = manager::task::create::scale::group( state, std::move( prepare_scale));
+
+            auto result = casual::task::ids( task, done_event);
+            state.tasks.then( std::move( task)).then( std::move( done_event));
 
             return result;
          }
-- 
2.43.0


From da6f8190b290b6dc13f4f6b9c416dfdc5f4eaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:25 +0000
Subject: [PATCH 68/72] fix: servers and executables that are configured to
 restart, were not if they died during boot, which was never done

---
 middleware/domain/source/manager/state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/middleware/domain/source/manager/state.cpp b/middleware/domain/source/manager/state.cpp
index e3796e4..a269c41 100644
--- a/middleware/domain/source/manager/state.cpp
+++ b/middleware/domain/source/manager/state.cpp
@@ -379,7 +379,7 @@ namespace casual
             // Try to remove ipc-queue (no-op if it's removed already)
             local::ipc::remove( process.ipc);
 
-            if( found->restart && runlevel == decltype( runlevel())::running)
+            if( found->restart && runlevel <= decltype( runlevel())::running)
                return result_type{ found, nullptr};
          }
 
@@ -389,7 +389,7 @@ namespace casual
             found->remove( pid);
             log::line( log, "remove executable instance: ", pid);
 
-            if( found->restart && runlevel == decltype( runlevel())::running)
+            if( found->restart && runlevel <= decltype( runlevel())::running)
                return result_type{ nullptr, found};
          }
 
-- 
2.43.0


From b81b05fab30a0fd569ca5352eebccaae61ecbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:02 +0000
Subject: [PATCH 69/72] fix: scaling out only spawned some of the instances, if
 instances that were not first had exited before

---
 middleware/domain/source/manager/state.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/middleware/domain/source/manager/state.cpp b/middleware/domain/source/manager/state.cpp
index a269c41..4f71db7 100644
--- a/middleware/domain/source/manager/state.cpp
+++ b/middleware/domain/source/manager/state.cpp
@@ -118,16 +118,19 @@ namespace casual
                      };
 
                      if( std::ssize( entity.instances) < count)
-                     {
                         entity.instances.resize( count);
-                        algorithm::for_each( entity.instances, set_scale_keep);
-                        return;
-                     }
 
-                     // move all running to the front, if any                     
-                     algorithm::stable::partition( entity.instances, []( auto& instance)
+                     // move all running to the front, if any, then the ones that are about to. The ones without a
+                     // process end up last, and we're able to spawn all of them.
+                     algorithm::stable_sort( entity.instances, []( auto& lhs, auto& rhs)
                      {
-                        return instance.state() == state::instance::State::running;
+                        auto order = []( auto& instance)
+                        {
+                           if( instance.state() == state::instance::State::running)
+                              return 0;
+                           return common::process::id( instance.handle) ? 1 : 2;
+                        };
+                        return order( lhs) < order( rhs);
                      });
 
                      auto keep = range::make( std::begin( entity.instances), count);
-- 
2.43.0


From 87ad8536612dcc1d4518970134e82662868578df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:20 +0000
Subject: [PATCH 70/72] fix: boot, and scale, was never done if a server was
 denied to be a singleton that another server is

---
 middleware/domain/source/manager/handle.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index 5a8f27b..2e8459b 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -939,18 +939,11 @@ namespace casual
 
                            log::line( log::category::error, "only one instance is allowed for ", message.singleton.identification);
 
-                           // Adjust configured instances to correspond to reality...
-
+                           // Adjust configured instances to correspond to reality... The instance is not wanted any more
                            if( auto server = state.server( message.information.handle.pid))
-                           {
-                              server->remove( message.information.handle.pid);
-                              server->scale( 1);
-                           }
+                              algorithm::container::erase( server->instances, message.information.handle.pid);
                            else if( auto executable = state.executable( message.information.handle.pid))
-                           {
-                              executable->remove( message.information.handle.pid);
-                              executable->scale( 1);
-                           }
+                              algorithm::container::erase( executable->instances, message.information.handle.pid);
                            
                            // deny startup
                            send::reply( state, Directive::denied, message);
-- 
2.43.0


From d4a3d3452e4968ada65e81017d189a76be69f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:06 +0000
Subject: [PATCH 71/72] fix: processes could be started, and left behind, by
 scaling a domain that was about to end

---
 middleware/domain/source/manager/handle.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index 2e8459b..a4779da 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -319,6 +319,13 @@ namespace casual
             Trace trace{ "domain::manager::handle::scale::aliases"};
             log::line( verbose::log, "aliases: ", aliases);
 
+            // we can't start anything when we're about to end, nobody would take it down.
+            if( state.runlevel > decltype( state.runlevel())::running)
+            {
+               log::line( log::category::information, "refuse to scale aliases - runlevel: ", state.runlevel);
+               return {};
+            }
+
             auto done_event = task::create::event::parent( state, "scale aliases");
 
             auto scalables = state.scalables( algorithm::transform( aliases, []( auto& alias){ return alias.name;}));
-- 
2.43.0


From 9786bf7ea79175d5f511c6d0bb94cd3e708fa7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:07 +0000
Subject: [PATCH 72/72] fix: restart of instances could get stuck, terminate
 every process of the user, or proceed before the replacements had connected

---
 middleware/domain/source/manager/handle.cpp   |  14 +++
 .../domain/source/manager/task/create.cpp     | 116 ++++++++++--------
 2 files changed, 76 insertions(+), 54 deletions(-)

diff --git a/middleware/domain/source/manager/handle.cpp b/middleware/domain/source/manager/handle.cpp
index a4779da..e5926c8 100644
--- a/middleware/domain/source/manager/handle.cpp
+++ b/middleware/domain/source/manager/handle.cpp
@@ -419,6 +419,13 @@ namespace casual
             Trace trace{ "domain::manager::handle::restart::aliases"};
             log::line( verbose::log, "aliases: ", aliases);
 
+            // we can't start anything when we're about to end, nobody would take it down.
+            if( state.runlevel > decltype( state.runlevel())::running)
+            {
+               log::line( log::category::information, "refuse to restart aliases - runlevel: ", state.runlevel);
+               return {};
+            }
+
             auto done_event = task::create::event::parent( state, "restart aliases");
 
             auto scalables = state.scalables( std::move( aliases));
@@ -464,6 +471,13 @@ namespace casual
 
             };
 
+            // we can't start anything when we're about to end, nobody would take it down.
+            if( state.runlevel > decltype( state.runlevel())::running)
+            {
+               log::line( log::category::information, "refuse to restart groups - runlevel: ", state.runlevel);
+               return {};
+            }
+
             auto done_event = task::create::event::parent( state, "restart groups");
 
             auto groups = state::order::shutdown( state);
diff --git a/middleware/domain/source/manager/task/create.cpp b/middleware/domain/source/manager/task/create.cpp
index 1ee1221..e085bea 100644
--- a/middleware/domain/source/manager/task/create.cpp
+++ b/middleware/domain/source/manager/task/create.cpp
@@ -97,8 +97,9 @@ namespace casual
                      State* state{};
                      strong::server::id id;
                      bool origin_restart{};
-                     std::vector< process::Handle> processes;
-                     std::vector< strong::process::id> spawned_not_connected;
+                     std::vector< strong::process::id> processes;
+                     //! the one that is told to shutdown, if any
+                     strong::process::id current;
                   };
 
                   auto shared = std::make_shared< Shared>( state, id);
@@ -119,11 +120,43 @@ namespace casual
                      return casual::task::unit::Dispatch::done;
                   };
 
+                  // shutdown the next, if it's not in progress already. We start from the back
+                  static constexpr auto shutdown_next = []( Shared& shared)
+                  {
+                     auto next = range::back( shared.processes);
+
+                     // it might have connected since we started
+                     if( std::exchange( shared.current, next) != next)
+                        if( auto instance = shared.state->entity( shared.id).instance( next))
+                           handle::scale::shutdown( *shared.state, instance->handle);
+                  };
+
+                  // continue with the next, unless we wait for a replacement to connect. We're done if there are no more.
+                  static constexpr auto proceed = []( Shared& shared, casual::task::unit::id id)
+                  {
+                     auto replacement_not_connected = [ &shared]( auto& instance)
+                     {
+                        return instance.state() == state::instance::State::spawned && ! algorithm::find( shared.processes, instance.handle.pid);
+                     };
+
+                     if( algorithm::any_of( shared.state->entity( shared.id).instances, replacement_not_connected))
+                        return casual::task::unit::Dispatch::pending;
+
+                     if( range::empty( shared.processes))
+                        return send_done_event( shared, id);
+
+                     shutdown_next( shared);
+                     return casual::task::unit::Dispatch::pending;
+                  };
+
                   // the action that will be invoked when the task starts.
                   auto action = casual::task::create::action( [ shared]( casual::task::unit::id id)
                   {
                      auto& server = shared->state->entity( shared->id);
-                     shared->processes = algorithm::transform( server.instances, []( auto& instance){ return instance.handle;});
+                     // only the ones that are alive. There could be instances that have exited, or failed to spawn.
+                     shared->processes = algorithm::transform_if( server.instances, 
+                        []( auto& instance){ return instance.handle.pid;},
+                        []( auto& instance){ return predicate::boolean( instance.handle.pid);});
 
                      if( shared->processes.empty())
                         return casual::task::unit::action::Outcome::abort;
@@ -139,8 +172,8 @@ namespace casual
                         return event;
                      });
 
-                     // start the restart sequence. We start from the back
-                     handle::scale::shutdown( *shared->state, range::back( shared->processes));
+                     // start the restart sequence.
+                     shutdown_next( *shared);
 
                      return casual::task::unit::action::Outcome::success;
                   });
@@ -150,50 +183,18 @@ namespace casual
                      if( auto found = algorithm::find( shared->processes, message.state.pid))
                         algorithm::container::erase( shared->processes, std::begin( found));
 
-                     // check if we got unexpected exit for pending connection
-                     if( auto found = algorithm::find( shared->spawned_not_connected, message.state.pid))
-                     {
-                        shared->spawned_not_connected.erase( std::begin( found));
-
-                        if( range::empty( shared->spawned_not_connected) && range::empty( shared->processes))
-                           return send_done_event( *shared, id);
-
-                        // We still keep going with the next
-                        handle::scale::shutdown( *shared->state, range::back( shared->processes));
-                     }
-
-                     return casual::task::unit::Dispatch::pending;
-                  };
-
-                  auto handle_spawned = [ shared]( casual::task::unit::id id, const common::message::event::process::Spawn& message)
-                  {
-                     auto& server = shared->state->entity( shared->id);
-                     if( server.alias == message.alias)
-                        algorithm::container::append( message.pids, shared->spawned_not_connected);
-
-                     return casual::task::unit::Dispatch::pending;
+                     // the replacement, if any, is already spawned
+                     return proceed( *shared, id);
                   };
 
                   auto handle_connected = [ shared]( casual::task::unit::id id, const common::message::domain::process::connect::Request& message)
                   {
-                     if( auto found = algorithm::find( shared->spawned_not_connected, message.information.handle.pid))
-                     {
-                        algorithm::container::erase( shared->spawned_not_connected, std::begin( found));
-
-                        if( range::empty( shared->spawned_not_connected) && range::empty( shared->processes))
-                           return send_done_event( *shared, id);
-
-                        // continue to scale down the next
-                        handle::scale::shutdown( *shared->state, range::back( shared->processes));
-
-                     }
-                     return casual::task::unit::Dispatch::pending;
+                     return proceed( *shared, id);
                   };
 
                   return casual::task::create::unit( 
                      std::move( action),
                      std::move( handle_exit),
-                     std::move( handle_spawned),
                      std::move( handle_connected)
                   );
                }
@@ -210,6 +211,8 @@ namespace casual
                      strong::executable::id id;
                      bool origin_restart{};
                      std::vector< strong::process::id> pids;
+                     //! the one that is told to terminate, if any
+                     strong::process::id current;
                   };
 
                   auto shared = std::make_shared< Shared>( state, id);
@@ -230,11 +233,23 @@ namespace casual
                      return casual::task::unit::Dispatch::done;
                   };
 
+                  // terminate the next, if it's not in progress already. We start from the back
+                  static constexpr auto terminate_next = []( Shared& shared)
+                  {
+                     auto next = range::back( shared.pids);
+
+                     if( std::exchange( shared.current, next) != next)
+                        common::process::terminate( next);
+                  };
+
                   // the action that will be invoked when the task starts.
                   auto action = casual::task::create::action( [ shared]( casual::task::unit::id id)
                   {
                      auto& executable = shared->state->entity( shared->id);
-                     shared->pids = algorithm::transform( executable.instances, []( auto& instance){ return instance.handle;});
+                     // only the ones that are alive. There could be instances that have exited, or failed to spawn.
+                     shared->pids = algorithm::transform_if( executable.instances, 
+                        []( auto& instance){ return instance.handle;},
+                        []( auto& instance){ return predicate::boolean( instance.handle);});
 
                      if( shared->pids.empty())
                         return casual::task::unit::action::Outcome::abort;
@@ -250,8 +265,8 @@ namespace casual
                         return event;
                      });
 
-                     // start the restart sequence. We start from the back
-                     common::process::terminate( range::back( shared->pids));
+                     // start the restart sequence.
+                     terminate_next( *shared);
 
                      return casual::task::unit::action::Outcome::success;
                   });
@@ -259,21 +274,15 @@ namespace casual
                   auto handle_exit = [ shared]( casual::task::unit::id id, const common::message::event::process::Exit& message)
                   {
                      if( auto found = algorithm::find( shared->pids, message.state.pid))
+                     {
                         algorithm::container::erase( shared->pids, std::begin( found));
 
-                     return casual::task::unit::Dispatch::pending;
-                  };
-
-                  auto handle_spawned = [ shared]( casual::task::unit::id id, const common::message::event::process::Spawn& message)
-                  {
-                     auto& executable = shared->state->entity( shared->id);
-                     if( executable.alias == message.alias)
-                     {
+                        // the replacement is already spawned
                         if( range::empty( shared->pids))
                            return send_done_event( *shared, id);
 
                         // continue with the next shutdown
-                        common::process::terminate( range::back( shared->pids));
+                        terminate_next( *shared);
                      }
 
                      return casual::task::unit::Dispatch::pending;
@@ -281,8 +290,7 @@ namespace casual
 
                   return casual::task::create::unit( 
                      std::move( action),
-                     std::move( handle_exit),
-                     std::move( handle_spawned)
+                     std::move( handle_exit)
                   );
                }
             } // <unnamed>
-- 
2.43.0

