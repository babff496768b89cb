From 0c80fb5ac1ac0bd62f296b8201ef4662c586f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 01/36] fix: downstream_read has no is_confirmed member to
 access

is_confirmed/has_is_confirmed on a downstream_read was a hard error (index 3 of a 3-tuple)
---
 include/nbdl/message.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index ed79f9b..cbb4c32 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -314,7 +314,6 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, is_confirmed_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<downstream_read<T...>> = channel::downstream{};
-- 
2.43.0


From 17ba534bda2890d45a57ef547327ce553eb4c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 02/36] fix: notify state consumers with the normalized path

A create whose key comes from its uid was announced with its create_path, which names no entity
---
 include/nbdl/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index af59db8..b3a5692 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -200,7 +200,7 @@ namespace nbdl
           if (nbdl::apply_message(store, m))
           {
             // the state changed
-            notify_state_consumers(message::get_path(m));
+            notify_state_consumers(message::get_normalized_path(m));
           }
         }
 
-- 
2.43.0


From 38607fdfd7c14f70caec16c8002a24787bced5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 03/36] fix: private payload accessors read the private
 payload, not the uid

---
 include/nbdl/fwd/message.hpp | 2 +-
 include/nbdl/message.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/message.hpp b/include/nbdl/fwd/message.hpp
index 14ecf3a..9c7b09d 100644
--- a/include/nbdl/fwd/message.hpp
+++ b/include/nbdl/fwd/message.hpp
@@ -140,7 +140,7 @@ namespace nbdl::message
 
   template <typename Message>
   constexpr bool has_private_payload = !std::is_same<const no_impl,
-    decltype(get_uid_impl<std::decay_t<Message>>)>::value;
+    decltype(get_private_payload_impl<std::decay_t<Message>>)>::value;
 
   template <typename Message>
   constexpr bool is_path_normalizable = !std::is_same<const no_impl,
diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index cbb4c32..9ef429a 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -97,7 +97,7 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 1);
+  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<upstream_create<T...>> = channel::upstream{};
-- 
2.43.0


From 48400f4a28f335a96cf454fe10337299646997af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 04/36] fix: local_version reports whether a delta changed its
 value

---
 include/nbdl/local_version.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index 1e852e0..c239588 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -138,7 +138,7 @@ namespace nbdl
         // apply delta to store
         if (message::is_confirmed(m))
         {
-          apply_confirmed_delta(
+          return apply_confirmed_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
@@ -146,7 +146,7 @@ namespace nbdl
         }
         else
         {
-          apply_local_delta(
+          return apply_local_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From f906637a3fb4d793025d73bc169d35e692cd7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 05/36] fix: set the FIN bit when a payload fills its last
 frame completely

---
 include/nbdl/websocket/detail/message_sender.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_sender.hpp b/include/nbdl/websocket/detail/message_sender.hpp
index c1a47b3..134066c 100644
--- a/include/nbdl/websocket/detail/message_sender.hpp
+++ b/include/nbdl/websocket/detail/message_sender.hpp
@@ -138,11 +138,14 @@ namespace nbdl::websocket::detail
   void message_sender<Payload, MaxFrameSize>::
   send_message_impl(Resolver& resolver, PayloadBegin begin, PayloadEnd end)
   {
-    auto frag_end = std::next(begin, MaxFrameSize::value);
+    auto frag_end = end;
 
-    if (frag_end > end)
+    if (static_cast<std::size_t>(std::distance(begin, end)) > max_frame_size)
+    {
+      frag_end = std::next(begin, max_frame_size);
+    }
+    else
     {
-      frag_end = end;
       data.apply_fin_bit();
     }
 
-- 
2.43.0


From bd833c4b49536e531f8b7c215d6889164aa06fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 06/36] fix: compute extended frame lengths in 64 bits

---
 include/nbdl/websocket/detail/message_reader.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 03a3c3d..6169b46 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -145,7 +145,7 @@ namespace nbdl::websocket::detail
       // 16 bit
       for (int i = 0; i < 2; i++)
       {
-        length |= (x.extended_length_buf[1 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[1 - i]) << (8 * i));
       }
     }
     else if(length_code == 127)
@@ -153,7 +153,7 @@ namespace nbdl::websocket::detail
       // 64 bit
       for (int i = 0; i < 8; i++)
       {
-        length |= (x.extended_length_buf[7 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[7 - i]) << (8 * i));
       }
     }
     else
@@ -165,7 +165,7 @@ namespace nbdl::websocket::detail
 
   constexpr auto read_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
+    std::size_t const length = get_payload_length(frame_ctx);
     // we are appending a fixed length of bytes
     // to a possibly existing payload
     auto& payload = frame_ctx.payload;
@@ -185,7 +185,7 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (std::size_t i = 0; i < length; i++)
             {
               payload[i] ^= frame_ctx.mask_key[i % 4];
             }
@@ -199,7 +199,7 @@ namespace nbdl::websocket::detail
   // control frame 'close' can have a payload of <= 127 bytes
   constexpr auto read_close_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
+    std::size_t const length = get_payload_length(frame_ctx);
 
     // destroy the existing payload
     auto& payload = frame_ctx.payload;
@@ -218,7 +218,7 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (std::size_t i = 0; i < length; i++)
             {
               payload[i] ^= frame_ctx.mask_key[i % 4];
             }
-- 
2.43.0


From 67333a6c40f82e466ee80ae9814e0ee113ca77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 07/36] fix: unmask only the bytes of the frame that was read

---
 include/nbdl/websocket/detail/message_reader.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 6169b46..f31fcde 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -175,7 +175,7 @@ namespace nbdl::websocket::detail
     asio::async_read(
       frame_ctx.socket
     , asio::buffer(&payload[current_offset], length)
-    , [&resolver, &payload, &frame_ctx, length](std::error_code error_code, std::size_t)
+    , [&resolver, &payload, &frame_ctx, current_offset, length](std::error_code error_code, std::size_t)
       {
         if (error_code)
         {
@@ -185,9 +185,10 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
+            // only the bytes of this frame
             for (std::size_t i = 0; i < length; i++)
             {
-              payload[i] ^= frame_ctx.mask_key[i % 4];
+              payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
           }
           resolver.resolve(read_event::message);
-- 
2.43.0


From 1562e328427e5c2fa038602e3b01b8cb03117085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:28 +0000
Subject: [PATCH 08/36] fix: read the payload of ping and pong frames

---
 .../nbdl/websocket/detail/endpoint_impl.hpp   |  2 +-
 .../nbdl/websocket/detail/message_reader.hpp  | 38 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 822a0e0..79c73d3 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -327,7 +327,7 @@ namespace nbdl::websocket::detail
     , hana::make_pair(read_event::ping, [this](auto, auto const& frame_ctx)
       {
         (void(this));
-        pending_control_frame.to_pong(std::move(frame_ctx.payload));
+        pending_control_frame.to_pong(frame_ctx.control_payload);
       })
     , hana::make_pair(read_event::pong, [](auto&& ...) { })
     , hana::make_pair(read_event::bad_input, [this](auto&& ...)
diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index f31fcde..d5b1480 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -59,6 +59,7 @@ namespace nbdl::websocket::detail
     std::array<unsigned char, 8> extended_length_buf;
     std::array<unsigned char, 4> mask_key;
     Payload payload;
+    Payload control_payload;
 
     frame_context_t(tcp::socket& s)
       : socket (s)
@@ -230,6 +231,39 @@ namespace nbdl::websocket::detail
     );
   };
 
+  // control frames 'ping' and 'pong' can be interjected between the
+  // fragments of a message so their payload is kept apart
+  constexpr auto read_control_payload = [](auto& resolver, auto& frame_ctx, auto event_type)
+  {
+    std::size_t const length = get_payload_length(frame_ctx);
+
+    auto& payload = frame_ctx.control_payload;
+    payload.resize(length, 0);
+
+    asio::async_read(
+      frame_ctx.socket
+    , asio::buffer(payload)
+    , [&resolver, &payload, &frame_ctx, event_type, length](std::error_code error_code, std::size_t)
+      {
+        if (error_code)
+        {
+          resolver.reject(error_code);
+        }
+        else
+        {
+          if (has_mask_key(frame_ctx))
+          {
+            for (std::size_t i = 0; i < length; i++)
+            {
+              payload[i] ^= frame_ctx.mask_key[i % 4];
+            }
+          }
+          resolver.resolve(event_type);
+        }
+      }
+    );
+  };
+
   // This kind of dispatching can be done only because
   // all of the branches are stateless.
   auto opcode_dispatch = nbdl::promise([](auto& resolver, auto& frame_ctx)
@@ -245,10 +279,10 @@ namespace nbdl::websocket::detail
         read_close_payload(resolver, frame_ctx);
         break;
       case 0x9: // PING
-        resolver.resolve(read_event::ping);
+        read_control_payload(resolver, frame_ctx, read_event::ping);
         break;
       case 0xA: // PONG
-        resolver.resolve(read_event::pong);
+        read_control_payload(resolver, frame_ctx, read_event::pong);
         break;
       default:
         resolver.reject(read_event::bad_input);
-- 
2.43.0


From e06dfca3db5bafbdae418a025604e45615b43503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 09/36] fix: keep an endpoint and its send loop alive until the
 close frame is sent

The loop was ended as soon as the close frame was handed to the socket, so
that an error of that write was reported to a resolver already deleted, and
nothing kept the endpoint alive while it was being written.
---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 79c73d3..80d67b9 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -211,21 +211,22 @@ namespace nbdl::websocket::detail
         {
           sender.data.payload = pending_control_frame.payload;
           nbdl::run_async(hana::make_tuple(
-            nbdl::promise([&](auto& resolver_)
+            nbdl::promise([this](auto& resolver_)
             {
+              (void(this));
               detail::send_close(resolver_, sender);
-              // keep is_send_queue_running == true to prevent more messages
-              // after sending the close frame
-              resolver.terminate();
             })
-          , [&](auto& /*sender*/)
+          , [this, &resolver](auto& /*sender*/)
             {
               if (is_close_received)
               {
                 call_handler(endpoint_event::close);
               }
+              // keep is_send_queue_running == true to prevent more messages
+              // after sending the close frame
+              resolver.terminate();
             }
-          , nbdl::catch_([&](std::error_code error_code)
+          , nbdl::catch_([&resolver](std::error_code error_code)
             {
               resolver.reject(error_code);
             })
-- 
2.43.0


From 6b5cc1c509577d17a9926d687e2a6df6eecb8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 10/36] fix: send a close frame that was asked for before
 messaging started

An empty send queue was not started, so the close frame was never sent, and
the close frame of the other side was taken for the answer to it.
---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 80d67b9..e10ffa6 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -182,7 +182,7 @@ namespace nbdl::websocket::detail
 
       reader.keep_reading(this->shared_from_this());
 
-      if (send_queue.size() > 0)
+      if (send_queue.size() > 0 or is_sending_close())
       {
         start_send_queue();
       }
-- 
2.43.0


From d0a20514d33191db1567d388e57c56e1e807dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 11/36] fix: call the close handler of an endpoint once

When the close frame of the other side was received while our own was still
being written the handler was called for both.
---
 .../nbdl/websocket/detail/endpoint_impl.hpp   | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index e10ffa6..e6a4e08 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -105,6 +105,7 @@ namespace nbdl::websocket::detail
       , is_started(false)
       , is_stopped(false)
       , is_close_received(false)
+      , is_close_handled(false)
     {
       init(self(), socket, handler);
     }
@@ -125,6 +126,8 @@ namespace nbdl::websocket::detail
     template <typename Key, typename ...Args>
     void call_handler(Key, Args&& ...);
 
+    void call_close_handler();
+
     tcp::socket socket;
     detail::control_frame<Payload> pending_control_frame;
     Handler handler;
@@ -141,6 +144,7 @@ namespace nbdl::websocket::detail
     bool is_started : 1;
     bool is_stopped : 1;
     bool is_close_received : 1;
+    bool is_close_handled : 1;
   };
 
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
@@ -220,7 +224,7 @@ namespace nbdl::websocket::detail
             {
               if (is_close_received)
               {
-                call_handler(endpoint_event::close);
+                call_close_handler();
               }
               // keep is_send_queue_running == true to prevent more messages
               // after sending the close frame
@@ -271,7 +275,7 @@ namespace nbdl::websocket::detail
            )
         {
           //expected socket close
-          call_handler(endpoint_event::close);
+          call_close_handler();
         }
         else
         {
@@ -318,7 +322,7 @@ namespace nbdl::websocket::detail
 
         if (is_sending_close())
         {
-          call_handler(endpoint_event::close);
+          call_close_handler();
         }
         else
         {
@@ -356,6 +360,18 @@ namespace nbdl::websocket::detail
     handler[key](self(), std::forward<Args>(args)...);
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::call_close_handler()
+  {
+    // a close can be complete when receiving the frame of the
+    // other side and again when the write of our own has ended
+    if (not is_close_handled)
+    {
+      is_close_handled = true;
+      call_handler(endpoint_event::close);
+    }
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   bool endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::stop()
   {
-- 
2.43.0


From 403b36fd36f83dece19f2ff2ac8f39ca50c72642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 12/36] fix: encode bytes of signed character types in base64

---
 include/nbdl/util/base64_encode.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 3ac2568..19ac35e 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -61,9 +61,9 @@ namespace nbdl::util
       for (int i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
-            buffer[i    ] << 24
-          | buffer[i + 1] << 16
-          | buffer[i + 2] << 8
+            static_cast<unsigned char>(buffer[i    ]) << 24
+          | static_cast<unsigned char>(buffer[i + 1]) << 16
+          | static_cast<unsigned char>(buffer[i + 2]) << 8
           ;
         base64_detail::encode_fragment(output_itr, fragment, 3);
       }
@@ -71,7 +71,7 @@ namespace nbdl::util
       uint32_t extras = 0;
       for (int i = 0; i < extra_length; i++)
       {
-        extras |= buffer[round_length + i] << (8 * (3 - i));
+        extras |= static_cast<unsigned char>(buffer[round_length + i]) << (8 * (3 - i));
       }
       base64_detail::encode_fragment(output_itr, extras, extra_length);
 
-- 
2.43.0


From 7511293d53dc70a8f141328f6e370f1921363e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 13/36] fix: refuse invalid base64 text that has no whole byte

---
 include/nbdl/util/base64_decode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index 5e39a08..f120824 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -169,8 +169,8 @@ namespace nbdl::util
       using base64_detail::decode;
 
       if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
-      if (output.size() == 0) return true;
       if (not validate(input)) return false;
+      if (output.size() == 0) return true;
 
       return decode(std::forward<Input>(input), output);
     }
-- 
2.43.0


From 3cfeebd058c896b1494af02fb9cd03b354ff5d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 14/36] fix: read bool, char and double values from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 3e7e577..f515253 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -45,7 +45,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        field = obj.asUInt();
+        field = obj.asInt();
       }
 
       void bind_unsigned(Json::Value const& obj, unsigned int& field)
@@ -88,7 +88,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_member(T& field)
       {
         using T_ = std::remove_reference_t<T>;
-        if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
+        if constexpr(std::is_same_v<T_, bool> || std::is_same_v<T_, char>) {
+          bind_(json_val, field);
+        }
+        else if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
           bind_unsigned(json_val, field);
         }
         else if constexpr(std::is_integral_v<T_>) {
@@ -98,7 +101,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
           bind_enum(json_val, field);
         }
         else {
-          bind_(json_val, std::forward<T>(field));
+          bind_(json_val, field);
         }
       }
 
-- 
2.43.0


From 3f15f9eaebebb8f066f25f1a1a65a459ecc26f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 15/36] fix: write an empty container to JSON as an empty array

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index f515253..ef29e2d 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -216,6 +216,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template <typename Container>
       void bind_container(Container const& c)
       {
+        json_val = Json::Value(Json::arrayValue);
         for (auto const& x : c)
         {
           Json::Value el;
-- 
2.43.0


From 206d986ce6793fb5b1a005cb484fd25704193f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 16/36] fix: read JSON strings that contain null characters as
 a whole

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index ef29e2d..c2d85ea 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -134,7 +134,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         if (!json_val.isString())
           throw std::runtime_error("JSON String expected");
-        field = String{json_val.asCString()};
+        char const* first;
+        char const* last;
+        json_val.getString(&first, &last);
+        field = String(first, last);
       }
 
       template<typename T>
-- 
2.43.0


From 3e15c48ec15cefc127b1ae0dd9363b69f0f900b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 17/36] fix: refuse a JSON string that does not decode to the
 bytes of the buffer

---
 include/nbdl/binder/jsoncpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index c2d85ea..0cdc54b 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -126,7 +126,8 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         nbdl::string temp{};
         bind_string(temp);
-        nbdl::util::base64_decode(temp, b);
+        if (!nbdl::util::base64_decode(temp, b))
+          throw std::runtime_error("JSON base64 String expected");
       }
 
       template <typename String>
-- 
2.43.0


From cdede3f9bd94bbaa6b508533d4b20dfef5f19d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 18/36] fix: hash variants that have empty alternatives

---
 include/nbdl/binder/hash.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index c8bbd2c..6c7f08f 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -42,9 +42,9 @@ namespace nbdl::binder
 
       template <BindableVariant T>
       void bind(T const& t) {
-        nbdl::bind_variant(t, [&](auto const& type_id, auto const& value) {
-          bind(type_id);
-          bind(value); 
+        // the value of an empty alternative is left out
+        nbdl::bind_variant(t, [&](auto const& ...xs) {
+          (bind(xs), ...);
         });
       }
 
-- 
2.43.0


From 50942e3533848999290eea35b1dca9faae7c43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 19/36] fix: give the keys of the echo producer from one
 counter per path type

---
 include/nbdl/echo_producer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index e383819..0d6add9 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -19,10 +19,11 @@ namespace nbdl
 
   namespace echo_producer_detail
   {
-    template <typename Message>
-    auto make_unique_key(Message const& m)
+    // The keys are counted per path type so that they are unique
+    // among all of the messages that create something there.
+    template <typename Path>
+    auto make_unique_key(hana::basic_type<Path>)
     {
-      using Path = typename decltype(message::get_path_type(m))::type;
       using Key = std::decay_t<decltype(hana::back(std::declval<Path>()))>;
 
       if constexpr(std::is_empty<Key>::value)
@@ -73,7 +74,7 @@ namespace nbdl
           p.context
         , message::to_downstream_with_key(
             m,
-            echo_producer_detail::make_unique_key(m)
+            echo_producer_detail::make_unique_key(message::get_path_type(m))
           )
         );
       }
-- 
2.43.0


From cab284741ce5eaedec56e133a35ee7c41e8a9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 20/36] fix: ignore header lines that have no colon

---
 include/nbdl/websocket/detail/parse_handshake_request.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nbdl/websocket/detail/parse_handshake_request.hpp b/include/nbdl/websocket/detail/parse_handshake_request.hpp
index 55486fe..a5ba875 100644
--- a/include/nbdl/websocket/detail/parse_handshake_request.hpp
+++ b/include/nbdl/websocket/detail/parse_handshake_request.hpp
@@ -36,6 +36,12 @@ namespace nbdl::websocket::detail
     const auto cookie_header = "cookies"sv;
     auto token_pos = std::find(header.begin(), header.end(), ':');
 
+    if (token_pos == header.end())
+    {
+      // not a header
+      return;
+    }
+
     std::transform(header.begin(), token_pos, header.begin(), [](auto c) { return std::tolower(c); });
 
     // I'm not sure it is necessary to validate characters to see if headers are valid
-- 
2.43.0


From 6b1bf64804fdd0328d82a332676fcbafdb1c563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 21/36] fix: join the criteria of SQL statements with AND

---
 include/nbdl/sql_db/statement/select.hpp |  2 +-
 include/nbdl/sql_db/statement/update.hpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/sql_db/statement/select.hpp b/include/nbdl/sql_db/statement/select.hpp
index fb03913..2eb5ff7 100644
--- a/include/nbdl/sql_db/statement/select.hpp
+++ b/include/nbdl/sql_db/statement/select.hpp
@@ -33,7 +33,7 @@ namespace nbdl::sql_db::statement
     {
       return decltype(detail::string_sum(
         std::declval<Pair1>()
-      , detail::string_sum("=?,"_s, std::declval<PairN>())...
+      , detail::string_sum("=? AND "_s, std::declval<PairN>())...
       , "=?"_s
       )){};
     };
diff --git a/include/nbdl/sql_db/statement/update.hpp b/include/nbdl/sql_db/statement/update.hpp
index b574943..f5aa507 100644
--- a/include/nbdl/sql_db/statement/update.hpp
+++ b/include/nbdl/sql_db/statement/update.hpp
@@ -43,6 +43,16 @@ namespace nbdl::sql_db::statement
       , "\"=?"_s
       )){};
     };
+
+    template <typename Pair1, typename ...PairN>
+    constexpr auto criteria_list(hana::basic_tuple<Pair1, PairN...> const&)
+    {
+      return decltype(detail::string_sum(
+        detail::string_sum("\""_s, hana::first(std::declval<Pair1>()))
+      , detail::string_sum("\"=? AND \""_s, hana::first(std::declval<PairN>()))...
+      , "\"=?"_s
+      )){};
+    };
   }
 
   constexpr auto update = [](auto table_name, auto&& columns_, auto&& keys_)
@@ -56,7 +66,7 @@ namespace nbdl::sql_db::statement
       "UPDATE \""_s, table_name
     , "\" SET "_s
     , update_detail::column_value_list(columns)
-    , " WHERE "_s, update_detail::column_value_list(keys)
+    , " WHERE "_s, update_detail::criteria_list(keys)
     , " LIMIT 1;"_s
     );
 
-- 
2.43.0


From 914e12be61ea439281e58450bee63d715d0f2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 22/36] fix: allow SELECT of an entity without nested entities

---
 include/nbdl/sql_db/detail/string_sum.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/sql_db/detail/string_sum.hpp b/include/nbdl/sql_db/detail/string_sum.hpp
index c019491..1b2231e 100644
--- a/include/nbdl/sql_db/detail/string_sum.hpp
+++ b/include/nbdl/sql_db/detail/string_sum.hpp
@@ -9,6 +9,7 @@
 
 #include <mpdef/list.hpp>
 
+#include <boost/hana/functional/overload.hpp>
 #include <boost/hana/plus.hpp>
 #include <boost/hana/string.hpp>
 #include <boost/hana/sum.hpp>
@@ -23,10 +24,13 @@ namespace nbdl::sql_db::detail
   };
 
   template <typename Delimeter = hana::string<' '>>
-  constexpr auto string_sum_join = [](auto x1, auto ...xs)
-  {
-    return string_sum(x1, hana::plus(Delimeter{}, xs)...);
-  };
+  constexpr auto string_sum_join = hana::overload(
+    []() { return hana::string<>{}; }
+  , [](auto x1, auto ...xs)
+    {
+      return string_sum(x1, hana::plus(Delimeter{}, xs)...);
+    }
+  );
 
   using identifier_quote_string = hana::string<'"'>; // SQL implementation specific (ANSI)
 
-- 
2.43.0


From cd1a6ca227e4590cbbb50d094e9b86b3064b8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 23/36] fix: name the key of a nested entity by its table alias

---
 include/nbdl/fwd/sql_db/select.hpp                        | 2 +-
 include/nbdl/sql_db/statement/detail/table_alias_list.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/sql_db/select.hpp b/include/nbdl/fwd/sql_db/select.hpp
index d62eebd..c450e8c 100644
--- a/include/nbdl/fwd/sql_db/select.hpp
+++ b/include/nbdl/fwd/sql_db/select.hpp
@@ -32,7 +32,7 @@ namespace nbdl::sql_db
   using select_primary_key_name = statement::detail::select_primary_key_name<Entity>;
 
   template <typename Entity, typename Member1, typename ...MemberN>
-  using select_nested_key_name = statement::detail::select_nested_key_name<Member1, MemberN...>;
+  using select_nested_key_name = statement::detail::select_nested_key_name<Entity, Member1, MemberN...>;
 }
 
 #endif
diff --git a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
index aed6360..6b6e0ec 100644
--- a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
+++ b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
@@ -204,7 +204,7 @@ namespace nbdl::sql_db::statement::detail
     sql_db::detail::string_sum(
       identifier_quote<concat_table_alias<table_name<Entity>, member_name<Member>...>>{}
     , table_column_separator{}
-    , identifier_quote<table_key_name<tail<Member...>>>{}
+    , identifier_quote<table_key_name<typename tail<Member...>::member_type>>{}
     )
   );
 
-- 
2.43.0


From 09ea671902dde86aec839c3fc259b96400ea3db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 24/36] fix: require the primary key of an update by its name
 and type

---
 include/nbdl/sql_db/update.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/sql_db/update.hpp b/include/nbdl/sql_db/update.hpp
index 4742d88..3250441 100644
--- a/include/nbdl/sql_db/update.hpp
+++ b/include/nbdl/sql_db/update.hpp
@@ -36,9 +36,9 @@ namespace nbdl::sql_db
 
     constexpr auto is_primary_key = [](auto x)
       -> decltype(hana::and_(
-        hana::first(x) == table_key_name<T>{})
+        hana::first(x) == table_key_name<T>{}
       , hana::typeid_(hana::second(x)) == hana::type_c<primary_key<T>>
-      )
+      ))
     { };
 
     static_assert(
-- 
2.43.0


From 5041c6c9a9bcae01932718fa1fe1e365292ed365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 25/36] fix: insert every row of a container with the foreign
 keys

---
 include/nbdl/sql_db/insert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/insert.hpp b/include/nbdl/sql_db/insert.hpp
index bd1d819..8a88c80 100644
--- a/include/nbdl/sql_db/insert.hpp
+++ b/include/nbdl/sql_db/insert.hpp
@@ -127,7 +127,7 @@ namespace nbdl::sql_db
         insert(
           db_insert
         , std::forward<decltype(x)>(x)
-        , std::forward<ForeignKeys>(keys)
+        , keys
         );
       }
     };
-- 
2.43.0


From df6bc3784261cb169186c9c6e2a2d0d15b74c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 26/36] fix: give an entity one binding tag, not two that are
 ambiguous

---
 include/nbdl/detail/bind_tag_of.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nbdl/detail/bind_tag_of.hpp b/include/nbdl/detail/bind_tag_of.hpp
index 0efdc8b..3639656 100644
--- a/include/nbdl/detail/bind_tag_of.hpp
+++ b/include/nbdl/detail/bind_tag_of.hpp
@@ -85,7 +85,9 @@ namespace nbdl::_b
     { return {}; }
   };
 
+  // The names of an entity's members belong to its tag.
   template <BindableSequence T>
+    requires (!BindableMap<T>)
   struct bto<T> {
     using type = std::invoke_result_t<nbdl::detail::bind_sequence_no_filter_fn, T,
                                      bind_tag_unpack_helper>;
-- 
2.43.0


From 10341408e8b2a4a4c165d163c19c4fb128639bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 27/36] fix: let an api with an enumeration have a signature

---
 include/nbdl/detail/bind_tag_of.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nbdl/detail/bind_tag_of.hpp b/include/nbdl/detail/bind_tag_of.hpp
index 3639656..fd2503d 100644
--- a/include/nbdl/detail/bind_tag_of.hpp
+++ b/include/nbdl/detail/bind_tag_of.hpp
@@ -78,6 +78,12 @@ namespace nbdl::_b
     using type = tag::type<typename T::type>;
   };
 
+  template <typename T>
+    requires std::is_enum_v<T>
+  struct bto<T> {
+    using type = bind_tag_of<std::underlying_type_t<T>>;
+  };
+
   struct bind_tag_unpack_helper {
     template <typename ...X>
     constexpr auto operator()(X&&...) const
-- 
2.43.0


From 730beeecfb3f92195923aa77c85203ed3f7513fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 28/36] fix: a route whose number is out of range is not found

A number in a route that the integral member cannot hold wrapped around and
resolved to a different value: /foo/18446744073709551617 was foo{1}.
---
 include/nbdl/webui/route_map.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 56f50b1..0fdb49e 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -20,7 +20,9 @@
 #include <boost/hana/ext/std/array.hpp>
 #include <boost/hana/unpack.hpp>
 #include <boost/hana/type.hpp>
+#include <cstddef>
 #include <iterator>
+#include <limits>
 #include <mpdef/pair.hpp>
 #include <string>
 #include <string_view>
@@ -61,6 +63,11 @@ namespace nbdl::webui
           // invalid character
           return 0;
         }
+        if (result > (std::numeric_limits<std::size_t>::max() - digit_value) / 10)
+        {
+          // too large
+          return 0;
+        }
         result *= 10;
         result += digit_value;
       }
@@ -83,8 +90,10 @@ namespace nbdl::webui
     {
       bool operator()(Member& m, std::string_view param) const
       {
-        m = to_integral_param(param);
-        return m != 0;
+        std::size_t const value = to_integral_param(param);
+        m = static_cast<Member>(value);
+        // the value must be one that Member can represent
+        return m > 0 && static_cast<std::size_t>(m) == value;
       };
     };
 
-- 
2.43.0


From 56f93297c618e7d6bb2cb73d55226be0e678d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 29/36] fix: dropping more elements than an mpdef::list has
 gives the empty list

---
 include/mpdef/list.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mpdef/list.hpp b/include/mpdef/list.hpp
index faf6b2c..eebffa8 100644
--- a/include/mpdef/list.hpp
+++ b/include/mpdef/list.hpp
@@ -132,10 +132,10 @@ namespace boost::hana
     template<typename Xs, typename Size>
     static constexpr auto apply(Xs, Size)
     {
-      return helper<Size::value>(
-        Xs{},
-        std::make_index_sequence<decltype(hana::length(Xs{}))::value - Size::value>{}
-      );
+      constexpr std::size_t length = decltype(hana::length(Xs{}))::value;
+      constexpr std::size_t offset = Size::value < length ? Size::value : length;
+
+      return helper<offset>(Xs{}, std::make_index_sequence<length - offset>{});
     }
   };
 
-- 
2.43.0


From b97110a82b27a58be18b958e36f847fb2ce47be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 30/36] fix: branches of several nodes, of none and nested ones
 are shown and replaced

---
 include/nbdl/webui/detail/dom_manips.hpp | 67 +++++++++++++++++++-----
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index aa6cc4a..fb56528 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -326,6 +326,48 @@ namespace nbdl::webui::detail
     return NodeContainers{{(static_cast<void>(i), emscripten::val::undefined())...}};
   }
 
+  // A branch that is exactly one element or one text node is placed as it is.
+  // Any other branch (several nodes, none, a nested branch) stays in a span.
+
+  template <typename>
+  constexpr int action_depth = 0;
+
+  template <typename ...Params>
+  constexpr int action_depth<action_fn<begin, Params...>> = 1;
+
+  template <typename ...Params>
+  constexpr int action_depth<action_fn<end, Params...>> = -1;
+
+  template <typename>
+  constexpr bool is_node_action = false;
+
+  template <typename ...Params>
+  constexpr bool is_node_action<action_fn<begin, Params...>> = true;
+
+  template <typename Value>
+  constexpr bool is_node_action<action_fn<html::tag::text_node_t, Value>> = true;
+
+  struct is_single_node_fn
+  {
+    template <typename ...Fn>
+    constexpr bool operator()(mpdef::list<Fn...>) const
+    {
+      int depth = 0;
+      int count = 0;
+      bool result = true;
+
+      ((
+        count += depth == 0 ? 1 : 0
+      , result = result and (depth > 0 or is_node_action<Fn>)
+      , depth += action_depth<Fn>
+      ), ...);
+
+      return result and count == 1;
+    }
+  };
+
+  constexpr is_single_node_fn is_single_node{};
+
   //  Branches - list<pair<T, list<action...>>...>
   template <typename Store, typename Tag, typename PathSpec, typename Branches>
   struct mut_action_fn<ui_spec::branch_spec<Tag, PathSpec, Branches>, Store>
@@ -353,13 +395,6 @@ namespace nbdl::webui::detail
 
     void update_branch()
     {
-      // FIXME
-      // How do we know if the child is a branch and its element changes??
-      // Options:
-      // 1. We could flatten composed branches to prevent nesting.
-      // 2. Nested renderers could have a get_element function that refers
-      //    to this node's current element.
-
       std::size_t index = nbdl::ui_helper::get_branch_index<BranchSpec>(store);
       if (index != branch_id)
       {
@@ -402,14 +437,22 @@ namespace nbdl::webui::detail
     {
       parent_el = p;
 
-      auto temp_span = emscripten::val::global("document").template
-        call<emscripten::val>("createElement", emscripten::val("span"));
-
       constexpr auto range = hana::make_range(hana::size_c<0>, mp_size<FnLists>{}); 
       hana::for_each(range, [&](auto index)
       {
-        hana::at(renderers, index).render(temp_span);
-        node_containers[decltype(index)::value] = temp_span["lastChild"];
+        auto span = emscripten::val::global("document").template
+          call<emscripten::val>("createElement", emscripten::val("span"));
+
+        hana::at(renderers, index).render(span);
+
+        if constexpr (is_single_node(mp_at_c<FnLists, decltype(index)::value>{}))
+        {
+          node_containers[decltype(index)::value] = span["lastChild"];
+        }
+        else
+        {
+          node_containers[decltype(index)::value] = std::move(span);
+        }
       });
 
       update_branch();
-- 
2.43.0


From bc3cbc562fcce26a60475476973b33d49a3b7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 31/36] fix: a loop in a page keeps what is beside it

---
 include/nbdl/webui/detail/dom_manips.hpp | 29 ++++++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index fb56528..7af3bf1 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -401,7 +401,7 @@ namespace nbdl::webui::detail
         // Something changed! :D
         if (branch_id != static_cast<std::size_t>(-1))
         {
-          parent_el.template call<void>(
+          node_containers[branch_id]["parentNode"].template call<void>(
             "replaceChild"
           , node_containers[index]
           , node_containers[branch_id]
@@ -663,19 +663,29 @@ namespace nbdl::webui::detail
     using NodeRenderer = renderer_impl<decltype(std::declval<Range>().begin()), NodeFnList, hana::true_>;
 
     Store store;
-    emscripten::val el;
+    // empty text nodes that the nodes of the loop are kept between
+    emscripten::val front;
+    emscripten::val back;
     std::vector<NodeRenderer> renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , el(emscripten::val::undefined())
+      , front(init_marker())
+      , back(init_marker())
       , renderers()
     { }
 
+    emscripten::val init_marker()
+    {
+      return emscripten::val::global("document").template
+        call<emscripten::val>("createTextNode", emscripten::val(""));
+    }
+
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      el = p;
+      p.template call<void>("appendChild", front);
+      p.template call<void>("appendChild", back);
       update();
       return std::forward<ParentElement>(p);
     }
@@ -683,7 +693,12 @@ namespace nbdl::webui::detail
     void update()
     {
       // This is currently very naive.
-      el.set("innerHTML", emscripten::val(""));
+      auto document = emscripten::val::global("document");
+      auto nodes = document.template call<emscripten::val>("createRange");
+      nodes.template call<void>("setStartAfter", front);
+      nodes.template call<void>("setEndBefore", back);
+      nodes.template call<void>("deleteContents");
+
       ui_helper::match_path_spec(store, PathSpec{}, [&](auto const& container)
       {
         Range range = store_range(ItrKey{}, container, store);
@@ -698,6 +713,8 @@ namespace nbdl::webui::detail
         std::vector<NodeRenderer> temp_renderers{};
         temp_renderers.reserve(container.size());
 
+        auto el = document.template call<emscripten::val>("createDocumentFragment");
+
         for (auto x : range)
         {
           NodeRenderer temp_renderer{x};
@@ -705,6 +722,8 @@ namespace nbdl::webui::detail
           temp_renderers.push_back(std::move(temp_renderer));
         }
         renderers = std::move(temp_renderers);
+
+        back["parentNode"].template call<void>("insertBefore", el, back);
       });
     }
 
-- 
2.43.0


From 9cba5af674c032970ad5f1dff0018a16201d18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 32/36] fix: let a pipe own its rejection handlers

---
 include/nbdl/catch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/catch.hpp b/include/nbdl/catch.hpp
index c256b32..c994f1a 100644
--- a/include/nbdl/catch.hpp
+++ b/include/nbdl/catch.hpp
@@ -63,7 +63,7 @@ namespace nbdl
     template <typename RejectionHandler>
     auto operator()(RejectionHandler&& fn) const
     {
-      return catch_t<RejectionHandler>{std::forward<RejectionHandler>(fn)};
+      return catch_t<std::decay_t<RejectionHandler>>{std::forward<RejectionHandler>(fn)};
     }
   };
 
-- 
2.43.0


From 2d5a9775e9cfee9e0f47e2c0ecaedfb67d132fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:15 +0000
Subject: [PATCH 33/36] fix: refuse JSON numbers that a char or an enum cannot
 hold

---
 include/nbdl/binder/jsoncpp.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 0cdc54b..f1a1d9a 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -21,9 +21,11 @@
 #include <nbdl/util/base64_encode.hpp>
 
 #include <json/json.h>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <utility>
 
 namespace nbdl { namespace binder { namespace jsoncpp
@@ -45,7 +47,11 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        field = obj.asInt();
+        int const value = obj.asInt();
+        if (value < std::numeric_limits<char>::min() ||
+            value > std::numeric_limits<char>::max())
+          throw std::runtime_error("JSON Integral out of range");
+        field = value;
       }
 
       void bind_unsigned(Json::Value const& obj, unsigned int& field)
@@ -66,7 +72,11 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_enum(Json::Value const& obj, T& field) {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        field = static_cast<T>(obj.asUInt());
+        using Underlying = std::underlying_type_t<T>;
+        unsigned int const value = obj.asUInt();
+        if (value > static_cast<unsigned long long>(std::numeric_limits<Underlying>::max()))
+          throw std::runtime_error("JSON Integral out of range");
+        field = static_cast<T>(value);
       }
 
       void bind_(Json::Value const& obj, double& field)
-- 
2.43.0


From 3e1f291ebf67ef27a100e82ad50416adafbb3e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:46 +0000
Subject: [PATCH 34/36] fix: a route set by its text is set in the state too

The page's address was changed, but the browser tells nobody of that: the
state kept the route and the text it had.
---
 include/nbdl/webui/nav_route.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index d56e9b8..55e1d67 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -165,6 +165,7 @@ namespace nbdl
       if constexpr(nbdl::webui::detail::is_nav_route_string_path<Message>)
       {
         webui::detail::web_route_update(message::get_payload(m));
+        p.receiver->virtual_(webui::detail::receive_event_s)(*p.receiver);
       }
       else if constexpr(nbdl::webui::detail::is_nav_route_path<Message>)
       {
-- 
2.43.0


From 84de81358d112ccb8b42d2cad31739c6894ee0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 35/36] fix: resolve a message that cannot be parsed only once

The catch handler resolved with the parse error and then fell through to
the match, which resolved the same promise again (with another error, or
with whatever was read before the parser threw).
---
 include/nbdl/app/serializer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/app/serializer.hpp b/include/nbdl/app/serializer.hpp
index ab39de3..08cb47f 100644
--- a/include/nbdl/app/serializer.hpp
+++ b/include/nbdl/app/serializer.hpp
@@ -65,6 +65,7 @@ namespace nbdl::app
           nbdl::binder::jsoncpp::from_string(msg_buf, var);
         } catch(...) {
           resolve(make_error("JSONCPP Parse Error"));
+          return;
         }
 
         nbdl::match(std::move(var), hana::overload_linearly(
-- 
2.43.0


From d653f3c85d53f6794e4f9150ba93a0e45a7b7a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:08 +0000
Subject: [PATCH 36/36] fix: do not move from the message that the caller of a
 client keeps

send_message takes a forwarding reference; an lvalue was moved from.
---
 include/nbdl/app/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/app/client.hpp b/include/nbdl/app/client.hpp
index 05650e2..bb99d5d 100644
--- a/include/nbdl/app/client.hpp
+++ b/include/nbdl/app/client.hpp
@@ -78,7 +78,7 @@ namespace nbdl::app {
         return;
       }
 
-      conn->send_message(serializer_.serialize(std::move(message)));
+      conn->send_message(serializer_.serialize(std::forward<Message>(message)));
     }
   };
 
-- 
2.43.0

