From 28ce44f30e7b0a3cd4ce16794d4065c77ef4add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:04 +0000
Subject: [PATCH 01/76] fix: keep reading until the whole part of a message is
 received

A read on a stream socket may return less than what was asked for. readData
reported success in that case, with less data than the length that was
requested; the name or payload of the message was truncated, the remainder was
interpreted as the next message and the copy of the name read past the end of
the received data.
---
 scalopus_transport/src/protocol.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 0ecaeb0..b54f065 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -34,6 +34,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <array>
+#include <cerrno>
 #include <cstring>
 #include <iostream>
 
@@ -54,12 +55,16 @@ bool readData(int fd, size_t length, Data& incoming)
     ssize_t chunk_received = ::read(fd, buf.data(), std::min(length - received, chunk_size));
     if (chunk_received == -1)
     {
+      if (errno == EINTR)
+      {
+        continue;  // interrupted by a signal before any data was read, try again.
+      }
       return false;  // this should not happen as it indicates a broken transmission or broken file descriptor.
     }
 
     // Add the data to incoming.
     incoming.resize(received + static_cast<size_t>(chunk_received));
-    std::memcpy(&incoming[received], buf.data(), static_cast<size_t>(chunk_received));
+    std::memcpy(incoming.data() + received, buf.data(), static_cast<size_t>(chunk_received));
     received += static_cast<size_t>(chunk_received);
 
     // If we have received all data, continue.
@@ -68,23 +73,12 @@ bool readData(int fd, size_t length, Data& incoming)
       break;
     }
 
-    if (chunk_received == chunk_size)
-    {
-      // read the next chunk.
-      continue;
-    }
-
-    if (chunk_received == -1)
-    {
-      // an error occured.
-      return false;
-    }
-    else if (chunk_received == 0)
+    if (chunk_received == 0)
     {
       // end of file.
       return false;
     }
-    break;
+    // A read may return less than requested, keep reading until we have received everything.
   }
   return true;
 }
-- 
2.43.0


From 638938c653c1f3f3c91dd80dcea98ac1368aa1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 02/76] fix: send the remainder of a message when a signal
 interrupts the send

A blocking send of a large message that is interrupted by a signal returns the
number of bytes sent so far. This was treated as a failure, leaving a partial
message on the connection and the peer out of sync.
---
 scalopus_transport/src/protocol.cpp | 36 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index b54f065..1f73386 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -146,6 +146,28 @@ bool receive(int fd, Msg& incoming)
   return false;
 }
 
+static bool sendData(int fd, const void* data, size_t length)
+{
+  const char* position = static_cast<const char*>(data);
+  size_t remaining = length;
+  while (remaining != 0)
+  {
+    ssize_t sent = ::send(fd, position, remaining, MSG_NOSIGNAL);
+    if (sent == -1)
+    {
+      if (errno == EINTR)
+      {
+        continue;  // interrupted by a signal before any data was sent, try again.
+      }
+      return false;
+    }
+    // A signal can also interrupt the send part way through the data.
+    position += sent;
+    remaining -= static_cast<size_t>(sent);
+  }
+  return true;
+}
+
 bool send(int fd, const Msg& outgoing)
 {
   if (fd == 0)
@@ -156,35 +178,31 @@ bool send(int fd, const Msg& outgoing)
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
   // Send request id.
-  if (::send(fd, &outgoing.request_id, sizeof(outgoing.request_id), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(outgoing.request_id)))
+  if (!sendData(fd, &outgoing.request_id, sizeof(outgoing.request_id)))
   {
     return false;
   }
 
   // Send endpoint length
-  if (::send(fd, &length_endpoint_name, sizeof(length_endpoint_name), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(sizeof(length_endpoint_name)))
+  if (!sendData(fd, &length_endpoint_name, sizeof(length_endpoint_name)))
   {
     return false;
   }
 
   // Send endpoint name.
-  if (::send(fd, outgoing.endpoint.data(), length_endpoint_name, MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(length_endpoint_name))
+  if (!sendData(fd, outgoing.endpoint.data(), length_endpoint_name))
   {
     return false;
   }
 
   // Send data length
-  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))
+  if (!sendData(fd, &length_data, sizeof(length_data)))
   {
     return false;
   }
 
   // Send data
-  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
-      static_cast<ssize_t>(outgoing.data.size()))
+  if (!sendData(fd, outgoing.data.data(), outgoing.data.size()))
   {
     return false;
   }
-- 
2.43.0


From 69fefaf39d7495488a69077988b54668b2389308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 03/76] fix: register a request before sending it

The promise of a request was only stored after the request was sent. If the
response arrived before that, it was not matched to the request: it was handed
to the endpoint as unsolicited data and the request was never answered.
---
 scalopus_transport/src/transport_unix.cpp | 25 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0b3564c..7d2720a 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -146,18 +146,29 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   auto promise = std::promise<Data>();
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
+  // Store the promise in the map before sending, the response may arrive as soon as the request is sent.
+  {
+    std::lock_guard<std::mutex> lock(request_lock_);
+    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
+  }
+
+  bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    if (!protocol::send(client_fd_, outgoing_msg))
+    sent = protocol::send(client_fd_, outgoing_msg);
+  }
+
+  if (!sent)
+  {
+    // Send failed, take the promise from the map and let it carry the failure.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    auto request_it = ongoing_requests_.find({ remote_endpoint_name, request_id });
+    if (request_it != ongoing_requests_.end())
     {
-      promise.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
-      return response;
+      request_it->second.first.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
+      ongoing_requests_.erase(request_it);
     }
   }
-
-  // Send succeeded, store the promise in the map, its result should be pending.
-  std::lock_guard<std::mutex> lock(request_lock_);
-  ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
   return response;
 }
 
-- 
2.43.0


From 885f9a02acee65228d50ed926b00f0da0dc1164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 04/76] fix: do not process a message that was not received
 completely

When the connection to the server was lost while receiving a message, the
partially received message was still used to answer a request or passed to an
endpoint.
---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 7d2720a..1eb84da 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -277,6 +277,7 @@ void TransportUnix::work()
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
         client_fd_ = 0;
+        continue;
       }
 
       // lock the requests map.
-- 
2.43.0


From 95c7febacbb4654d0bb56d8f3b0c8f8df4e31056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 05/76] fix: do not terminate or leak the socket when serving
 or connecting fails

The destructor of a transport that could not be bound or connected joined a
thread that was never started, which terminates the process. The socket of such
a transport was never closed.
---
 scalopus_transport/src/transport_unix.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 1eb84da..804550d 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -54,6 +54,7 @@ bool TransportUnix::serve()
   if (server_fd_ == -1)
   {
     logger_("[TransportUnix] Could not create socket.");
+    server_fd_ = 0;
     return false;
   }
 
@@ -70,6 +71,8 @@ bool TransportUnix::serve()
   // Obtain the real path size such that we don't set a path that's too long.
   std::size_t path_length = sizeof(socket_config.sun_family) + strlen(socket_config.sun_path + 1) + 1;
 
+  connections_.insert(server_fd_);
+
   // Bind the unix socket on the path we created.
   if (bind(server_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
@@ -88,8 +91,6 @@ bool TransportUnix::serve()
     //  logger_("[TransportUnix] Succesfully bound: " + ss.str());
   }
 
-  connections_.insert(server_fd_);
-
   // If we get here, we are golden, we got a working unix domain socket and can start our worker thread.
   running_ = true;
   thread_ = std::thread([this]() { work(); });
@@ -104,8 +105,10 @@ bool TransportUnix::connect(std::size_t pid)
   if (client_fd_ == -1)
   {
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
+    client_fd_ = 0;
     return false;
   }
+  connections_.insert(client_fd_);
 
   // Create the socket struct.
   struct sockaddr_un socket_config;
@@ -127,7 +130,6 @@ bool TransportUnix::connect(std::size_t pid)
   {
     //  logger_("[TransportUnix] Succesfully connected: " + ss.str());
   }
-  connections_.insert(client_fd_);
 
   running_ = true;
   thread_ = std::thread([&]() { work(); });
@@ -216,7 +218,10 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  thread_.join();
+  if (thread_.joinable())
+  {
+    thread_.join();
+  }
 
   // Then clean up all the connections.
   for (const auto& connection : connections_)
-- 
2.43.0


From 613cb197c4f604d2150bcbc0f461441ceba42cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 06/76] fix: shut a connection down before closing its
 descriptor

The descriptor was closed first. Another thread could have obtained the same
descriptor number for one of its own sockets, which was then shut down.
---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 804550d..c011a74 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -226,8 +226,8 @@ TransportUnix::~TransportUnix()
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-    ::close(connection);
     ::shutdown(connection, 2);
+    ::close(connection);
   }
 }
 
@@ -348,16 +348,16 @@ void TransportUnix::work()
         }
         else
         {
-          ::close(connection);
           ::shutdown(connection, 2);
+          ::close(connection);
           connections_.erase(connection);
         }
       }
 
       if (FD_ISSET(connection, &except_fds))
       {
-        ::close(connection);
         ::shutdown(connection, 2);
+        ::close(connection);
         connections_.erase(connection);
       }
     }
-- 
2.43.0


From 4ac3cc3805dcc969803432be8bb708abed76f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:46 +0000
Subject: [PATCH 07/76] fix: do not use the descriptor sets if select failed

When select is interrupted by a signal the descriptor sets are unmodified: every
connection was considered to be readable and the worker thread blocked in accept
or read, stalling the transport and blocking its destructor.
---
 scalopus_transport/src/transport_unix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index c011a74..00bfaab 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -258,6 +258,9 @@ void TransportUnix::work()
     if (select_result == -1)
     {
       logger_("[TransportUnix]: Failure occured on select.");
+      // The descriptor sets are not valid, for example because a signal interrupted the call.
+      FD_ZERO(&read_fds);
+      FD_ZERO(&except_fds);
     }
 
     // Handle server stuff, accept new connection:
-- 
2.43.0


From 109ae746fdaac6d652e9e2ca3e0bd5611d862483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 08/76] fix: send broadcasts in the order in which they were
 made

Broadcasts were taken from the back of the queue, so that the clients received
the broadcasts that were queued at the same time in reverse order.
---
 scalopus_interface/include/scalopus_interface/transport.h | 3 ++-
 scalopus_interface/src/transport.cpp                      | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/scalopus_interface/include/scalopus_interface/transport.h b/scalopus_interface/include/scalopus_interface/transport.h
index e8f388a..83245c7 100644
--- a/scalopus_interface/include/scalopus_interface/transport.h
+++ b/scalopus_interface/include/scalopus_interface/transport.h
@@ -30,6 +30,7 @@
 #ifndef SCALOPUS_INTERFACE_TRANSPORT_H
 #define SCALOPUS_INTERFACE_TRANSPORT_H
 
+#include <deque>
 #include <future>
 #include <map>
 #include <memory>
@@ -117,7 +118,7 @@ protected:
    */
   std::pair<std::string, Data> popBroadcast();
 
-  std::vector<std::pair<std::string, Data>> broadcast_messages_;  //!< List of broadcast messages to send out.
+  std::deque<std::pair<std::string, Data>> broadcast_messages_;  //!< List of broadcast messages to send out.
   mutable std::mutex broadcast_message_mutex_;
 
   std::map<std::string, Endpoint::Ptr> endpoints_;  //!< Endpoints known by this transport, key is their name.
diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index c18845c..3bc6fab 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -45,8 +45,8 @@ void Transport::broadcast(const std::string& remote_endpoint_name, const Data& o
 std::pair<std::string, Data> Transport::popBroadcast()
 {
   std::lock_guard<std::mutex> lock(broadcast_message_mutex_);
-  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.back());
-  broadcast_messages_.pop_back();
+  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());
+  broadcast_messages_.pop_front();
   return tmp;
 }
 
-- 
2.43.0


From 9f9ae2bac3ce738f81f184322521c37b505ea54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 09/76] fix: allow an endpoint to use its transport when it
 receives unsolicited data

The client side of the unix transport held the locks for its requests and its
endpoints while it called the endpoint, a request made from that call (or by
something the call waits for) deadlocked.
---
 scalopus_transport/src/transport_unix.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 00bfaab..ebe890d 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -289,7 +289,7 @@ void TransportUnix::work()
       }
 
       // lock the requests map.
-      std::lock_guard<std::mutex> lock(request_lock_);
+      std::unique_lock<std::mutex> lock(request_lock_);
       // Try to find a promise for the message we just received.
       auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });
       if (request_it != ongoing_requests_.end())
@@ -303,16 +303,17 @@ void TransportUnix::work()
       }
       else
       {
-        // no active request for this outstanding. Hand it off to the endpoint with this name.
-        std::lock_guard<std::mutex> elock(endpoint_mutex_);
-        const auto it = endpoints_.find(incoming.endpoint);
-        if (it != endpoints_.end())
+        // no active request for this outstanding. Hand it off to the endpoint with this name, without holding any locks
+        // such that the endpoint can use the transport.
+        lock.unlock();
+        const auto endpoint = getEndpoint(incoming.endpoint);
+        if (endpoint != nullptr)
         {
           protocol::Msg response;
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (it->second->unsolicited(*this, incoming.data, response.data))
+          if (endpoint->unsolicited(*this, incoming.data, response.data))
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
-- 
2.43.0


From ecf12ef1aeb73b478590d941628481f8e66594b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 10/76] fix: lock the endpoints while looking for the endpoint
 of a request

The worker thread searched the map of endpoints without the lock, racing with
endpoints being added by other threads.
---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index ebe890d..9ecf794 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -415,12 +415,12 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   response.endpoint = request.endpoint;
   response.request_id = request.request_id;
   // Check if we have this endpoint.
-  const auto it = endpoints_.find(request.endpoint);
-  if (it != endpoints_.end())
+  const auto endpoint = getEndpoint(request.endpoint);
+  if (endpoint != nullptr)
   {
     Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return it->second->handle(*this, request.data, response.data);
+    return endpoint->handle(*this, request.data, response.data);
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From ee06d6922e7e8941a0fbe96ca5bafbf7f0038df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 11/76] fix: an exception thrown by an endpoint does not
 terminate the process

The transports call the endpoints from their worker thread, anything an endpoint
throws (for example because it received malformed data) left that thread and
terminated the process.
---
 scalopus_transport/src/transport_loopback.cpp | 29 ++++++++++++++-----
 scalopus_transport/src/transport_unix.cpp     | 20 +++++++++++--
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 416edc5..7ed24a0 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -107,7 +107,15 @@ void TransportLoopback::work()
         }
 
         Data resp;
-        auto res = endpoint->handle(*server_, outgoing, resp);
+        bool res{ false };
+        try
+        {
+          res = endpoint->handle(*server_, outgoing, resp);
+        }
+        catch (const std::exception& e)
+        {
+          logger_("[TransportLoopback] Endpoint failed on a request: " + std::string(e.what()));
+        }
         if (res)
         {
           promise.set_value(resp);
@@ -131,16 +139,23 @@ void TransportLoopback::work()
             auto endpoint = client->getEndpoint(remote_endpoint_name);
             if (endpoint != nullptr)
             {
-              Data resp;
-              if (endpoint->unsolicited(*client, outgoing, resp))
+              try
               {
-                Data resp2;
-                if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
+                Data resp;
+                if (endpoint->unsolicited(*client, outgoing, resp))
                 {
-                  // We stop here... This is slightly different than a real transport... but works for now.
-                  throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
+                  Data resp2;
+                  if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
+                  {
+                    // We stop here... This is slightly different than a real transport... but works for now.
+                    throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
+                  }
                 }
               }
+              catch (const std::exception& e)
+              {
+                logger_("[TransportLoopback] Endpoint failed on unsolicited data: " + std::string(e.what()));
+              }
             }
           }
         }
diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 9ecf794..7454ed0 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -313,7 +313,16 @@ void TransportUnix::work()
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (endpoint->unsolicited(*this, incoming.data, response.data))
+          bool respond{ false };
+          try
+          {
+            respond = endpoint->unsolicited(*this, incoming.data, response.data);
+          }
+          catch (const std::exception& e)
+          {
+            logger_("[TransportUnix] Endpoint failed on unsolicited data: " + std::string(e.what()));
+          }
+          if (respond)
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
@@ -420,7 +429,14 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   {
     Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return endpoint->handle(*this, request.data, response.data);
+    try
+    {
+      return endpoint->handle(*this, request.data, response.data);
+    }
+    catch (const std::exception& e)
+    {
+      logger_("[TransportUnix] Endpoint failed on a request: " + std::string(e.what()));
+    }
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 36b8219f6a76d883a65925a32e019dfb2a3f9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 12/76] fix: loopback request to an endpoint that does not
 exist

The request was failed, but the non-existing endpoint was then still used.
---
 scalopus_transport/src/transport_loopback.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 7ed24a0..4891dab 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -104,6 +104,7 @@ void TransportLoopback::work()
         {
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+          continue;
         }
 
         Data resp;
-- 
2.43.0


From 7851427fd1373c7ccb632566c528cf62916c60b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 13/76] fix: loopback response to a broadcast without endpoint
 at the server

A client endpoint can respond to a broadcast for which the server has no
endpoint, this dereferenced a null pointer.
---
 scalopus_transport/src/transport_loopback.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 4891dab..ed082d8 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -146,7 +146,8 @@ void TransportLoopback::work()
                 if (endpoint->unsolicited(*client, outgoing, resp))
                 {
                   Data resp2;
-                  if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
+                  auto server_endpoint = getEndpoint(remote_endpoint_name);
+                  if (server_endpoint != nullptr && server_endpoint->handle(*client, resp, resp2))
                   {
                     // We stop here... This is slightly different than a real transport... but works for now.
                     throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
-- 
2.43.0


From 5270686772a8b673e6384de61d288527fbeca0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:28 +0000
Subject: [PATCH 14/76] fix: loopback request made on the server side

The worker thread used the server of the transport, which a transport that is
the server itself doesn't have. Fail the request, like the unix transport does.
---
 scalopus_transport/src/transport_loopback.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index ed082d8..91efc66 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -66,6 +66,12 @@ TransportLoopback::PendingResponse TransportLoopback::request(const std::string&
   auto promise = std::promise<Data>();
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
+  if (server_ == nullptr)
+  {
+    promise.set_exception(std::make_exception_ptr(communication_error("Not connected to a server.")));
+    return response;
+  }
+
   std::lock_guard<decltype(request_lock_)> lock(request_lock_);
   ongoing_requests_.emplace_back(remote_endpoint_name, outgoing, std::move(promise), response);
 
-- 
2.43.0


From 08855b31d96c5bdc8fa69c7542634c93579a4bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:32 +0000
Subject: [PATCH 15/76] fix: lock the list of clients of the loopback transport

Clients were added to the list while the worker thread used it to deliver
broadcasts.
---
 scalopus_transport/src/transport_loopback.cpp | 8 +++++++-
 scalopus_transport/src/transport_loopback.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 91efc66..024ab3a 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -51,6 +51,7 @@ TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
 
 void TransportLoopback::addClient(Transport::WeakPtr client)
 {
+  std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
   clients_.push_back(client);
 }
 
@@ -138,7 +139,12 @@ void TransportLoopback::work()
         auto broadcast = Transport::popBroadcast();
         const auto& remote_endpoint_name = broadcast.first;
         const auto& outgoing = broadcast.second;
-        for (auto weak_client : clients_)
+        std::vector<Transport::WeakPtr> clients;
+        {
+          std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
+          clients = clients_;
+        }
+        for (const auto& weak_client : clients)
         {
           auto client = weak_client.lock();
           if (client != nullptr)
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index bed74be..98cd40f 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -81,6 +81,7 @@ private:
   Ptr server_;  //!< If populated this is the server the client is connected to.
 
   std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
+  mutable std::mutex clients_lock_;          //!< Lock to guard the list of clients.
 
   /**
    * @brief Function in which we server the ongoing requests and broadcasts.
-- 
2.43.0


From 498f34eb7accf39c3bf8104d27b3e7d078251e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:32 +0000
Subject: [PATCH 16/76] fix: allow the loopback worker to release the last
 reference to its transport

A client keeps its server alive. If a client was released while the server's
worker thread delivered a broadcast to it, and nothing else referred to the
server, the destructor of the server ran in its own worker thread and terminated
the process by joining that thread. This also makes the flag that stops the
worker atomic.
---
 scalopus_transport/src/transport_loopback.cpp | 22 +++++++++++++++----
 scalopus_transport/src/transport_loopback.h   |  6 +++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 024ab3a..c663968 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -34,14 +34,20 @@ namespace scalopus
 {
 TransportLoopback::TransportLoopback()
 {
-  running_ = true;
   thread_ = std::thread([&]() { work(); });
 }
 
 TransportLoopback::~TransportLoopback()
 {
-  running_ = false;
-  thread_.join();
+  *running_ = false;
+  if (thread_.get_id() == std::this_thread::get_id())
+  {
+    thread_.detach();  // The worker thread itself released the last reference to this, it can't wait for itself.
+  }
+  else
+  {
+    thread_.join();
+  }
 }
 
 TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
@@ -87,7 +93,8 @@ std::size_t TransportLoopback::pendingRequests() const
 
 void TransportLoopback::work()
 {
-  while (running_)
+  const auto running = running_;  // Outlives this instance if it is destroyed by this thread.
+  while (*running)
   {
     // First, server any requests that are pending.
     {
@@ -171,6 +178,13 @@ void TransportLoopback::work()
                 logger_("[TransportLoopback] Endpoint failed on unsolicited data: " + std::string(e.what()));
               }
             }
+            // The client keeps its server alive, if we hold the last reference to the client we are destroyed here.
+            endpoint.reset();
+            client.reset();
+            if (!*running)
+            {
+              return;
+            }
           }
         }
       }
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 98cd40f..36524d1 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport_factory.h>
 #include <scalopus_transport/transport_loopback.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <memory>
@@ -88,8 +89,9 @@ private:
    */
   void work();
 
-  bool running_{ true };  //!< Bool to stop the worker loop.
-  std::thread thread_;    //!< The thread which drops into work.
+  //! Bool to stop the worker loop.
+  std::shared_ptr<std::atomic_bool> running_{ std::make_shared<std::atomic_bool>(true) };
+  std::thread thread_;  //!< The thread which drops into work.
 
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
 
-- 
2.43.0


From 04b5556bacda70e9800515d5b14b402ef5de977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 17/76] fix: initialise the timestamp of an event without one

---
 scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
index 64d7e33..b5bee39 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
@@ -94,7 +94,7 @@ public:
 private:
   std::string line_;  //! Original line from babeltrace.
 
-  double timestamp_;               //! Timestamp of this event.
+  double timestamp_{ 0.0 };        //! Timestamp of this event.
   std::string hostname_;           //! Hostname this event originated from.
   std::string tracepoint_domain_;  //! Tracepoint domain of this event.
   std::string tracepoint_name_;    //! Tracepoint name of this event.
-- 
2.43.0


From a533e5e28da537331aede17189138366df11355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:26 +0000
Subject: [PATCH 18/76] fix: numbers that are out of range do not abort parsing
 an event

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index a7633f5..c332814 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -28,6 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/ctfevent.h"
+#include <stdexcept>
 
 namespace scalopus
 {
@@ -63,6 +64,10 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
+  catch (const std::out_of_range&)
+  {
+    return;
+  }
 
   // Go for the hostname, this is the first thing between spaces.
   start_pos = end_pos;
@@ -166,6 +171,9 @@ CTFEvent::CTFEvent(std::string line)
       catch (const std::invalid_argument&)
       {
       }
+      catch (const std::out_of_range&)
+      {
+      }
     }
     return res;
   };
-- 
2.43.0


From 943c36b73abb7a6383a5b9e5a5fe9c6a95d57af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:53 +0000
Subject: [PATCH 19/76] fix: only report integers the line states, also
 hexadecimal ones

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index c332814..c3b03c4 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -161,12 +161,22 @@ CTFEvent::CTFEvent(std::string line)
 
       // now, we have to parse the kvpair.
       size_t kvsplit_point = kvpair.find(" = ");
+      if (kvsplit_point == std::string::npos)
+      {
+        continue;
+      }
       std::string key = kvpair.substr(0, kvsplit_point);
       std::string value = kvpair.substr(kvsplit_point + 3);  // 3 is length of " = "
       try
       {
         // if value is a string, this will fail, we need to catch that.
-        res[key] = std::stoull(value);
+        // Base 0 also takes integers that are displayed as hexadecimal, anything that is not an integer is ignored.
+        size_t parsed = 0;
+        const auto number = std::stoull(value, &parsed, 0);
+        if (parsed == value.size())
+        {
+          res[key] = number;
+        }
       }
       catch (const std::invalid_argument&)
       {
-- 
2.43.0


From 15b8afe6d66d420baa05395730e6f886d9c53f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:53 +0000
Subject: [PATCH 20/76] fix: separators inside strings do not end a field or
 context

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 38 ++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index c3b03c4..832c54e 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -32,6 +32,30 @@
 
 namespace scalopus
 {
+/**
+ * @brief Find the position of needle in text from start onwards, ignoring anything inside quoted strings.
+ */
+static size_t findUnquoted(const std::string& text, const std::string& needle, size_t start)
+{
+  bool quoted = false;
+  for (size_t i = start; i < text.size(); i++)
+  {
+    if (quoted && text[i] == '\\')
+    {
+      i++;  // skip the escaped character.
+    }
+    else if (text[i] == '"')
+    {
+      quoted = !quoted;
+    }
+    else if (!quoted && text.compare(i, needle.size(), needle) == 0)
+    {
+      return i;
+    }
+  }
+  return std::string::npos;
+}
+
 CTFEvent::CTFEvent(std::string line)
 {
   // Line we are matching is:
@@ -101,8 +125,8 @@ CTFEvent::CTFEvent(std::string line)
 
   // Obtain the stream context between the curly braces.
   start_pos = end_pos;
-  start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
+  start_pos = findUnquoted(line, "{", start_pos);
+  end_pos = findUnquoted(line, "}", start_pos + 1);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
@@ -111,8 +135,8 @@ CTFEvent::CTFEvent(std::string line)
 
   // Obtain the event context between the curly braces.
   start_pos = end_pos;
-  start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
+  start_pos = findUnquoted(line, "{", start_pos);
+  end_pos = findUnquoted(line, "}", start_pos + 1);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
@@ -121,8 +145,8 @@ CTFEvent::CTFEvent(std::string line)
 
   // Obtain the trace data between the curly braces.
   start_pos = end_pos;
-  start_pos = line.find("{", start_pos);
-  end_pos = line.find("}", start_pos + 1);
+  start_pos = findUnquoted(line, "{", start_pos);
+  end_pos = findUnquoted(line, "}", start_pos + 1);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
@@ -137,7 +161,7 @@ CTFEvent::CTFEvent(std::string line)
     size_t end = 0;
     while (end != csv.size())
     {
-      size_t potential = csv.find(", ", start);  // delimiter between the key-value entries.
+      size_t potential = findUnquoted(csv, ", ", start);  // delimiter between the key-value entries.
       size_t end_shift = 0;
       if (potential == std::string::npos)
       {
-- 
2.43.0


From b795fa56e35c7a6da9c41d819c757a400acda8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:09 +0000
Subject: [PATCH 21/76] fix: do not cut a digit off a context that is not
 surrounded by spaces

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index 832c54e..9b4d5c1 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -56,6 +56,19 @@ static size_t findUnquoted(const std::string& text, const std::string& needle, s
   return std::string::npos;
 }
 
+/**
+ * @brief Remove the spaces around the text.
+ */
+static std::string trim(const std::string& text)
+{
+  const size_t first = text.find_first_not_of(' ');
+  if (first == std::string::npos)
+  {
+    return {};
+  }
+  return text.substr(first, text.find_last_not_of(' ') - first + 1);
+}
+
 CTFEvent::CTFEvent(std::string line)
 {
   // Line we are matching is:
@@ -131,7 +144,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string stream_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string stream_context = trim(line.substr(start_pos + 1, end_pos - start_pos - 1));
 
   // Obtain the event context between the curly braces.
   start_pos = end_pos;
@@ -141,7 +154,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string event_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string event_context = trim(line.substr(start_pos + 1, end_pos - start_pos - 1));
 
   // Obtain the trace data between the curly braces.
   start_pos = end_pos;
@@ -151,7 +164,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string trace_data = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string trace_data = trim(line.substr(start_pos + 1, end_pos - start_pos - 1));
 
   // Make a lambda that can convert the syntax between the curly braces (comma separated values) into a map of integers.
   auto processContext = [](std::string csv) -> std::map<std::string, unsigned long long int> {
-- 
2.43.0


From 5b60d3155596c042c153623d080091108575f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:49 +0000
Subject: [PATCH 22/76] fix: a counter without series name uses the series
 'count'

---
 scalopus_tracing/src/scope_tracing_provider.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 2bee79b..2a946a1 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -100,14 +100,14 @@ std::pair<std::string, std::string> ScopeTracingProvider::splitCounterSeriesName
 {
   std::pair<std::string, std::string> res;
   auto index = trace_string.find("/");
-  if ((index != std::string::npos) && (index + 1 <= trace_string.size()))
+  if ((index != std::string::npos) && (index + 1 < trace_string.size()))
   {
     res.first = trace_string.substr(0, index);
     res.second = std::string{ std::next(trace_string.begin(), static_cast<long>(index + 1)), trace_string.end() };
   }
   else
   {
-    res.first = trace_string;
+    res.first = trace_string.substr(0, index);
     res.second = "count";
   }
   return res;
-- 
2.43.0


From aed2a806de40202325e315751f828e6af2401bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:49 +0000
Subject: [PATCH 23/76] fix: a process that cannot provide its mapping does not
 abort the others

---
 scalopus_tracing/src/scope_tracing_provider.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 2a946a1..c1f2236 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -63,11 +63,18 @@ void ScopeTracingProvider::updateMapping()
 
     if (endpoint_scope_tracing != nullptr)
     {
-      // We found the correct endpoint, retrieve its mappings.
-      const auto process_mapping = endpoint_scope_tracing->mapping();
+      try
+      {
+        // We found the correct endpoint, retrieve its mappings.
+        const auto process_mapping = endpoint_scope_tracing->mapping();
 
-      // Insert the mappings into the accumulated map.
-      mapping.insert(process_mapping.begin(), process_mapping.end());
+        // Insert the mappings into the accumulated map.
+        mapping.insert(process_mapping.begin(), process_mapping.end());
+      }
+      catch (const std::exception&)
+      {
+        // This process went away or sent something unusable, this does not affect the mappings of the others.
+      }
     }
   }
 
-- 
2.43.0


From 511e9a0f6ac0766eeba4be2edf2828ce1fc9397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:49 +0000
Subject: [PATCH 24/76] fix: a process that does not provide its information
 does not affect the others

---
 .../scalopus_general/endpoint_process_info.h       |  2 +-
 scalopus_general/src/general_provider.cpp          | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 6662112..0c2a6d7 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -50,7 +50,7 @@ public:
   {
     std::string name;                              //!< Name of this process.
     std::map<unsigned long, std::string> threads;  //!< Names of the threads in this process.
-    int pid;                                       //!< Process id.
+    int pid{ 0 };                                  //!< Process id, zero if it is not known.
   };
 
   /**
diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index 358af25..53dfc58 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -61,8 +61,18 @@ void GeneralProvider::updateMapping()
     auto endpoint_general = EndpointManager::findEndpoint<scalopus::EndpointProcessInfo>(transport_endpoints.second);
     if (endpoint_general != nullptr)
     {
-      const auto process_mapping = endpoint_general->processInfo();
-      mapping_[process_mapping.pid] = process_mapping;
+      try
+      {
+        const auto process_mapping = endpoint_general->processInfo();
+        if (process_mapping.pid != 0)  // zero if the process did not respond.
+        {
+          mapping_[process_mapping.pid] = process_mapping;
+        }
+      }
+      catch (const std::exception&)
+      {
+        // This process went away or sent something unusable, this does not affect the information of the others.
+      }
     }
   }
 }
-- 
2.43.0


From f059fd785020206cacbaccf2b7c739001c9ed759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:08 +0000
Subject: [PATCH 25/76] fix: do not take unrelated sockets for servers

---
 scalopus_transport/src/transport_unix.cpp | 28 +++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 7454ed0..9817415 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -189,25 +189,23 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
   std::string line;
   while (std::getline(infile, line))
   {
-    if (line.size() < suffix.size())
+    // Everything after the inode is the path, which may contain spaces if it is not one of ours.
+    std::istringstream fields(line);
+    std::string num, ref_count, protocol, flags, type, state, path;
+    unsigned long inode{ 0 };
+    fields >> num >> ref_count >> protocol >> flags >> type >> state >> inode;
+    std::getline(fields >> std::ws, path);
+    // clients to the socket get a 0 inode address...
+    if (inode == 0 || path.size() <= suffix.size() + 1 || path.front() != '@' ||
+        path.compare(path.size() - suffix.size(), suffix.size(), suffix) != 0)
     {
       continue;  // definitely is not a line we are interested in.
     }
-    // std::basic_string::ends_with is c++20 :|
-    if (line.substr(line.size() - suffix.size()) == suffix)
+    // We got a hit, extract the process id.
+    const auto pid = path.substr(1, path.size() - suffix.size() - 1);
+    if (pid.find_first_not_of("0123456789") == std::string::npos)
     {
-      // We got a hit, extract the process id.
-      const auto space_before_path = line.rfind(" ");
-      const auto path = line.substr(space_before_path + 2);  // + 2 for space and @ symbol.
-      const auto space_before_inode = line.rfind(" ", space_before_path - 1);
-      const auto inode_str = line.substr(space_before_inode, space_before_path - space_before_inode);
-      if (std::atoi(inode_str.c_str()) == 0)
-      {
-        // clients to the socket get this 0 inode address...
-        continue;
-      }
-      char* tmp;
-      res.emplace_back(std::strtoul(path.substr(0, path.size() - suffix.size()).c_str(), &tmp, 10));
+      res.emplace_back(std::strtoul(pid.c_str(), nullptr, 10));
     }
   }
 
-- 
2.43.0


From fc1001fe4bfdff2ac5ed52ac61159d01317b752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:36 +0000
Subject: [PATCH 26/76] fix: a server that cannot be connected to or
 introspected does not abort managing

---
 .../src/endpoint_manager_poll.cpp             | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 465f890..bb0d2a5 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -33,6 +33,7 @@
 #include <sstream>
 #include <string>
 #include <thread>
+#include <vector>
 #include "scalopus_general/endpoint_introspect.h"
 
 namespace scalopus
@@ -84,7 +85,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   log("[scalopus] Creating transport to: " + std::string(*destination));
   // Attempt to make a transport to this server.
   auto transport = factory_->connect(destination);
-  if (!transport->isConnected())
+  if ((transport == nullptr) || (!transport->isConnected()))
   {
     log("[scalopus] Client failed to connect to " + std::string(*destination));
     return;
@@ -95,7 +96,22 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
-  const auto supported = introspect_client->supported();
+  std::vector<std::string> supported;
+  try
+  {
+    supported = introspect_client->supported();
+  }
+  catch (const std::exception& e)
+  {
+    // The server went away or did not provide a valid answer, this may not affect the other servers.
+    log("[scalopus] Failed to determine endpoints of " + std::string(*destination) + ": " + e.what());
+    if (!transport->isConnected())
+    {
+      transports_.erase(destination->hash_code());
+      transport_endpoints_.erase(transport);
+      return;
+    }
+  }
   for (const auto& supported_endpoint : supported)
   {
     const auto it = endpoint_factories_.find(supported_endpoint);
-- 
2.43.0


From 562b2d8e721e2502eb1980cb996a7f9384816dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:36 +0000
Subject: [PATCH 27/76] fix: native trace data that can not be processed does
 not affect other data

---
 .../src/native/native_trace_source.cpp        | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index e6cabb3..ffaffc0 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -95,9 +95,10 @@ std::vector<json> NativeTraceSource::finishInterval()
   ProcessCounter counter_values;
 
   // Now, we start converting the chunks of data we obtain into trace events.
-  try
+  // A chunk that can't be processed does not affect the other chunks.
+  for (const auto& dptr : data)
   {
-    for (const auto& dptr : data)
+    try
     {
       // First, we parse the bson we got and convert it to events.
       std::map<std::string, cbor::cbor_object> parsed;
@@ -152,6 +153,10 @@ std::vector<json> NativeTraceSource::finishInterval()
             entry["ph"] = "C";
             const auto counter_series = NativeTraceProvider::splitCounterSeriesName(trace_id_string);
             entry["name"] = counter_series.first;
+            if (event.dynamic_data == nullptr)
+            {
+              throw std::runtime_error("Counter event without value.");
+            }
             std::int64_t z;
             cbor::from_cbor(z, *event.dynamic_data);
             // Update the current counters.
@@ -166,18 +171,18 @@ std::vector<json> NativeTraceSource::finishInterval()
         }
       }
     }
-  }
-  catch (const std::out_of_range& e)
-  {
-    provider->log(std::string("Encountered out of range during data processing: ") + e.what());
-  }
-  catch (const cbor::error& e)
-  {
-    provider->log(std::string("Encountered cbor error: ") + e.what());
-  }
-  catch (const std::runtime_error& e)
-  {
-    provider->log(std::string("Encountered runtime error: ") + e.what());
+    catch (const std::out_of_range& e)
+    {
+      provider->log(std::string("Encountered out of range during data processing: ") + e.what());
+    }
+    catch (const cbor::error& e)
+    {
+      provider->log(std::string("Encountered cbor error: ") + e.what());
+    }
+    catch (const std::runtime_error& e)
+    {
+      provider->log(std::string("Encountered runtime error: ") + e.what());
+    }
   }
 
   // Sort res by "ts" because sometimes the "E"nd events are out of order wrt the "B"egin, leading to unfinished scope
-- 
2.43.0


From 286bee36b069412a2b3ff43c7bbc7ac3d1b8fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:57 +0000
Subject: [PATCH 28/76] fix: an empty request for the trace mapping does not
 crash the process

---
 scalopus_tracing/src/endpoint_trace_mapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 100897b..4b266f9 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -51,7 +51,7 @@ bool EndpointTraceMapping::handle(Transport& /* server */, const Data& request,
   ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };
   // cool, we have the mappings... now we need to serialize this...
 
-  if (request.front() == 'm')
+  if (!request.empty() && request.front() == 'm')
   {
     json jdata = json::object();
     jdata["mapping"] = mapping;  // need to serialize an object, not an array.
-- 
2.43.0


From 31b06eeb6c0d8c86e0b11811459018c1c5be6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:21 +0000
Subject: [PATCH 29/76] fix: limit the nesting depth of requests to prevent
 exhausting the stack

---
 .../include/scalopus_general/internal/bson.h  | 82 +++++++++++++++++++
 .../src/endpoint_process_info.cpp             |  3 +-
 .../src/endpoint_trace_configurator.cpp       |  3 +-
 3 files changed, 86 insertions(+), 2 deletions(-)
 create mode 100644 scalopus_general/include/scalopus_general/internal/bson.h

diff --git a/scalopus_general/include/scalopus_general/internal/bson.h b/scalopus_general/include/scalopus_general/internal/bson.h
new file mode 100644
index 0000000..4433475
--- /dev/null
+++ b/scalopus_general/include/scalopus_general/internal/bson.h
@@ -0,0 +1,82 @@
+/*
+  Copyright (c) 2018-2019, Ivor Wanders
+  All rights reserved.
+
+  Redistribution and use in source and binary forms, with or without
+  modification, are permitted provided that the following conditions are met:
+
+  * Redistributions of source code must retain the above copyright notice, this
+    list of conditions and the following disclaimer.
+
+  * Redistributions in binary form must reproduce the above copyright notice,
+    this list of conditions and the following disclaimer in the documentation
+    and/or other materials provided with the distribution.
+
+  * Neither the name of the author nor the names of contributors may be used to
+    endorse or promote products derived from this software without specific
+    prior written permission.
+
+  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS" AND
+  ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED
+  WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE
+  DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE LIABLE
+  FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL
+  DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR
+  SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY,
+  OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+  OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+*/
+#ifndef SCALOPUS_GENERAL_INTERNAL_BSON_H
+#define SCALOPUS_GENERAL_INTERNAL_BSON_H
+
+#include <scalopus_interface/types.h>
+#include <nlohmann/json.hpp>
+#include <stdexcept>
+#include <string>
+
+namespace scalopus
+{
+/**
+ * @brief Sax handler that accepts everything, up to a certain nesting depth.
+ */
+class BsonDepthLimiter : public nlohmann::json_sax<nlohmann::json>
+{
+public:
+  using json = nlohmann::json;
+  static constexpr std::size_t max_depth{ 32 };
+
+  bool null() override { return true; }
+  bool boolean(bool) override { return true; }
+  bool number_integer(json::number_integer_t) override { return true; }
+  bool number_unsigned(json::number_unsigned_t) override { return true; }
+  bool number_float(json::number_float_t, const std::string&) override { return true; }
+  bool string(std::string&) override { return true; }
+  bool binary(json::binary_t&) override { return true; }
+  bool key(std::string&) override { return true; }
+  bool start_object(std::size_t) override { return ++depth_ <= max_depth; }
+  bool end_object() override { return depth_-- != 0; }
+  bool start_array(std::size_t) override { return ++depth_ <= max_depth; }
+  bool end_array() override { return depth_-- != 0; }
+  bool parse_error(std::size_t, const std::string&, const nlohmann::detail::exception&) override { return false; }
+
+private:
+  std::size_t depth_{ 0 };
+};
+
+/**
+ * @brief Parse a request. The parser recurses for every nested document, so the nesting depth of data from a remote has
+ *        to be limited to prevent it from exhausting the stack.
+ * @throws An exception derived from std::exception if the data can't be parsed.
+ */
+inline nlohmann::json requestFromBson(const Data& data)
+{
+  BsonDepthLimiter limiter;
+  if (!nlohmann::json::sax_parse(data, &limiter, nlohmann::json::input_format_t::bson))
+  {
+    throw std::runtime_error("Request is not valid bson, or nested too deep.");
+  }
+  return nlohmann::json::from_bson(data);
+}
+}  // namespace scalopus
+#endif  // SCALOPUS_GENERAL_INTERNAL_BSON_H
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 53eb6fc..6e23d53 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -28,6 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include <scalopus_general/endpoint_process_info.h>
+#include <scalopus_general/internal/bson.h>
 #include <scalopus_general/internal/thread_name_tracker.h>
 #include <cstring>
 #include <iostream>
@@ -59,7 +60,7 @@ void EndpointProcessInfo::setProcessName(const std::string& process_name)
 
 bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, Data& response)
 {
-  json req = json::from_bson(request);
+  json req = requestFromBson(request);
 
   // Request is process name:
   if (req["cmd"].get<std::string>() == "info")
diff --git a/scalopus_tracing/src/endpoint_trace_configurator.cpp b/scalopus_tracing/src/endpoint_trace_configurator.cpp
index 74b66e7..ac9aaaa 100644
--- a/scalopus_tracing/src/endpoint_trace_configurator.cpp
+++ b/scalopus_tracing/src/endpoint_trace_configurator.cpp
@@ -27,6 +27,7 @@
   OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
+#include <scalopus_general/internal/bson.h>
 #include <scalopus_tracing/endpoint_trace_configurator.h>
 #include <scalopus_tracing/trace_configurator.h>
 #include <iostream>
@@ -105,7 +106,7 @@ EndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTrac
 
 bool EndpointTraceConfigurator::handle(Transport& /* server */, const Data& request, Data& response)
 {
-  json req = json::from_bson(request);
+  json req = requestFromBson(request);
   auto configurator_instance = TraceConfigurator::getInstance();
 
   auto thread_map = configurator_instance->getThreadMap();
-- 
2.43.0


From 527cc2902cf04f031b8ad6d8d87486b9874dbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:39 +0000
Subject: [PATCH 30/76] fix: process every line of the viewer when it is
 written, whatever its length

---
 .../scalopus_tracing/babeltrace_parser.h      |  5 ++
 .../src/lttng/babeltrace_parser.cpp           | 81 ++++++++++++-------
 2 files changed, 56 insertions(+), 30 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index e9ee4ec..aaa4a68 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -99,6 +99,11 @@ public:
   static CTFEvent parse(std::string line);
 
 private:
+  /**
+   * @brief If there are recording sessions, parse the line and pass the event to the recording sessions.
+   */
+  void processLine(const std::string& line);
+
   std::atomic_bool processing_{ false };  //! Bool to check on each while loop in the process function.
 
   std::mutex mutex_;                                             //! Mutex for the recording sessions set.
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 4928765..8a9dd88 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,6 +28,11 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
+#include <sys/select.h>
+#include <unistd.h>
+#include <array>
+#include <cerrno>
+#include <cstdio>
 #include <iostream>
 #include <sstream>
 
@@ -50,6 +55,33 @@ void BabeltraceParser::setLogger(LoggingFunction logger)
   logger_ = logger;
 }
 
+void BabeltraceParser::processLine(const std::string& line)
+{
+  // lock, if recording sessions, parse and pass to all recording sessions.
+  std::lock_guard<std::mutex> lock(mutex_);
+  if (!sessions_recording_.empty())
+  {
+    auto event = parse(line);
+    for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
+    {
+      if ((*it)->active == false)
+      {
+        // session went inactive, remove it.
+        std::stringstream ss;
+        ss << "[BabeltraceParser] callback inactive: " << it->get();
+        logger_(ss.str());
+        it = sessions_recording_.erase(it);
+        continue;
+      }
+      if ((*it)->callback)
+      {
+        (*it)->callback(event);
+      }
+      it++;
+    }
+  }
+}
+
 void BabeltraceParser::process(FILE* stdout)
 {
   if (stdout == nullptr)
@@ -60,7 +92,8 @@ void BabeltraceParser::process(FILE* stdout)
 
   // start the processing.
   processing_.store(true);
-  std::array<char, 1024> tmp;
+  std::array<char, 4096> tmp;
+  std::string buffer;  // data received that is not yet a complete line.
   int fd = fileno(stdout);
   fd_set read_fds;
   fd_set write_fds;
@@ -84,40 +117,28 @@ void BabeltraceParser::process(FILE* stdout)
     }
     if (FD_ISSET(fd, &read_fds))
     {
-      // read line
-      std::string line;
-      if (std::fgets(tmp.data(), tmp.size(), stdout))
+      // Read what is available. The descriptor is used instead of the (buffered) file, as select does not know about data
+      // that is in the buffer of the file and waiting for the remainder of a line may not block the halt function.
+      const auto count = ::read(fd, tmp.data(), tmp.size());
+      if (count > 0)
       {
-        line = std::string(tmp.data());
-      }
-      if (!line.empty())
-      {
-        // lock, if recording sessions, parse and pass to all recording sessions.
-        std::lock_guard<std::mutex> lock(mutex_);
-        if (!sessions_recording_.empty())
+        buffer.append(tmp.data(), static_cast<std::size_t>(count));
+        std::size_t line_start = 0;
+        std::size_t line_end;
+        while (processing_.load() && (line_end = buffer.find('\n', line_start)) != std::string::npos)
         {
-          auto event = parse(line);
-          for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
-          {
-            if ((*it)->active == false)
-            {
-              // session went inactive, remove it.
-              std::stringstream ss;
-              ss << "[BabeltraceParser] callback inactive: " << it->get();
-              logger_(ss.str());
-              it = sessions_recording_.erase(it);
-              continue;
-            }
-            if ((*it)->callback)
-            {
-              (*it)->callback(event);
-            }
-            it++;
-          }
+          processLine(buffer.substr(line_start, line_end + 1 - line_start));
+          line_start = line_end + 1;
         }
+        buffer.erase(0, line_start);
       }
-      if (std::feof(stdout))
+      else if ((count == 0) || ((errno != EINTR) && (errno != EAGAIN)))
       {
+        // The last line may not be terminated.
+        if (!buffer.empty())
+        {
+          processLine(buffer);
+        }
         logger_("[BabeltraceParser] Reached end of file, quiting parser function.");
         processing_.store(false);
       }
-- 
2.43.0


From c3ba81af9144d8f474389a56338cfaab4c179433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:39 +0000
Subject: [PATCH 31/76] fix: a viewer that can not be executed does not
 continue as a copy of the process

---
 .../include_consumer/scalopus_tracing/subprocess.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 589a660..1e6c1c2 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -141,7 +141,7 @@ private:
             dup2(err_pipe[WRITE], STDERR_FILENO) == -1 )
         {
             std::perror("subprocess: dup2() failed");
-            return;
+            ::_exit(127);
         }
 
         ::close(in_pipe[READ]);
@@ -158,7 +158,7 @@ private:
         if (execvp(cargs[0], &cargs[0]) == -1)
         {
             std::perror("subprocess: execvp() failed");
-            return;
+            ::_exit(127);  // the child may not continue as a copy of the parent.
         }
     }
 
-- 
2.43.0


From 4ffc8931228eabc8bf29a0876e00f9530f0a026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:39 +0000
Subject: [PATCH 32/76] fix: report a failure to start the viewer, do not
 signal all processes when it ends

---
 .../scalopus_tracing/subprocess.hpp           | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 1e6c1c2..4cd2055 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -13,6 +13,7 @@
 #include <iostream>
 #include <ext/stdio_filebuf.h>
 #include <cstdio>
+#include <cerrno>
 #include <system_error>
 
 #include <unistd.h>
@@ -33,7 +34,7 @@ public:
             pipe(out_pipe) == -1 ||
             pipe(err_pipe) == -1 )
         {
-            throw std::system_error(errno, std::system_category());
+            fail();
         }
 
         run(cmd, argv);
@@ -49,7 +50,8 @@ public:
         if (pipe(in_pipe) == -1 ||
             pipe(err_pipe) == -1 )
         {
-            throw std::system_error(errno, std::system_category());
+            out_pipe[WRITE] = -1;  // not ours to close
+            fail();
         }
 
         run(cmd, argv);
@@ -109,11 +111,24 @@ private:
         mutable std::vector<char> buf;
     };
 
+    // Close the pipes that were opened and throw the current error.
+    void fail()
+    {
+        const int error = errno;
+        for (int fd : { in_pipe[READ], in_pipe[WRITE], out_pipe[READ], out_pipe[WRITE], err_pipe[READ], err_pipe[WRITE] })
+        {
+            if (fd != -1) ::close(fd);
+        }
+        throw std::system_error(error, std::system_category());
+    }
+
     void run(const std::string& cmd, std::vector<std::string> argv)
     {
         argv.insert(argv.begin(), cmd);
 
         pid = ::fork();
+
+        if (pid == -1) fail();
       
         if (pid == 0) child(argv);
 
@@ -164,9 +179,9 @@ private:
 
     pid_t pid;
 
-    int in_pipe[2];
-    int out_pipe[2];
-    int err_pipe[2];
+    int in_pipe[2]  = { -1, -1 };
+    int out_pipe[2] = { -1, -1 };
+    int err_pipe[2] = { -1, -1 };
    
     __gnu_cxx::stdio_filebuf<char>* in_filebuf;
     __gnu_cxx::stdio_filebuf<char>* out_filebuf;
-- 
2.43.0


From a05befae20e19010429d2bf570e490af7526760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:46 +0000
Subject: [PATCH 33/76] fix: end the viewer and wait for it when the babeltrace
 tool is halted

---
 .../scalopus_tracing/subprocess.hpp             | 17 ++++++++++++++++-
 scalopus_tracing/src/lttng/babeltrace_tool.cpp  |  9 ++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index 4cd2055..cbca19f 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -14,7 +14,9 @@
 #include <ext/stdio_filebuf.h>
 #include <cstdio>
 #include <cerrno>
+#include <chrono>
 #include <system_error>
+#include <thread>
 
 #include <unistd.h>
 #include <sys/types.h>
@@ -80,10 +82,23 @@ public:
     int wait()
     {
         int status = 0;
-        waitpid(pid, &status, 0);
+        while (waitpid(pid, &status, 0) == -1 && errno == EINTR) {}
         return WEXITSTATUS(status);
     };
 
+    // Wait until the process has ended, returns false if it didn't do so in time.
+    bool waitFor(std::chrono::milliseconds timeout)
+    {
+        const auto end = std::chrono::steady_clock::now() + timeout;
+        int status = 0;
+        while (waitpid(pid, &status, WNOHANG) == 0)
+        {
+            if (std::chrono::steady_clock::now() > end) return false;
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
+        }
+        return true;
+    }
+
     void close()
     {
         in_filebuf->close();
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 8c2c49d..1db9952 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -28,6 +28,8 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_tool.h"
+#include <signal.h>
+#include <chrono>
 
 namespace scalopus
 {
@@ -94,8 +96,13 @@ void BabeltraceTool::halt()
   {
     process_->close();
 
-    // Nuke the process, just to be sure we clean up correctly.
+    // Ask the process to terminate, if it doesn't do so, nuke it to be sure we clean up correctly.
     ::kill(process_->getPid(), SIGINT);
+    if (!process_->waitFor(std::chrono::milliseconds(500)))
+    {
+      ::kill(process_->getPid(), SIGKILL);
+      process_->wait();
+    }
 
     process_ = nullptr;
   }
-- 
2.43.0


From dce37267bea4c521c27190ffd126f5dd23c390d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:06 +0000
Subject: [PATCH 34/76] fix: do not block the viewer on its error output that
 nobody reads

---
 .../scalopus_tracing/subprocess.hpp                | 14 ++++++++++++--
 scalopus_tracing/src/lttng/babeltrace_tool.cpp     |  6 ++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
index cbca19f..cb6a3b2 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/subprocess.hpp
@@ -18,6 +18,7 @@
 #include <system_error>
 #include <thread>
 
+#include <fcntl.h>
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -29,12 +30,13 @@ class popen
 {   
 public:
 
-    popen(const std::string& cmd, std::vector<std::string> argv)
+    // If discard_stderr is set, what the process writes to stderr is discarded, it is not blocked if nobody reads it.
+    popen(const std::string& cmd, std::vector<std::string> argv, bool discard_stderr = false)
         : in_filebuf(nullptr), out_filebuf(nullptr), err_filebuf(nullptr), in_stream(nullptr), out_stream(nullptr), err_stream(nullptr)
     {
         if (pipe(in_pipe)  == -1 ||
             pipe(out_pipe) == -1 ||
-            pipe(err_pipe) == -1 )
+            (discard_stderr ? null(err_pipe) : pipe(err_pipe)) == -1 )
         {
             fail();
         }
@@ -126,6 +128,14 @@ private:
         mutable std::vector<char> buf;
     };
 
+    // Open both ends onto the null device.
+    static int null(int ends[2])
+    {
+        ends[READ]  = ::open("/dev/null", O_RDONLY);
+        ends[WRITE] = ::open("/dev/null", O_WRONLY);
+        return (ends[READ] == -1 || ends[WRITE] == -1) ? -1 : 0;
+    }
+
     // Close the pipes that were opened and throw the current error.
     void fail()
     {
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index 1db9952..f7cc9bc 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -62,7 +62,8 @@ void BabeltraceTool::init(std::string path)
     process_ = std::make_shared<subprocess::popen>(
         "lttng",
         std::vector<std::string>{ "view", path, "-e",
-                                  "babeltrace --clock-seconds --clock-gmt --no-delta --input-format=lttng-live" });
+                                  "babeltrace --clock-seconds --clock-gmt --no-delta --input-format=lttng-live" },
+        true);
   }
   else
   {
@@ -70,7 +71,8 @@ void BabeltraceTool::init(std::string path)
     // net://localhost/host/eagle/scalopus_target_session
     process_ = std::make_shared<subprocess::popen>(
         "babeltrace",
-        std::vector<std::string>{ "--clock-seconds", "--clock-gmt", "--no-delta", "--input-format=lttng-live", path });
+        std::vector<std::string>{ "--clock-seconds", "--clock-gmt", "--no-delta", "--input-format=lttng-live", path },
+        true);
   }
 
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
-- 
2.43.0


From 04f57d2bb0a8d874d672552b20ef6eaab1cc3937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:28 +0000
Subject: [PATCH 35/76] fix: a recording is not written to anymore when it was
 stopped

---
 .../scalopus_tracing/babeltrace_parser.h      | 22 +++++++++++++++++--
 .../src/lttng/babeltrace_parser.cpp           |  5 +----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index aaa4a68..74038b1 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -52,14 +52,32 @@ public:
   using LoggingFunction = std::function<void(const std::string& output)>;
   struct EventCallback
   {
-    bool active{ true };
+    std::atomic_bool active{ true };
     std::function<void(const CTFEvent& event)> callback;
 
+    /**
+     * @brief Disable the callback, when this returns it is not being called and won't be called again.
+     */
     void disable()
     {
+      std::lock_guard<std::recursive_mutex> lock(mutex_);
       active = false;
-      callback = nullptr;
     }
+
+    /**
+     * @brief Call the callback with this event, if it is not disabled.
+     */
+    void call(const CTFEvent& event)
+    {
+      std::lock_guard<std::recursive_mutex> lock(mutex_);
+      if (active && callback)
+      {
+        callback(event);
+      }
+    }
+
+  private:
+    std::recursive_mutex mutex_;  //! Held during the callback, it can be disabled from another thread.
   };
 
   using Ptr = std::shared_ptr<BabeltraceParser>;
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 8a9dd88..95f3538 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -73,10 +73,7 @@ void BabeltraceParser::processLine(const std::string& line)
         it = sessions_recording_.erase(it);
         continue;
       }
-      if ((*it)->callback)
-      {
-        (*it)->callback(event);
-      }
+      (*it)->call(event);
       it++;
     }
   }
-- 
2.43.0


From a63e5094549bda5d61e55938232d63164dbacee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 36/76] fix: halting the babeltrace tool right after it was
 started does not hang

---
 .../scalopus_tracing/babeltrace_parser.h           | 11 +++++++++++
 scalopus_tracing/src/lttng/babeltrace_parser.cpp   | 14 ++++++++++++--
 scalopus_tracing/src/lttng/babeltrace_tool.cpp     |  3 ++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index 74038b1..0a24194 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -90,6 +90,17 @@ public:
    */
   void process(FILE* stdout);
 
+  /**
+   * @brief Mark the parser as processing, to be called before calling run from another thread, such that calling halt
+   *        has effect even if that thread did not get to the run function yet.
+   */
+  void start();
+
+  /**
+   * @brief As process, but does nothing if the parser was halted since the call to start.
+   */
+  void run(FILE* stdout);
+
   /**
    * @brief Return whether the process function is running.
    */
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 95f3538..55a081b 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -80,15 +80,25 @@ void BabeltraceParser::processLine(const std::string& line)
 }
 
 void BabeltraceParser::process(FILE* stdout)
+{
+  start();
+  run(stdout);
+}
+
+void BabeltraceParser::start()
+{
+  processing_.store(true);
+}
+
+void BabeltraceParser::run(FILE* stdout)
 {
   if (stdout == nullptr)
   {
     logger_("[BabeltraceParser] Incorrect file pointer for stdout, quitting parser.");
+    processing_.store(false);
     return;
   }
 
-  // start the processing.
-  processing_.store(true);
   std::array<char, 4096> tmp;
   std::string buffer;  // data received that is not yet a complete line.
   int fd = fileno(stdout);
diff --git a/scalopus_tracing/src/lttng/babeltrace_tool.cpp b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
index f7cc9bc..d864050 100644
--- a/scalopus_tracing/src/lttng/babeltrace_tool.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_tool.cpp
@@ -76,7 +76,8 @@ void BabeltraceTool::init(std::string path)
   }
 
   // Start processing the output of stdout in the parser process function, do this in a separate thread.
-  parser_worker_ = std::thread([&]() { parser_->process(process_->stdoutFile()); });
+  parser_->start();
+  parser_worker_ = std::thread([&]() { parser_->run(process_->stdoutFile()); });
 }
 
 BabeltraceTool::~BabeltraceTool()
-- 
2.43.0


From 2143a38fab4444c66d9dd303ede929cc270c0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 37/76] fix: incomplete or unknown events in the lttng output
 do not abort the recording

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 23dbe09..b1199c0 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -29,6 +29,7 @@
 */
 #include "scalopus_tracing/lttng_source.h"
 
+#include <cmath>
 #include <sstream>
 
 namespace scalopus
@@ -90,7 +91,10 @@ std::vector<json> LttngSource::convertEvents()
     // Time stamp, relative to start.
     double ts = event.time();
 
-    if (event.domain() == "scalopus_scope_id")
+    // Ignore anything that isn't one of our tracepoints or which is incomplete, such as a partially written line.
+    const auto& context = event.eventContext();
+    if (event.domain() == "scalopus_scope_id" && std::isfinite(ts) && context.count("vpid") != 0 &&
+        context.count("pthread_id") != 0)
     {
       // entry scope:
       // , {"name": "function name", "pid": 5976, "ts": 77033.2, "cat": "PERF", "tid": 140501248366336, "ph": "B"}
@@ -139,6 +143,10 @@ std::vector<json> LttngSource::convertEvents()
       }
       else if (event.name() == "count_event")
       {
+        if (event.eventData().count("value") == 0)
+        {
+          continue;
+        }
         entry["ph"] = "C";
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
@@ -147,6 +155,10 @@ std::vector<json> LttngSource::convertEvents()
         counter_values[counter_series.first][counter_series.second] = z;
         entry["args"] = counter_values[counter_series.first];
       }
+      else
+      {
+        continue;  // not a tracepoint we know.
+      }
       result.push_back(entry);
     }
   }
-- 
2.43.0


From c0771708a547c87087593ca5a3e40be0aa3cbde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:43 +0000
Subject: [PATCH 38/76] fix: lttng counters are tracked per process and in
 order of time

---
 scalopus_tracing/src/lttng/lttng_source.cpp | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index b1199c0..482918d 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -82,7 +82,7 @@ std::vector<json> LttngSource::convertEvents()
   // Map for the counter states.
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
-  CounterMap counter_values;
+  using ProcessCounter = std::map<unsigned long long int, CounterMap>;
 
   provider_->updateMapping();
   const auto mapping = provider_->getMapping();
@@ -151,9 +151,7 @@ std::vector<json> LttngSource::convertEvents()
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
         const std::int64_t z = static_cast<std::int64_t>(event.eventData().at("value"));
-        // Update the current counters.
-        counter_values[counter_series.first][counter_series.second] = z;
-        entry["args"] = counter_values[counter_series.first];
+        entry["args"] = SeriesMap{ { counter_series.second, z } };  // The other series are added later on.
       }
       else
       {
@@ -169,18 +167,33 @@ std::vector<json> LttngSource::convertEvents()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // The events are in order of time now, populate the counters with the current value of their series.
+  ProcessCounter counter_values;
+  for (auto& entry : result)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& current = counter_values[entry.at("pid").get<unsigned long long int>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        current[series_value.first] = series_value.second;
+      }
+      entry["args"] = current;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
-  CounterMap count_all_series;
+  ProcessCounter count_all_series;
   for (auto it = result.rbegin(); it < result.rend(); it++)
   {
     auto& entry = *it;
     if (entry.at("ph").get<std::string>() == "C")
     {
       auto values = entry.at("args").get<SeriesMap>();
-      const auto& name = entry.at("name").get<std::string>();
-      values.insert(count_all_series[name].begin(), count_all_series[name].end());  // add future keys to this entry
-      entry["args"] = values;           // update values to include the series used in the future.
-      count_all_series[name] = values;  // store most recent value in the map.
+      auto& future = count_all_series[entry.at("pid").get<unsigned long long int>()][entry.at("name").get<std::string>()];
+      values.insert(future.begin(), future.end());  // add future keys to this entry
+      entry["args"] = values;                       // update values to include the series used in the future.
+      future = values;                              // store most recent value in the map.
     }
   }
 
-- 
2.43.0


From 6ae7d3b82fa9e91dcd012d4a22e5b655fe82ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:34 +0000
Subject: [PATCH 39/76] fix: the native provider does not keep sources that are
 no longer used recording

---
 .../scalopus_tracing/native_trace_provider.h          |  3 ++-
 scalopus_tracing/src/native/native_trace_provider.cpp | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
index fc326dc..c591895 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/native_trace_provider.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/endpoint.h>
 #include <scalopus_tracing/scope_tracing_provider.h>
+#include <memory>
 #include <set>
 
 namespace scalopus
@@ -84,7 +85,7 @@ private:
   void incoming(const Data& incoming);
 
   std::mutex source_mutex_;
-  std::set<std::shared_ptr<NativeTraceSource>> sources_;
+  std::set<std::weak_ptr<NativeTraceSource>, std::owner_less<std::weak_ptr<NativeTraceSource>>> sources_;
 
   LoggingFunction logger_;  //!< Function to use for logging.
 };
diff --git a/scalopus_tracing/src/native/native_trace_provider.cpp b/scalopus_tracing/src/native/native_trace_provider.cpp
index 8609078..0ff0db8 100644
--- a/scalopus_tracing/src/native/native_trace_provider.cpp
+++ b/scalopus_tracing/src/native/native_trace_provider.cpp
@@ -67,13 +67,20 @@ void NativeTraceProvider::incoming(const Data& incoming)
   {
     std::lock_guard<decltype(source_mutex_)> lock(source_mutex_);
 
-    // Add all sources that are recording.
-    for (auto& source : sources_)
+    // Add all sources that are recording, remove those that no longer exist.
+    for (auto it = sources_.begin(); it != sources_.end();)
     {
+      auto source = it->lock();
+      if (source == nullptr)
+      {
+        it = sources_.erase(it);
+        continue;
+      }
       if (source->isRecording())
       {
         recording_sources.insert(source);
       }
+      it++;
     }
   }
 
-- 
2.43.0


From 84184dc6f9f2a605c496705c55bd9f4aeeaaf015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:07 +0000
Subject: [PATCH 40/76] fix: finishing a native recording whose provider is
 gone does not crash

---
 scalopus_tracing/src/native/native_trace_source.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index ffaffc0..c3d57af 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -75,10 +75,11 @@ std::vector<json> NativeTraceSource::finishInterval()
 
   // Update mappings.
   auto provider = provider_.lock();
-  if (provider != nullptr)
+  if (provider == nullptr)
   {
-    provider->updateMapping();
+    return res;  // The provider is gone, there is nothing left to convert the data with.
   }
+  provider->updateMapping();
   const auto mapping = provider->getMapping();
 
   // Obtain the data chunks.
-- 
2.43.0


From 786dd526e0b34d382b19a1fbdd3a6d0baec53e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 41/76] fix: native counters are tracked in order of time

---
 .../src/native/native_trace_source.cpp        | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/src/native/native_trace_source.cpp b/scalopus_tracing/src/native/native_trace_source.cpp
index c3d57af..67fc418 100644
--- a/scalopus_tracing/src/native/native_trace_source.cpp
+++ b/scalopus_tracing/src/native/native_trace_source.cpp
@@ -93,7 +93,6 @@ std::vector<json> NativeTraceSource::finishInterval()
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
   using ProcessCounter = std::map<int, CounterMap>;
-  ProcessCounter counter_values;
 
   // Now, we start converting the chunks of data we obtain into trace events.
   // A chunk that can't be processed does not affect the other chunks.
@@ -160,9 +159,7 @@ std::vector<json> NativeTraceSource::finishInterval()
             }
             std::int64_t z;
             cbor::from_cbor(z, *event.dynamic_data);
-            // Update the current counters.
-            counter_values[pid][counter_series.first][counter_series.second] = z;
-            entry["args"] = counter_values[pid][counter_series.first];
+            entry["args"] = SeriesMap{ { counter_series.second, z } };  // The other series are added later on.
           }
           else
           {
@@ -192,6 +189,21 @@ std::vector<json> NativeTraceSource::finishInterval()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // The events are in order of time now, populate the counters with the current value of their series.
+  ProcessCounter counter_values;
+  for (auto& entry : res)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& current = counter_values[entry.at("pid").get<int>()][entry.at("name").get<std::string>()];
+      for (const auto& series_value : entry.at("args").get<SeriesMap>())
+      {
+        current[series_value.first] = series_value.second;
+      }
+      entry["args"] = current;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
   ProcessCounter counter_all_series;
   for (auto it = res.rbegin(); it < res.rend(); it++)
-- 
2.43.0


From 733d0900910900302588533be83f712f3ecf02c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:20 +0000
Subject: [PATCH 42/76] fix: a tracepoint reached by several threads is not
 emitted before its name is registered

---
 .../include/scalopus_tracing/internal/trace_macro.h  | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
index 8d92cf3..c0e3414 100644
--- a/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
+++ b/scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h
@@ -42,15 +42,11 @@
 // Create a unique ID based on the crc32 of the filename and the provided string.
 #define SCALOPUS_TRACKED_TRACE_ID_STRING(s) (CRC32_STR(__FILE__) + CRC32_STR(s))
 
-// Macro that ensures that tracking the map between name and id is only performed once, this is achieved by using a
-// static boolean.
+// Macro that ensures that tracking the map between name and id is only performed once, this is achieved by the
+// initialisation of a static boolean; other threads that reach it wait until the mapping is registered.
 #define TRACE_TRACKED_MAPPING_REGISTER_ONCE(name, id, have_done_setup_varname)                                         \
-  static bool have_done_setup_varname = false;                                                                         \
-  if (!have_done_setup_varname)                                                                                        \
-  {                                                                                                                    \
-    have_done_setup_varname = true;                                                                                    \
-    scalopus::StaticStringTracker::getInstance().insert(id, name);                                                     \
-  }
+  static const bool have_done_setup_varname = (scalopus::StaticStringTracker::getInstance().insert(id, name), true);   \
+  static_cast<void>(have_done_setup_varname);
 
 // Macro to create a tracked RAII tracepoint. The tracepoint itself will store only the ID, but the singleton trace
 // tracker stores the ID -> name relation provided.
-- 
2.43.0


From 2c96942e99fccd786a5b50a9c44b0d4767545d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:58 +0000
Subject: [PATCH 43/76] fix: the thread state switcher restores the state of
 the thread that entered it

---
 scalopus_python/scalopus/tracing.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scalopus_python/scalopus/tracing.py b/scalopus_python/scalopus/tracing.py
index 8b8341f..70388c2 100644
--- a/scalopus_python/scalopus/tracing.py
+++ b/scalopus_python/scalopus/tracing.py
@@ -29,6 +29,7 @@
 
 from .lib import tracing
 import random
+import threading
 from functools import wraps
 
 
@@ -206,7 +207,9 @@ class ThreadStateSwitcher:
     """
     def __init__(self, target_state):
         self.target_state = target_state
-        self.old_states = None
+        # The states to return to, kept per thread and as a list because the
+        # same switcher can be entered by other threads, or again by this one.
+        self.local = threading.local()
 
     def enter(self):
         self.__enter__()
@@ -215,10 +218,11 @@ class ThreadStateSwitcher:
         self.__exit__(None, None, None)
 
     def __enter__(self):
-        self.old_state = setThreadState(self.target_state)
+        old_states = self.local.__dict__.setdefault("old_states", [])
+        old_states.append(setThreadState(self.target_state))
 
     def __exit__(self, context_type, context_value, context_traceback):
-        setThreadState(self.old_state)
+        setThreadState(self.local.old_states.pop())
 
 
 def suppressed(f):
-- 
2.43.0


From b92c15ad6448db4bc7b265f694b01e9189730953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:58 +0000
Subject: [PATCH 44/76] fix: the weak provider factory of the Python module can
 be used

---
 scalopus_python/scalopus/general.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_python/scalopus/general.py b/scalopus_python/scalopus/general.py
index f0aff1a..a0d310d 100644
--- a/scalopus_python/scalopus/general.py
+++ b/scalopus_python/scalopus/general.py
@@ -28,6 +28,7 @@
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from .lib import general
+import weakref
 
 EndpointIntrospect = general.EndpointIntrospect
 EndpointProcessInfo = general.EndpointProcessInfo
-- 
2.43.0


From 600854a71e7c3fceea498c24558c588607911743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:58 +0000
Subject: [PATCH 45/76] fix: the Python tools handle processes without process
 information or sharing a pid

---
 scalopus_python/scalopus/__main__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scalopus_python/scalopus/__main__.py b/scalopus_python/scalopus/__main__.py
index ea66901..f63fdcc 100644
--- a/scalopus_python/scalopus/__main__.py
+++ b/scalopus_python/scalopus/__main__.py
@@ -100,15 +100,17 @@ def run_discover(args):
                 data["process_info"] = pinfo.to_dict()
             if isinstance(endpoint, scalopus.general.EndpointIntrospect):
                 data["supported"] = endpoint.supported()
-        entries.append((data["pid"], data))
+        # Without process information there is nothing to identify it by.
+        if "pid" in data:
+            entries.append((data["pid"], data))
 
-    entries.sort()
+    entries.sort(key=lambda entry: entry[0])
 
     for _, data in entries:
         print("PID: {pid: >6d}  \"{name}\"".format(**data["process_info"]))
         doffset = " " * 13
         print(doffset + "Endpoints: {}".format(
-              ("\n" + doffset + "  ").join([""] + sorted(data["supported"]))))
+              ("\n" + doffset + "  ").join([""] + sorted(data.get("supported", [])))))
         threads = data["process_info"]["threads"]
         if threads:
             print(doffset + "Threads:")
@@ -178,6 +180,8 @@ def run_trace_configure(args):
     for transport, endpoint_map in endpoints.items():
         if not scalopus.tracing.EndpointTraceConfigurator.name in endpoint_map:
             continue
+        if not scalopus.general.EndpointProcessInfo.name in endpoint_map:
+            continue
 
         data = {}
         pinfo = endpoint_map[scalopus.general.EndpointProcessInfo.name].processInfo()
@@ -205,7 +209,7 @@ def run_trace_configure(args):
         data["state"] = state.to_dict()
 
         entries.append((data["pid"], data))
-    entries.sort()
+    entries.sort(key=lambda entry: entry[0])
 
     def color_by_state(str, enabled):
         if enabled:
-- 
2.43.0


From 9f7f618f3111c53894b7129e265de4c8af34121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:43 +0000
Subject: [PATCH 46/76] fix: a recorder that is not running can be stopped and
 destroyed

---
 scalopus_catapult/src/catapult_recorder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index c780a46..536d65e 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -54,7 +54,10 @@ void CatapultRecorder::loop()
 void CatapultRecorder::stop()
 {
   running_ = false;
-  worker_.join();
+  if (worker_.joinable())
+  {
+    worker_.join();
+  }
 }
 
 void CatapultRecorder::startInterval()
-- 
2.43.0


From 7a8b19a463b459b99c242bfee0f557363c3f586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 47/76] fix: text that is not valid UTF-8 does not prevent a
 recording from being written

---
 scalopus_catapult/src/catapult_recorder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 536d65e..1d96adc 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -133,7 +133,8 @@ std::string CatapultRecorder::collectEvents()
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Text that is not valid UTF-8 is replaced; it should not prevent the other events from being written.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "\n]\n";
   return ss.str();
-- 
2.43.0


From aad76d34be9d6df9e0a4daf55fe5461b25b262f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 48/76] fix: text that is not valid UTF-8 does not prevent a
 recording from being sent to the viewer

---
 scalopus_catapult/src/trace_session.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index fc22111..3ca3ddd 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -179,7 +179,8 @@ std::string TraceSession::formatEvents(const std::vector<json>& entries)
       ss << ",\n";
     }
     has_added = true;
-    ss << entry.dump();
+    // Text that is not valid UTF-8 is replaced; it should not prevent the other events from being sent.
+    ss << entry.dump(-1, ' ', false, json::error_handler_t::replace);
   }
   ss << "]}}";
   return ss.str();
-- 
2.43.0


From d38184d7034612efe744e6fbe7563d4065a62a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:12 +0000
Subject: [PATCH 49/76] fix: messages of the viewer that are not requests do
 not end the process

---
 scalopus_catapult/src/trace_session.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 3ca3ddd..a6e2e27 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -94,7 +94,13 @@ void TraceSession::loop()
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
   logger_("[session " + identifier() + "] <- " + incoming_msg);
-  auto msg = json::parse(incoming_msg);
+  // The viewer decides what it sends, anything that is not a request is ignored.
+  auto msg = json::parse(incoming_msg, nullptr, false);
+  if (!msg.is_object())
+  {
+    logger_("[session " + identifier() + "] ignoring a message that is not a JSON object.");
+    return;
+  }
 
   if (msg["method"] == "Tracing.getCategories")
   {
-- 
2.43.0


From e71f3bdd02db72435b05f61d88ee05eb01c5c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:34 +0000
Subject: [PATCH 50/76] fix: the worker of a viewer's session starts after its
 sources are added

---
 scalopus_catapult/src/catapult_backend.cpp |  3 +++
 scalopus_catapult/src/trace_session.cpp    |  9 ++++++++-
 scalopus_catapult/src/trace_session.h      | 12 +++++++++---
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/scalopus_catapult/src/catapult_backend.cpp b/scalopus_catapult/src/catapult_backend.cpp
index 7852615..e704394 100644
--- a/scalopus_catapult/src/catapult_backend.cpp
+++ b/scalopus_catapult/src/catapult_backend.cpp
@@ -172,6 +172,9 @@ void CatapultBackend::makeSession(ss::WebSocket* ws)
     {
       session->addSource(provider->makeSource());
     }
+
+    // Everything is set up, messages can be processed from here.
+    session->start();
     sessions_[ws] = std::move(session);
   }
 }
diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index a6e2e27..311d8a7 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -34,6 +34,10 @@
 namespace scalopus
 {
 TraceSession::TraceSession(ResponseFunction&& response_function) : response_(response_function)
+{
+}
+
+void TraceSession::start()
 {
   worker_ = std::thread([&]() { loop(); });
 }
@@ -41,7 +45,10 @@ TraceSession::TraceSession(ResponseFunction&& response_function) : response_(res
 TraceSession::~TraceSession()
 {
   running_ = false;
-  worker_.join();
+  if (worker_.joinable())
+  {
+    worker_.join();
+  }
 }
 
 void TraceSession::addSource(TraceEventSource::Ptr&& source)
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 8021426..dda503d 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -32,6 +32,7 @@
 #define SCALOPUS_CATAPULT_TRACE_SESSION_H
 
 #include <scalopus_interface/trace_event_source.h>
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -62,10 +63,15 @@ public:
   TraceSession(ResponseFunction&& response_function);
 
   /**
-   * @brief Add a data source to this session, in general this is done just after creation before data has come in.
+   * @brief Add a data source to this session, in general this must be done before the session is started.
    */
   void addSource(TraceEventSource::Ptr&& source);
 
+  /**
+   * @brief Start the worker of this session, this is done after the logger and the sources are set.
+   */
+  void start();
+
   /**
    * @brief Method called by the server whenever data is received on the socket.
    */
@@ -106,8 +112,8 @@ private:
    */
   void outgoing(const std::string& msg);
 
-  std::thread worker_;    //!< Worker thread for this session.
-  bool running_{ true };  //!< Bool to quit the worker thread gracefully.
+  std::thread worker_;                //!< Worker thread for this session.
+  std::atomic_bool running_{ true };  //!< Bool to quit the worker thread gracefully.
 
   /**
    * @brief The function executed by the worker thread.
-- 
2.43.0


From cf9bb995cfec49ad166d8d4afb8d825b3bb2a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:08 +0000
Subject: [PATCH 51/76] fix: queued answers of a viewer that left are not sent
 to a later one at the same address

---
 scalopus_catapult/src/catapult_backend.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scalopus_catapult/src/catapult_backend.cpp b/scalopus_catapult/src/catapult_backend.cpp
index e704394..90258c4 100644
--- a/scalopus_catapult/src/catapult_backend.cpp
+++ b/scalopus_catapult/src/catapult_backend.cpp
@@ -150,13 +150,15 @@ void CatapultBackend::makeSession(ss::WebSocket* ws)
     // New sessions, create the tracing session to use.
     // This function must only sent if the websocket is actually still availble to send to...
     // To guarantee this we create a weak pointer to the trace session, which we capture in the lambda.
-    auto response_function = [ws, this](const std::string& data) {
-      auto runnable = [ws, data, this]() {
+    // A websocket that connects later may have the same address, it must not get the data of this session.
+    auto weak_session = std::make_shared<std::weak_ptr<TraceSession>>();
+    auto response_function = [ws, weak_session, this](const std::string& data) {
+      auto runnable = [ws, weak_session, data, this]() {
         // lock the session mutex, technically this is not necessary as this function is executed from the server thread
         // and connections will not be closed or opened while this function is executing.
         std::lock_guard<std::mutex> session_lock(session_mutex_);
         auto session_it = sessions_.find(ws);
-        if (session_it != sessions_.end())
+        if (session_it != sessions_.end() && session_it->second == weak_session->lock())
         {
           session_it->first->send(data);  // success
         }
@@ -165,6 +167,7 @@ void CatapultBackend::makeSession(ss::WebSocket* ws)
     };
     // Create the session.
     auto session = std::make_shared<TraceSession>(std::move(response_function));
+    *weak_session = session;
     session->setLogger(logger_);
 
     // Add all the sources to the session
-- 
2.43.0


From ee7eb6f208c2b65a2620909fe8f49e1f47f237e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:48 +0000
Subject: [PATCH 52/76] fix: the catapult server listens on the port it was
 asked to use

---
 scalopus_catapult/src/scalopus_catapult_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/scalopus_catapult_server.cpp b/scalopus_catapult/src/scalopus_catapult_server.cpp
index 0c7d490..c676d8e 100644
--- a/scalopus_catapult/src/scalopus_catapult_server.cpp
+++ b/scalopus_catapult/src/scalopus_catapult_server.cpp
@@ -140,7 +140,7 @@ int main(int argc, char** argv)
   catapult_server->setSeasocksWarningLogger();
 
   // Bind and start.
-  catapult_server->start();
+  catapult_server->start(port);
 
   std::cout << "[main] Everything started, falling into loop to detect transports. Use ctrl + c to quit." << std::endl;
 
-- 
2.43.0


From 8d51c0ef3f1d5c4c2e472ba59f6579387ef9c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 53/76] fix: the process name can be set while requests for it
 are handled

---
 .../include/scalopus_general/endpoint_process_info.h      | 4 +++-
 scalopus_general/src/endpoint_process_info.cpp            | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 0c2a6d7..3bc15de 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport.h>
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace scalopus
@@ -80,7 +81,8 @@ public:
   bool handle(Transport& server, const Data& request, Data& response);
 
 private:
-  ProcessInfo info_;  //!< The process info.
+  ProcessInfo info_;          //!< The process info.
+  mutable std::mutex mutex_;  //!< Mutex for the process info, the name may be set while requests are handled.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 6e23d53..5ba0435 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -55,6 +55,7 @@ EndpointProcessInfo::EndpointProcessInfo()
 
 void EndpointProcessInfo::setProcessName(const std::string& process_name)
 {
+  std::lock_guard<std::mutex> lock(mutex_);
   info_.name = process_name;
 }
 
@@ -66,8 +67,11 @@ bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, D
   if (req["cmd"].get<std::string>() == "info")
   {
     json jdata = json::object();
-    jdata["pid"] = info_.pid;
-    jdata["name"] = info_.name;
+    {
+      std::lock_guard<std::mutex> lock(mutex_);
+      jdata["pid"] = info_.pid;
+      jdata["name"] = info_.name;
+    }
     jdata["threads"] = scalopus::ThreadNameTracker::getInstance().getMap();
     response = json::to_bson(jdata);
     return true;
-- 
2.43.0


From 85d3fad1ee6bff91e8fccb679ff3bf729d9d79df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 54/76] fix: the flag that stops the manager's polling is
 atomic

---
 .../scalopus_general/endpoint_manager_poll.h               | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index edf10f0..3b5c8eb 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -33,6 +33,7 @@
 #include <scalopus_interface/endpoint_manager.h>
 #include <scalopus_interface/trace_event_provider.h>
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
@@ -109,9 +110,9 @@ private:
 
   TransportFactory::Ptr factory_;  //!< The transport factory to use to discover and create connections.
 
-  bool is_polling_{ false };     //!< Should the worker thread continue polling?
-  double poll_interval_{ 1.0 };  //!< The poll interval in seconds.
-  std::thread thread_;           //!< Thread in which the polling takes place.
+  std::atomic_bool is_polling_{ false };  //!< Should the worker thread continue polling?
+  double poll_interval_{ 1.0 };           //!< The poll interval in seconds.
+  std::thread thread_;                    //!< Thread in which the polling takes place.
   void work();                   //!< Function in which the work the poller does takes place.
 };
 }  // namespace scalopus
-- 
2.43.0


From 95f24fdc2b87ef4641084ab75ac49f3bfcb5b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:02 +0000
Subject: [PATCH 55/76] fix: the servers of the loopback factory can be
 discovered while others are added

---
 .../include/scalopus_transport/transport_loopback.h             | 2 ++
 scalopus_transport/src/transport_loopback.cpp                   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scalopus_transport/include/scalopus_transport/transport_loopback.h b/scalopus_transport/include/scalopus_transport/transport_loopback.h
index 0974e6a..a3b2fad 100644
--- a/scalopus_transport/include/scalopus_transport/transport_loopback.h
+++ b/scalopus_transport/include/scalopus_transport/transport_loopback.h
@@ -32,6 +32,7 @@
 #define SCALOPUS_TRANSPORT_TRANSPORT_LOOPBACK_H
 
 #include <scalopus_interface/transport_factory.h>
+#include <mutex>
 #include <memory>
 
 namespace scalopus
@@ -48,6 +49,7 @@ public:
   Transport::Ptr connect(const Destination::Ptr& destination);
 
 protected:
+  std::mutex servers_mutex_;  //!< Mutex for the list of servers, servers may be added while others are discovered.
   std::vector<std::weak_ptr<Transport>> servers_;
 };
 }  // namespace scalopus
diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index c663968..86fad49 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -218,6 +218,7 @@ std::size_t DestinationLoopback::hash_code() const
 std::vector<Destination::Ptr> TransportLoopbackFactory::discover()
 {
   std::vector<Destination::Ptr> possible_destinations;
+  std::lock_guard<std::mutex> lock(servers_mutex_);
   for (const auto& weak_server : servers_)
   {
     auto server = weak_server.lock();
@@ -236,6 +237,7 @@ std::vector<Destination::Ptr> TransportLoopbackFactory::discover()
 Transport::Ptr TransportLoopbackFactory::serve()
 {
   auto new_server = std::make_shared<TransportLoopback>();
+  std::lock_guard<std::mutex> lock(servers_mutex_);
   servers_.push_back(new_server);
   return new_server;
 }
-- 
2.43.0


From 6cdd07a8d5035e409e5b5105dd29ef805c03914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:53 +0000
Subject: [PATCH 56/76] fix: the connection state of the unix transport is
 shared between threads safely

---
 scalopus_transport/src/transport_unix.cpp | 3 ++-
 scalopus_transport/src/transport_unix.h   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 9817415..09b842b 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -157,7 +157,8 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    sent = protocol::send(client_fd_, outgoing_msg);
+    const int fd = client_fd_;  // zero if the connection was lost.
+    sent = (fd != 0) && protocol::send(fd, outgoing_msg);
   }
 
   if (!sent)
diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index 04fd730..72c50c7 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -31,6 +31,7 @@
 #define SCALOPUS_TRANSPORT_TRANSPORT_UNIX_INTERNAL_H
 
 #include <scalopus_interface/transport_factory.h>
+#include <atomic>
 #include <future>
 #include <map>
 #include <set>
@@ -86,10 +87,10 @@ private:
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
   int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  int client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  std::atomic<int> client_fd_{ 0 };  //!< File descriptor from connecting to a server.
   std::size_t client_pid_{ 0 };
 
-  bool running_{ false };  //!< Boolean to quit the worker thread.
+  std::atomic_bool running_{ false };  //!< Boolean to quit the worker thread.
 
   std::set<int> connections_;  //!< Open connections, also holds server_fd_ and client_fd_.
 
-- 
2.43.0


From db65a742a41d4329a92c7e321b850343767e2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:53 +0000
Subject: [PATCH 57/76] fix: the native trace sender does not use a transport
 that is gone

---
 .../include/scalopus_interface/transport.h            |  6 ++++++
 scalopus_interface/src/transport.cpp                  | 11 +++++++++++
 .../scalopus_tracing/endpoint_native_trace_sender.h   |  8 +++++++-
 .../src/native/endpoint_native_trace_sender.cpp       |  7 +++++++
 scalopus_transport/src/transport_loopback.cpp         |  1 +
 scalopus_transport/src/transport_unix.cpp             |  3 +++
 6 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/scalopus_interface/include/scalopus_interface/transport.h b/scalopus_interface/include/scalopus_interface/transport.h
index 83245c7..6a0feeb 100644
--- a/scalopus_interface/include/scalopus_interface/transport.h
+++ b/scalopus_interface/include/scalopus_interface/transport.h
@@ -118,6 +118,12 @@ protected:
    */
   std::pair<std::string, Data> popBroadcast();
 
+  /**
+   * @brief Clear the transport of the endpoints that still use this one, must be called by the destructor of the
+   *        transport, as the endpoints may outlive it.
+   */
+  void detachEndpoints();
+
   std::deque<std::pair<std::string, Data>> broadcast_messages_;  //!< List of broadcast messages to send out.
   mutable std::mutex broadcast_message_mutex_;
 
diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index 3bc6fab..e09114b 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -80,6 +80,17 @@ Endpoint::Ptr Transport::getEndpoint(const std::string& name) const
   return nullptr;
 }
 
+void Transport::detachEndpoints()
+{
+  for (const auto& name_endpoint : endpoints())
+  {
+    if (name_endpoint.second->getTransport() == this)
+    {
+      name_endpoint.second->setTransport(static_cast<Transport*>(nullptr));
+    }
+  }
+}
+
 void Transport::setLogger(LoggingFunction logger)
 {
   logger_ = logger;
diff --git a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
index 3b70579..f1b4bb9 100644
--- a/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
+++ b/scalopus_tracing/include/scalopus_tracing/endpoint_native_trace_sender.h
@@ -31,6 +31,9 @@
 #define SCALOPUS_TRACING_ENDPOINT_NATIVE_TRACE_SENDER_H
 
 #include <scalopus_interface/transport.h>
+#include <atomic>
+#include <mutex>
+#include <thread>
 
 namespace scalopus
 {
@@ -48,10 +51,13 @@ public:
 
   // From the endpoint
   std::string getName() const;
+  using Endpoint::setTransport;
+  void setTransport(Transport* transport);
 
 private:
   void work();
-  bool running_{ true };
+  std::atomic_bool running_{ true };
+  std::mutex transport_mutex_;  //!< Mutex for the transport, it is not changed while the worker is using it.
   std::thread worker_;
 };
 
diff --git a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
index fd5c148..b5ee907 100644
--- a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
+++ b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
@@ -102,6 +102,7 @@ void EndpointNativeTraceSender::work()
     }
     if (collected)
     {
+      std::lock_guard<std::mutex> lock(transport_mutex_);
       if (transport_ != nullptr)
       {
         transport_->broadcast("native_trace_receiver", process_events(events));
@@ -112,6 +113,12 @@ void EndpointNativeTraceSender::work()
   }
 }
 
+void EndpointNativeTraceSender::setTransport(Transport* transport)
+{
+  std::lock_guard<std::mutex> lock(transport_mutex_);
+  Endpoint::setTransport(transport);
+}
+
 std::string EndpointNativeTraceSender::getName() const
 {
   return name;
diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 86fad49..b523106 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -48,6 +48,7 @@ TransportLoopback::~TransportLoopback()
   {
     thread_.join();
   }
+  detachEndpoints();  // The endpoints may outlive this transport.
 }
 
 TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 09b842b..d3389d7 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -222,6 +222,9 @@ TransportUnix::~TransportUnix()
     thread_.join();
   }
 
+  // The endpoints may outlive this transport.
+  detachEndpoints();
+
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-- 
2.43.0


From 0cb08660bb1efdd2c62f5352e71cefe6c36ba500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:53 +0000
Subject: [PATCH 58/76] fix: endpoints can make requests while handling one of
 the loopback transport

---
 scalopus_transport/src/transport_loopback.cpp | 88 ++++++++++---------
 scalopus_transport/src/transport_loopback.h   |  8 +-
 2 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index b523106..a44cedc 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -92,53 +92,61 @@ std::size_t TransportLoopback::pendingRequests() const
   return ongoing_requests_.size();
 }
 
+void TransportLoopback::serve(PendingRequest& req)
+{
+  const auto& remote_endpoint_name = std::get<0>(req);
+  const auto& outgoing = std::get<1>(req);
+  auto& promise = std::get<2>(req);
+  auto& request_ptr = std::get<3>(req);
+  if (request_ptr.lock() == nullptr)
+  {
+    return;  // request went stale.
+  }
+
+  // get the appropriate endpoint from the server.
+  auto endpoint = server_->getEndpoint(remote_endpoint_name);
+
+  // If the endpoint doesn't exist on the remote end, throw
+  if (endpoint == nullptr)
+  {
+    promise.set_exception(std::make_exception_ptr(std::runtime_error(
+        "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+    return;
+  }
+
+  Data resp;
+  bool res{ false };
+  try
+  {
+    res = endpoint->handle(*server_, outgoing, resp);
+  }
+  catch (const std::exception& e)
+  {
+    logger_("[TransportLoopback] Endpoint failed on a request: " + std::string(e.what()));
+  }
+  if (res)
+  {
+    promise.set_value(resp);
+  }
+}
+
 void TransportLoopback::work()
 {
   const auto running = running_;  // Outlives this instance if it is destroyed by this thread.
   while (*running)
   {
-    // First, server any requests that are pending.
+    // First, server any requests that are pending. The lock is not held while a request is served, such that endpoints
+    // can use the transport. The request remains in the list until it is served; new requests are only added at the end.
+    std::unique_lock<decltype(request_lock_)> requests_lock(request_lock_);
+    for (std::size_t remaining = ongoing_requests_.size(); remaining != 0; remaining--)
     {
-      std::lock_guard<decltype(request_lock_)> lock(request_lock_);
-      for (auto& req : ongoing_requests_)
-      {
-        const auto& remote_endpoint_name = std::get<0>(req);
-        const auto& outgoing = std::get<1>(req);
-        auto& promise = std::get<2>(req);
-        auto& request_ptr = std::get<3>(req);
-        if (request_ptr.lock() == nullptr)
-        {
-          continue;  // request went stale.
-        }
-
-        // get the appropriate endpoint from the server.
-        auto endpoint = server_->getEndpoint(remote_endpoint_name);
-
-        // If the endpoint doesn't exist on the remote end, throw
-        if (endpoint == nullptr)
-        {
-          promise.set_exception(std::make_exception_ptr(std::runtime_error(
-              "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
-          continue;
-        }
-
-        Data resp;
-        bool res{ false };
-        try
-        {
-          res = endpoint->handle(*server_, outgoing, resp);
-        }
-        catch (const std::exception& e)
-        {
-          logger_("[TransportLoopback] Endpoint failed on a request: " + std::string(e.what()));
-        }
-        if (res)
-        {
-          promise.set_value(resp);
-        }
-      }
-      ongoing_requests_.clear();  // We processed all requests, we can clear them.
+      auto& req = ongoing_requests_.front();
+      requests_lock.unlock();
+      serve(req);
+      requests_lock.lock();
+      ongoing_requests_.pop_front();
     }
+    requests_lock.unlock();
 
     // Secondly, we server all the broadcasts
     {
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index 36524d1..7f38cc1 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -34,6 +34,7 @@
 #include <scalopus_transport/transport_loopback.h>
 #include <atomic>
 #include <future>
+#include <list>
 #include <map>
 #include <memory>
 #include <set>
@@ -84,6 +85,11 @@ private:
   std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
   mutable std::mutex clients_lock_;          //!< Lock to guard the list of clients.
 
+  /**
+   * @brief Let the server handle a request and fulfil its promise with the response.
+   */
+  void serve(PendingRequest& request);
+
   /**
    * @brief Function in which we server the ongoing requests and broadcasts.
    */
@@ -96,7 +102,7 @@ private:
   mutable std::mutex request_lock_;  //!< Lock to guard modification of ongoing_requests_ map.
 
   //! The outstanding requests and their promised data.
-  std::vector<PendingRequest> ongoing_requests_;
+  std::list<PendingRequest> ongoing_requests_;
 };
 
 /**
-- 
2.43.0


From 576391df3db75ecfe07fdf714d58c8b639459549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 59/76] fix: the manager picks up endpoints that a server adds
 after it was connected to

---
 .../scalopus_general/endpoint_manager_poll.h  |  6 ++++
 .../src/endpoint_manager_poll.cpp             | 32 +++++++++++++------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
index 3b5c8eb..061a17a 100644
--- a/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
+++ b/scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h
@@ -114,6 +114,12 @@ private:
   double poll_interval_{ 1.0 };           //!< The poll interval in seconds.
   std::thread thread_;                    //!< Thread in which the polling takes place.
   void work();                   //!< Function in which the work the poller does takes place.
+
+  /**
+   * @brief Create the endpoints that the server of this transport supports and that we do not have yet.
+   * @param is_new True if the connection was just made.
+   */
+  void updateEndpoints(const Transport::Ptr& transport, const bool is_new);
 };
 }  // namespace scalopus
 #endif  // SCALOPUS_CATAPULT_ENDPOINT_MANANGER_POLL_H
diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index bb0d2a5..4c6ceeb 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -56,9 +56,13 @@ void EndpointManagerPoll::manage()
   std::lock_guard<std::mutex> lock(mutex_);
   const auto current_transports = transports_;
 
-  // Clean up transports that have died on us.
+  // Clean up transports that have died on us, the servers of the others may have gained endpoints since.
   for (const auto& transport : current_transports)
   {
+    if (transport.second->isConnected())
+    {
+      updateEndpoints(transport.second, false);
+    }
     if (!transport.second->isConnected())
     {
       log("[scalopus] Cleaning up transport to: " + std::to_string(transport.first));
@@ -92,7 +96,16 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   }
   transports_[destination->hash_code()] = transport;
   transport_endpoints_[transport] = {};
+  updateEndpoints(transport, true);
+  if (!transport->isConnected())
+  {
+    transports_.erase(destination->hash_code());
+    transport_endpoints_.erase(transport);
+  }
+}
 
+void EndpointManagerPoll::updateEndpoints(const Transport::Ptr& transport, const bool is_new)
+{
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
@@ -104,16 +117,15 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   catch (const std::exception& e)
   {
     // The server went away or did not provide a valid answer, this may not affect the other servers.
-    log("[scalopus] Failed to determine endpoints of " + std::string(*destination) + ": " + e.what());
-    if (!transport->isConnected())
-    {
-      transports_.erase(destination->hash_code());
-      transport_endpoints_.erase(transport);
-      return;
-    }
+    log(std::string("[scalopus] Failed to determine the endpoints of a server: ") + e.what());
   }
+  auto& endpoints = transport_endpoints_[transport];
   for (const auto& supported_endpoint : supported)
   {
+    if (endpoints.find(supported_endpoint) != endpoints.end())
+    {
+      continue;  // we already have this one.
+    }
     const auto it = endpoint_factories_.find(supported_endpoint);
     if (it != endpoint_factories_.end())
     {
@@ -121,7 +133,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
       auto new_endpoint = endpoint_factories_[supported_endpoint](transport);
       if (new_endpoint != nullptr)
       {
-        transport_endpoints_[transport][supported_endpoint] = new_endpoint;
+        endpoints[supported_endpoint] = new_endpoint;
         // Also register the new endpoint with the transport in case it needs to listen to broadcast messages.
         transport->addEndpoint(new_endpoint);
       }
@@ -130,7 +142,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
         log("[scalopus] Factory for " + std::string{ supported_endpoint } + " returned nullptr");
       }
     }
-    else
+    else if (is_new)
     {
       log("[scalopus] remote supports endpoint we don't support: " + supported_endpoint);
     }
-- 
2.43.0


From 77bce5ee1ee473af3113b29d2f23ea544e050f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 60/76] fix: programs started by the process do not inherit the
 sockets of the unix transport

A program that was started by a process (through fork and exec) got a copy of the descriptors of its server and connections.
As long as that program ran the server was still discovered and its clients were still connected after the process was gone.
---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index d3389d7..cc72f92 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -49,7 +49,7 @@ TransportUnix::TransportUnix()
 bool TransportUnix::serve()
 {
   // Create the server socket to work with.
-  server_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  server_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (server_fd_ == -1)
   {
@@ -100,7 +100,7 @@ bool TransportUnix::serve()
 
 bool TransportUnix::connect(std::size_t pid)
 {
-  client_fd_ = socket(AF_UNIX, SOCK_STREAM, 0);
+  client_fd_ = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 
   if (client_fd_ == -1)
   {
@@ -269,7 +269,7 @@ void TransportUnix::work()
     if (FD_ISSET(server_fd_, &read_fds))
     {
       int client{ 0 };
-      client = accept(server_fd_, nullptr, nullptr);
+      client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
       if (client == -1)
       {
         logger_("[TransportUnix] Could not accept client.");
-- 
2.43.0


From 2d40b1ac5ea0707c8f650afcee114e7f2f8aa644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 61/76] fix: a connection is closed only once

If receiving a message failed and the connection had urgent data as well, it was shut down and closed twice. Another thread
could have obtained the same descriptor number for one of its own sockets in between.
---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index cc72f92..bd3ceae 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -366,6 +366,7 @@ void TransportUnix::work()
           ::shutdown(connection, 2);
           ::close(connection);
           connections_.erase(connection);
+          continue;  // it is closed, its number may be in use by something else from here.
         }
       }
 
-- 
2.43.0


From 060fd9ec89821ba0a7410817d5f2eb39117b06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 62/76] fix: descriptor zero is a valid descriptor for the unix
 transport

In a process without a standard input the sockets can get descriptor
zero, which the transport took for not being connected.
---
 scalopus_transport/src/protocol.cpp       |  2 +-
 scalopus_transport/src/transport_unix.cpp | 18 ++++++++----------
 scalopus_transport/src/transport_unix.h   |  4 ++--
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 1f73386..92d073b 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -170,7 +170,7 @@ static bool sendData(int fd, const void* data, size_t length)
 
 bool send(int fd, const Msg& outgoing)
 {
-  if (fd == 0)
+  if (fd == -1)
   {
     return false;
   }
diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index bd3ceae..8b95ab5 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -54,7 +54,6 @@ bool TransportUnix::serve()
   if (server_fd_ == -1)
   {
     logger_("[TransportUnix] Could not create socket.");
-    server_fd_ = 0;
     return false;
   }
 
@@ -105,7 +104,6 @@ bool TransportUnix::connect(std::size_t pid)
   if (client_fd_ == -1)
   {
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
-    client_fd_ = 0;
     return false;
   }
   connections_.insert(client_fd_);
@@ -157,8 +155,8 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    const int fd = client_fd_;  // zero if the connection was lost.
-    sent = (fd != 0) && protocol::send(fd, outgoing_msg);
+    const int fd = client_fd_;  // -1 if the connection was lost.
+    sent = (fd != -1) && protocol::send(fd, outgoing_msg);
   }
 
   if (!sent)
@@ -177,7 +175,7 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
 
 bool TransportUnix::isConnected() const
 {
-  return (client_fd_ != 0) || (server_fd_ != 0);
+  return (client_fd_ != -1) || (server_fd_ != -1);
 }
 
 std::vector<std::size_t> TransportUnix::getTransportServers()
@@ -266,7 +264,7 @@ void TransportUnix::work()
     }
 
     // Handle server stuff, accept new connection:
-    if (FD_ISSET(server_fd_, &read_fds))
+    if ((server_fd_ != -1) && FD_ISSET(server_fd_, &read_fds))
     {
       int client{ 0 };
       client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
@@ -279,14 +277,14 @@ void TransportUnix::work()
     }
 
     // handle client readable:
-    if (FD_ISSET(client_fd_, &read_fds))
+    if ((client_fd_ != -1) && FD_ISSET(client_fd_, &read_fds))
     {
       protocol::Msg incoming;
       if (!protocol::receive(client_fd_, incoming))
       {
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
-        client_fd_ = 0;
+        client_fd_ = -1;
         continue;
       }
 
@@ -333,7 +331,7 @@ void TransportUnix::work()
       }
     }
 
-    if (FD_ISSET(server_fd_, &except_fds))
+    if ((server_fd_ != -1) && FD_ISSET(server_fd_, &except_fds))
     {
       logger_("[TransportUnix] Exception on server ");
     }
@@ -447,7 +445,7 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
 
 Destination::Ptr TransportUnix::getAddress()
 {
-  if (server_fd_ != 0)
+  if (server_fd_ != -1)
   {
     return std::make_shared<DestinationUnix>(::getpid());
   }
diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index 72c50c7..a997f78 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -86,8 +86,8 @@ private:
 
   std::thread thread_;  //!< Worker thread to handle connections and communication.
   void work();          //!< Function for the worker thread.
-  int server_fd_{ 0 };  //!< File descriptor from the server bind.
-  std::atomic<int> client_fd_{ 0 };  //!< File descriptor from connecting to a server.
+  int server_fd_{ -1 };  //!< File descriptor from the server bind.
+  std::atomic<int> client_fd_{ -1 };  //!< File descriptor from connecting to a server.
   std::size_t client_pid_{ 0 };
 
   std::atomic_bool running_{ false };  //!< Boolean to quit the worker thread.
-- 
2.43.0


From 6937acee3d0276140981528713d2a15655f79cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 63/76] fix: discover a server once, however many clients it
 accepted

The accepted connections of a server are listed in /proc/net/unix with the
name of the server and an inode of their own, so every accepted client caused
the server to be discovered another time. Only the socket that accepts
connections is the server.
---
 scalopus_transport/src/transport_unix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 8b95ab5..42268ec 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -194,8 +194,9 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
     unsigned long inode{ 0 };
     fields >> num >> ref_count >> protocol >> flags >> type >> state >> inode;
     std::getline(fields >> std::ws, path);
-    // clients to the socket get a 0 inode address...
-    if (inode == 0 || path.size() <= suffix.size() + 1 || path.front() != '@' ||
+    // The connections to a server are listed with its path too, only the server itself accepts connections (__SO_ACCEPTCON).
+    const bool accepts = (std::strtoul(flags.c_str(), nullptr, 16) & 0x10000) != 0;
+    if (!accepts || path.size() <= suffix.size() + 1 || path.front() != '@' ||
         path.compare(path.size() - suffix.size(), suffix.size(), suffix) != 0)
     {
       continue;  // definitely is not a line we are interested in.
-- 
2.43.0


From 17ff3b12d5fda42811160fda2997b8c197a6b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 64/76] fix: several native trace senders in a process do not
 read the same buffer at once

The ring buffers have a single consumer. Each sender collects from the buffers
of all threads in its own thread, so a process that serves its trace data on
two transports, or replaces its server, had two consumers of each buffer.
---
 scalopus_tracing/src/native/endpoint_native_trace_sender.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
index b5ee907..153370b 100644
--- a/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
+++ b/scalopus_tracing/src/native/endpoint_native_trace_sender.cpp
@@ -77,8 +77,11 @@ void EndpointNativeTraceSender::work()
   // The collector is a singleton, just retrieve it once.
   auto collector_ptr = TracePointCollectorNative::getInstance();
   auto& collector = *collector_ptr;
+  // The buffers have a single consumer, while there can be several senders in this process; one for each transport.
+  static std::mutex collect_mutex;
   while (running_)
   {
+    std::unique_lock<std::mutex> collect_lock(collect_mutex);
     // First, retrieve the orphaned buffers.
     auto tid_buffers = collector.retrieveAndClearOrphanedBuffers();
     // Then, append to that the active buffers.
@@ -100,6 +103,7 @@ void EndpointNativeTraceSender::work()
       output_buffer.reserve(output_buffer.size() + available);
       collected += buffer->pop_into(std::back_inserter(output_buffer), available);
     }
+    collect_lock.unlock();
     if (collected)
     {
       std::lock_guard<std::mutex> lock(transport_mutex_);
-- 
2.43.0


From dfbed64dc372d44f65f9e628515cdb55ca564b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:56 +0000
Subject: [PATCH 65/76] fix: messages of the viewer that are nested very deep
 do not end the process

The id of a request is copied and written recursively, so a viewer could
exhaust the stack of the session's thread with a message of some ten kilobytes.
Such messages are ignored, like everything else that is not a request.
---
 scalopus_catapult/src/trace_session.cpp | 10 ++++++++--
 scalopus_catapult/src/trace_session.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 311d8a7..e407c92 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -102,8 +102,14 @@ void TraceSession::processMessage(const std::string& incoming_msg)
 {
   logger_("[session " + identifier() + "] <- " + incoming_msg);
   // The viewer decides what it sends, anything that is not a request is ignored.
-  auto msg = json::parse(incoming_msg, nullptr, false);
-  if (!msg.is_object())
+  // Values are copied and written recursively, so the nesting is limited to prevent exhausting the stack.
+  bool too_deep{ false };
+  const auto limit_depth = [&too_deep](int depth, json::parse_event_t, json&) {
+    too_deep |= depth > MAX_MESSAGE_DEPTH;
+    return !too_deep;
+  };
+  auto msg = json::parse(incoming_msg, limit_depth, false);
+  if (too_deep || !msg.is_object())
   {
     logger_("[session " + identifier() + "] ignoring a message that is not a JSON object.");
     return;
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index dda503d..56e362a 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -50,6 +50,7 @@ namespace scalopus
 class TraceSession
 {
   const size_t CHUNK_SIZE = 1000;
+  static constexpr int MAX_MESSAGE_DEPTH = 100;  //!< Nesting depth beyond which a message of the viewer is ignored.
 
 public:
   using LoggingFunction = std::function<void(const std::string& output)>;
-- 
2.43.0


From 8b224b01190d83e972c03b11b3ca6dff31478a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 66/76] fix: responses that are nested very deep do not end the
 process that asked

---
 scalopus_general/include/scalopus_general/internal/bson.h | 8 ++++----
 scalopus_general/src/endpoint_introspect.cpp              | 3 ++-
 scalopus_general/src/endpoint_process_info.cpp            | 4 ++--
 scalopus_tracing/src/endpoint_trace_configurator.cpp      | 6 +++---
 scalopus_tracing/src/endpoint_trace_mapping.cpp           | 3 ++-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/scalopus_general/include/scalopus_general/internal/bson.h b/scalopus_general/include/scalopus_general/internal/bson.h
index 4433475..75f8e63 100644
--- a/scalopus_general/include/scalopus_general/internal/bson.h
+++ b/scalopus_general/include/scalopus_general/internal/bson.h
@@ -65,16 +65,16 @@ private:
 };
 
 /**
- * @brief Parse a request. The parser recurses for every nested document, so the nesting depth of data from a remote has
- *        to be limited to prevent it from exhausting the stack.
+ * @brief Parse a request or a response. The parser recurses for every nested document, so the nesting depth of data from
+ *        a remote has to be limited to prevent it from exhausting the stack.
  * @throws An exception derived from std::exception if the data can't be parsed.
  */
-inline nlohmann::json requestFromBson(const Data& data)
+inline nlohmann::json messageFromBson(const Data& data)
 {
   BsonDepthLimiter limiter;
   if (!nlohmann::json::sax_parse(data, &limiter, nlohmann::json::input_format_t::bson))
   {
-    throw std::runtime_error("Request is not valid bson, or nested too deep.");
+    throw std::runtime_error("Message is not valid bson, or nested too deep.");
   }
   return nlohmann::json::from_bson(data);
 }
diff --git a/scalopus_general/src/endpoint_introspect.cpp b/scalopus_general/src/endpoint_introspect.cpp
index 8f9bd39..824a1cf 100644
--- a/scalopus_general/src/endpoint_introspect.cpp
+++ b/scalopus_general/src/endpoint_introspect.cpp
@@ -28,6 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_general/endpoint_introspect.h"
+#include <scalopus_general/internal/bson.h>
 #include <scalopus_interface/transport.h>
 #include <nlohmann/json.hpp>
 
@@ -67,7 +68,7 @@ std::vector<std::string> EndpointIntrospect::supported()
   auto future_ptr = transport_->request(name, {});
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = messageFromBson(future_ptr->get());  // This line may throw
     return jdata["endpoints"].get<std::vector<std::string>>();
   }
 
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 5ba0435..df4e9ad 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -61,7 +61,7 @@ void EndpointProcessInfo::setProcessName(const std::string& process_name)
 
 bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, Data& response)
 {
-  json req = requestFromBson(request);
+  json req = messageFromBson(request);
 
   // Request is process name:
   if (req["cmd"].get<std::string>() == "info")
@@ -94,7 +94,7 @@ EndpointProcessInfo::ProcessInfo EndpointProcessInfo::processInfo()
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = messageFromBson(future_ptr->get());  // This line may throw
     jdata["name"].get_to(info.name);
     jdata["threads"].get_to(info.threads);
     jdata["pid"].get_to(info.pid);
diff --git a/scalopus_tracing/src/endpoint_trace_configurator.cpp b/scalopus_tracing/src/endpoint_trace_configurator.cpp
index ac9aaaa..ff15e39 100644
--- a/scalopus_tracing/src/endpoint_trace_configurator.cpp
+++ b/scalopus_tracing/src/endpoint_trace_configurator.cpp
@@ -74,7 +74,7 @@ EndpointTraceConfigurator::setTraceState(const TraceConfiguration& state) const
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = messageFromBson(future_ptr->get());  // This line may throw
     auto new_state = jdata.at("state").get<TraceConfiguration>();
     new_state.cmd_success = true;
     return new_state;
@@ -96,7 +96,7 @@ EndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTrac
 
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
-    json jdata = json::from_bson(future_ptr->get());  // This line may throw
+    json jdata = messageFromBson(future_ptr->get());  // This line may throw
     auto new_state = jdata.at("state").get<TraceConfiguration>();
     new_state.cmd_success = true;
     return new_state;
@@ -106,7 +106,7 @@ EndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTrac
 
 bool EndpointTraceConfigurator::handle(Transport& /* server */, const Data& request, Data& response)
 {
-  json req = requestFromBson(request);
+  json req = messageFromBson(request);
   auto configurator_instance = TraceConfigurator::getInstance();
 
   auto thread_map = configurator_instance->getThreadMap();
diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 4b266f9..2a1030c 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -27,6 +27,7 @@
   OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
+#include <scalopus_general/internal/bson.h>
 #include <scalopus_tracing/endpoint_trace_mapping.h>
 #include <scalopus_tracing/internal/static_string_tracker.h>
 #include <sys/types.h>
@@ -73,7 +74,7 @@ EndpointTraceMapping::ProcessTraceMap EndpointTraceMapping::mapping()
   if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
   {
     ProcessTraceMap res;
-    json jdata = json::from_bson(future_ptr->get());
+    json jdata = messageFromBson(future_ptr->get());
     jdata["mapping"].get_to(res);
     return res;
   }
-- 
2.43.0


From 50144386aec2bf5dc603a903fad0bcdb43b8d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 67/76] fix: Python integers in the upper half of the unsigned
 range can be converted to json

---
 scalopus_python/lib/json_util.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scalopus_python/lib/json_util.cpp b/scalopus_python/lib/json_util.cpp
index 2ab0605..b5bc323 100644
--- a/scalopus_python/lib/json_util.cpp
+++ b/scalopus_python/lib/json_util.cpp
@@ -148,6 +148,12 @@ json pyToJson(const py::object& data)
 
   if (py::isinstance<py::int_>(data))
   {
+    int overflow{ 0 };
+    PyLong_AsLongLongAndOverflow(data.ptr(), &overflow);
+    if (overflow > 0)
+    {
+      return data.cast<std::uint64_t>();  // json distinguishes these, like thread ids in the upper half of the range.
+    }
     return data.cast<std::int64_t>();
   }
 
-- 
2.43.0


From 1ca59dbd6eba588d6ec045470c4ef24ee71fff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 68/76] fix: the unix transport can be used in processes with
 many descriptors

An fd_set holds the descriptors below FD_SETSIZE (1024). In a process that has more of them open, the descriptor of the
server, of a client or of an accepted connection was written outside of the set: the process was aborted, or its stack was
corrupted. Use poll, which has no such limit.
---
 scalopus_transport/src/transport_unix.cpp | 55 ++++++++++++-----------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 42268ec..68e1e94 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -28,12 +28,11 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "transport_unix.h"
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <sys/types.h>
 #include <sys/un.h>
 #include <unistd.h>
-#include <algorithm>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -234,38 +233,42 @@ TransportUnix::~TransportUnix()
 
 void TransportUnix::work()
 {
-  fd_set read_fds;
-  fd_set write_fds;
-  fd_set except_fds;
-  struct timeval tv;
+  // Poll is used instead of select, as the latter can't handle descriptors with a value of FD_SETSIZE or higher.
+  std::set<int> read_fds;
+  std::set<int> except_fds;
+  std::vector<struct pollfd> poll_fds;
 
   while (running_)
   {
-    tv.tv_sec = 0;
-    tv.tv_usec = 10000;
-    FD_ZERO(&read_fds);
-    FD_ZERO(&write_fds);
-    FD_ZERO(&except_fds);
+    read_fds.clear();
+    except_fds.clear();
+    poll_fds.clear();
     for (const auto& connection : connections_)
     {
-      FD_SET(connection, &read_fds);
-      //  FD_SET(connection, &write_fds);  // We will just block when writing, that's fine.
-      FD_SET(connection, &except_fds);
+      // We do not wait until it is writeable, we will just block when writing, that's fine.
+      poll_fds.push_back({ connection, POLLIN | POLLPRI, 0 });
     }
 
-    const int nfds = *std::max_element(connections_.begin(), connections_.end()) + 1;
-    int select_result = select(nfds, &read_fds, &write_fds, &except_fds, &tv);
+    if (::poll(poll_fds.data(), poll_fds.size(), 10) == -1)
+    {
+      // The events are not set, for example because a signal interrupted the call.
+      logger_("[TransportUnix]: Failure occured on poll.");
+    }
 
-    if (select_result == -1)
+    for (const auto& poll_fd : poll_fds)
     {
-      logger_("[TransportUnix]: Failure occured on select.");
-      // The descriptor sets are not valid, for example because a signal interrupted the call.
-      FD_ZERO(&read_fds);
-      FD_ZERO(&except_fds);
+      if ((poll_fd.revents & (POLLIN | POLLHUP | POLLERR)) != 0)
+      {
+        read_fds.insert(poll_fd.fd);
+      }
+      if ((poll_fd.revents & POLLPRI) != 0)
+      {
+        except_fds.insert(poll_fd.fd);
+      }
     }
 
     // Handle server stuff, accept new connection:
-    if ((server_fd_ != -1) && FD_ISSET(server_fd_, &read_fds))
+    if ((server_fd_ != -1) && (read_fds.count(server_fd_) != 0))
     {
       int client{ 0 };
       client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
@@ -278,7 +281,7 @@ void TransportUnix::work()
     }
 
     // handle client readable:
-    if ((client_fd_ != -1) && FD_ISSET(client_fd_, &read_fds))
+    if ((client_fd_ != -1) && (read_fds.count(client_fd_) != 0))
     {
       protocol::Msg incoming;
       if (!protocol::receive(client_fd_, incoming))
@@ -332,7 +335,7 @@ void TransportUnix::work()
       }
     }
 
-    if ((server_fd_ != -1) && FD_ISSET(server_fd_, &except_fds))
+    if ((server_fd_ != -1) && (except_fds.count(server_fd_) != 0))
     {
       logger_("[TransportUnix] Exception on server ");
     }
@@ -346,7 +349,7 @@ void TransportUnix::work()
         continue;
       }
 
-      if (FD_ISSET(connection, &read_fds))
+      if (read_fds.count(connection) != 0)
       {
         protocol::Msg request;
         bool result = protocol::receive(connection, request);
@@ -369,7 +372,7 @@ void TransportUnix::work()
         }
       }
 
-      if (FD_ISSET(connection, &except_fds))
+      if (except_fds.count(connection) != 0)
       {
         ::shutdown(connection, 2);
         ::close(connection);
-- 
2.43.0


From b15a4adde9f4e9e03f09632bed8c2e90373290a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 69/76] fix: the output of the viewer can be read in processes
 with many descriptors

The descriptor of the output of the viewer was put in an fd_set, which holds the descriptors below FD_SETSIZE (1024) only: in
a process that has more of them open it was aborted, or its stack was corrupted. Use poll, which has no such limit.
---
 .../src/lttng/babeltrace_parser.cpp           | 25 ++++++-------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 55a081b..a1615df 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,7 +28,7 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
-#include <sys/select.h>
+#include <poll.h>
 #include <unistd.h>
 #include <array>
 #include <cerrno>
@@ -102,27 +102,16 @@ void BabeltraceParser::run(FILE* stdout)
   std::array<char, 4096> tmp;
   std::string buffer;  // data received that is not yet a complete line.
   int fd = fileno(stdout);
-  fd_set read_fds;
-  fd_set write_fds;
-  fd_set except_fds;
-  FD_ZERO(&read_fds);
-  FD_ZERO(&write_fds);
-  FD_ZERO(&except_fds);
-  struct timeval tv;
   while (processing_.load())  // while processing.
   {
-    tv.tv_sec = 0;
-    tv.tv_usec = 10000;
-    FD_SET(fd, &read_fds);
-    FD_SET(fd, &except_fds);
-
-    const int nfds = fd + 1;
-    int select_result = select(nfds, &read_fds, &write_fds, &except_fds, &tv);
-    if (select_result == -1)
+    // Poll is used instead of select, as the latter can't handle descriptors with a value of FD_SETSIZE or higher.
+    struct pollfd poll_fd = { fd, POLLIN | POLLPRI, 0 };
+    int poll_result = ::poll(&poll_fd, 1, 10);
+    if (poll_result == -1)
     {
       continue;
     }
-    if (FD_ISSET(fd, &read_fds))
+    if ((poll_fd.revents & (POLLIN | POLLHUP | POLLERR | POLLNVAL)) != 0)
     {
       // Read what is available. The descriptor is used instead of the (buffered) file, as select does not know about data
       // that is in the buffer of the file and waiting for the remainder of a line may not block the halt function.
@@ -150,7 +139,7 @@ void BabeltraceParser::run(FILE* stdout)
         processing_.store(false);
       }
     }
-    if (FD_ISSET(fd, &except_fds))
+    if ((poll_fd.revents & POLLPRI) != 0)
     {
       logger_("[BabeltraceParser] Exception occured while reading from babeltrace stdout.");
       processing_.store(false);
-- 
2.43.0


From 04ef356abbfcbd387d809e4d738c84af93a018ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:52 +0000
Subject: [PATCH 70/76] fix: a message that does not fit in the unix wire
 format is not sent as another message

The length of the name of an endpoint is sent as 16 bits: a request to an endpoint with a longer name arrived at the endpoint
whose name consists of the first bytes of it, if it exists. The length of the data is sent as 32 bits, with more data the
remainder would be taken for the next messages. Such a request fails now.
---
 scalopus_transport/src/protocol.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 92d073b..d2f8a2c 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -37,6 +37,7 @@
 #include <cerrno>
 #include <cstring>
 #include <iostream>
+#include <limits>
 
 namespace scalopus
 {
@@ -174,6 +175,12 @@ bool send(int fd, const Msg& outgoing)
   {
     return false;
   }
+  // A message whose lengths can't be expressed would be taken for another message, or be followed by things that aren't one.
+  if ((outgoing.endpoint.size() > std::numeric_limits<uint16_t>::max()) ||
+      (outgoing.data.size() > std::numeric_limits<uint32_t>::max()))
+  {
+    return false;
+  }
   uint16_t length_endpoint_name = static_cast<uint16_t>(outgoing.endpoint.size());
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
-- 
2.43.0


From a8ab9ae7b8b35a9096ac76c4f700590ee60a09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 71/76] fix: a trace event source that fails does not end the
 process

Sources and providers can be written by users, also in Python, where an error becomes an exception. In the worker of a
viewer's session, in the worker of the recorder and when the recorder writes its file on destruction nothing caught it: the
process was terminated, and the events of the other sources were lost. A provider without a source (None in Python) crashed
it. The other sources are not affected by it now.
---
 .../scalopus_catapult/catapult_recorder.h     |  6 ++
 scalopus_catapult/src/catapult_backend.cpp    | 13 ++++-
 scalopus_catapult/src/catapult_recorder.cpp   | 56 ++++++++++---------
 scalopus_catapult/src/trace_session.cpp       | 38 +++++++------
 scalopus_catapult/src/trace_session.h         |  6 ++
 5 files changed, 76 insertions(+), 43 deletions(-)

diff --git a/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h b/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h
index 6e5720e..eee9981 100644
--- a/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h
+++ b/scalopus_catapult/include/scalopus_catapult/catapult_recorder.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/trace_event_provider.h>
 #include <atomic>
+#include <functional>
 #include <mutex>
 #include <thread>
 
@@ -98,6 +99,11 @@ public:
 private:
   void loop();  //!< Function the thread executes.
 
+  /**
+   * @brief Call a function on every source. A source that throws an exception does not affect the others.
+   */
+  void forEachSource(const std::function<void(TraceEventSource& source)>& function);
+
   std::vector<TraceEventProvider::Ptr> providers_;
   std::vector<TraceEventSource::Ptr> sources_;
 
diff --git a/scalopus_catapult/src/catapult_backend.cpp b/scalopus_catapult/src/catapult_backend.cpp
index 90258c4..46855cf 100644
--- a/scalopus_catapult/src/catapult_backend.cpp
+++ b/scalopus_catapult/src/catapult_backend.cpp
@@ -173,7 +173,18 @@ void CatapultBackend::makeSession(ss::WebSocket* ws)
     // Add all the sources to the session
     for (auto& provider : providers_)
     {
-      session->addSource(provider->makeSource());
+      try
+      {
+        auto source = provider->makeSource();
+        if (source != nullptr)
+        {
+          session->addSource(std::move(source));
+        }
+      }
+      catch (const std::exception& e)
+      {
+        logger_("[CatapultBackend]: A provider could not make a source: " + std::string(e.what()));
+      }
     }
 
     // Everything is set up, messages can be processed from here.
diff --git a/scalopus_catapult/src/catapult_recorder.cpp b/scalopus_catapult/src/catapult_recorder.cpp
index 1d96adc..396ed9a 100644
--- a/scalopus_catapult/src/catapult_recorder.cpp
+++ b/scalopus_catapult/src/catapult_recorder.cpp
@@ -29,21 +29,33 @@
 */
 #include "scalopus_catapult/catapult_recorder.h"
 #include <fstream>
+#include <iostream>
 #include <sstream>
 
 namespace scalopus
 {
-void CatapultRecorder::loop()
+void CatapultRecorder::forEachSource(const std::function<void(TraceEventSource& source)>& function)
 {
-  while (running_)
+  std::lock_guard<std::mutex> lock{ source_mutex_ };
+  for (auto& source : sources_)
   {
+    try
     {
-      std::lock_guard<std::mutex> lock{ source_mutex_ };
-      for (auto& source : sources_)
-      {
-        source->work();
-      }
+      function(*source);
     }
+    catch (const std::exception& e)
+    {
+      // This does not affect the other sources.
+      std::cerr << "[CatapultRecorder] A source failed: " << e.what() << std::endl;
+    }
+  }
+}
+
+void CatapultRecorder::loop()
+{
+  while (running_)
+  {
+    forEachSource([](TraceEventSource& source) { source.work(); });
 
     // Finally, block a bit just to prevent spinning.
     // @TODO Think of a way to allow it to block here until there are messages or work needs to be done.
@@ -62,20 +74,12 @@ void CatapultRecorder::stop()
 
 void CatapultRecorder::startInterval()
 {
-  std::lock_guard<std::mutex> lock{ source_mutex_ };
-  for (auto& source : sources_)
-  {
-    source->startInterval();
-  }
+  forEachSource([](TraceEventSource& source) { source.startInterval(); });
 }
 
 void CatapultRecorder::stopInterval()
 {
-  std::lock_guard<std::mutex> lock{ source_mutex_ };
-  for (auto& source : sources_)
-  {
-    source->stopInterval();
-  }
+  forEachSource([](TraceEventSource& source) { source.stopInterval(); });
 }
 
 void CatapultRecorder::addProvider(TraceEventProvider::Ptr provider)
@@ -95,7 +99,11 @@ void CatapultRecorder::start()
   // Add all the sources to the session
   for (auto& provider : providers_)
   {
-    sources_.push_back(provider->makeSource());
+    auto source = provider->makeSource();
+    if (source != nullptr)
+    {
+      sources_.push_back(std::move(source));
+    }
   }
   running_ = true;
   worker_ = std::thread{ [&] { loop(); } };
@@ -113,14 +121,10 @@ std::string CatapultRecorder::collectEvents()
 
   // Then collect the events by calling finishInterval
   std::vector<json> events;
-  {
-    std::lock_guard<std::mutex> lock{ source_mutex_ };
-    for (auto& source : sources_)
-    {
-      auto results = source->finishInterval();
-      events.insert(events.end(), results.begin(), results.end());
-    }
-  }
+  forEachSource([&](TraceEventSource& source) {
+    auto results = source.finishInterval();
+    events.insert(events.end(), results.begin(), results.end());
+  });
 
   // And format it to json.
   std::stringstream ss;
diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index e407c92..25e0210 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -87,10 +87,7 @@ void TraceSession::loop()
     }
 
     // Perform work with the sources
-    for (auto& source : sources_)
-    {
-      source->work();
-    }
+    forEachSource([](TraceEventSource& source) { source.work(); });
 
     // Finally, block a bit just to prevent spinning.
     // @TODO Think of a way to allow it to block here until there are messages or work needs to be done.
@@ -98,6 +95,22 @@ void TraceSession::loop()
   };
 }
 
+void TraceSession::forEachSource(const std::function<void(TraceEventSource& source)>& function)
+{
+  for (auto& source : sources_)
+  {
+    try
+    {
+      function(*source);
+    }
+    catch (const std::exception& e)
+    {
+      // This does not affect the other sources.
+      logger_("[session " + identifier() + "] a source failed: " + e.what());
+    }
+  }
+}
+
 void TraceSession::processMessage(const std::string& incoming_msg)
 {
   logger_("[session " + identifier() + "] <- " + incoming_msg);
@@ -129,10 +142,7 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   {
     // Tracing was started by catapult.
     json res = { { "id", msg["id"] }, { "result", {} } };
-    for (auto& source : sources_)
-    {
-      source->startInterval();
-    }
+    forEachSource([](TraceEventSource& source) { source.startInterval(); });
     outgoing(res.dump());
     return;
   }
@@ -140,20 +150,16 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   if (msg["method"] == "Tracing.end")
   {
     // Tracing was stopped.
-    for (auto& source : sources_)
-    {
-      source->stopInterval();
-    }
+    forEachSource([](TraceEventSource& source) { source.stopInterval(); });
 
     json res = { { "id", msg["id"] }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
     outgoing(res.dump());
 
     std::vector<json> events;
-    for (auto& source : sources_)
-    {
-      auto results = source->finishInterval();
+    forEachSource([&](TraceEventSource& source) {
+      auto results = source.finishInterval();
       events.insert(events.end(), results.begin(), results.end());
-    }
+    });
     chunkedTransmit(events);
 
     res = { { "method", "Tracing.tracingComplete" }, { "params", std::vector<int>{} } };
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 56e362a..c36091c 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -121,6 +121,12 @@ private:
    */
   void loop();
 
+  /**
+   * @brief Call a function on every source. A source that throws an exception does not affect the others.
+   * @param function The function to call with each of the sources.
+   */
+  void forEachSource(const std::function<void(TraceEventSource& source)>& function);
+
   /**
    * @brief Function used to process invidual messages that came in from the client.
    * @param incoming_msg The message as it was received from the websocket.
-- 
2.43.0


From 5ee08cdb5b2be0364a01560c8f6912968832bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:11 +0000
Subject: [PATCH 72/76] fix: an endpoint factory that fails does not stop the
 manager

Endpoint factories are written by users, the one for factories in Python throws if what was returned is not an endpoint. The
exception left the manager with the endpoints and servers up to there, and when polling it terminated the process.
---
 scalopus_general/src/endpoint_manager_poll.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 4c6ceeb..1311462 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -130,7 +130,17 @@ void EndpointManagerPoll::updateEndpoints(const Transport::Ptr& transport, const
     if (it != endpoint_factories_.end())
     {
       // we support this endpoint, construct it and add it to the list.
-      auto new_endpoint = endpoint_factories_[supported_endpoint](transport);
+      Endpoint::Ptr new_endpoint;
+      try
+      {
+        new_endpoint = endpoint_factories_[supported_endpoint](transport);
+      }
+      catch (const std::exception& e)
+      {
+        // This may not affect the other endpoints and servers.
+        log("[scalopus] Factory for " + supported_endpoint + " failed: " + e.what());
+        continue;
+      }
       if (new_endpoint != nullptr)
       {
         endpoints[supported_endpoint] = new_endpoint;
-- 
2.43.0


From 951c02c0c394fe870f4647a3c8c2378e1dac3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:36 +0000
Subject: [PATCH 73/76] fix: a client that can not be accepted does not stop
 the service of the other clients

---
 scalopus_transport/src/transport_unix.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 68e1e94..a399af3 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -274,10 +274,13 @@ void TransportUnix::work()
       client = accept4(server_fd_, nullptr, nullptr, SOCK_CLOEXEC);
       if (client == -1)
       {
+        // This does not affect the other clients, the connection is accepted later if it is still there.
         logger_("[TransportUnix] Could not accept client.");
-        continue;
       }
-      connections_.insert(client);
+      else
+      {
+        connections_.insert(client);
+      }
     }
 
     // handle client readable:
-- 
2.43.0


From ad826afe88a0c981ba51296c1c2984bfac282598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:31 +0000
Subject: [PATCH 74/76] fix: hold the GIL when the response of a request is
 converted to Python

---
 scalopus_python/lib/scalopus_interface.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index 17e3685..dc9ffd9 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -126,8 +126,13 @@ PendingResponse::PendingResponse(Transport::PendingResponse resp) : resp_{ resp
 
 py::object PendingResponse::wait_for(double seconds)
 {
-  py::gil_scoped_release release;
-  if (resp_->wait_for(std::chrono::duration<double>(seconds)) == std::future_status::ready)
+  std::future_status status;
+  {
+    // Only release the GIL to wait, it is required to create the Python objects that are returned.
+    py::gil_scoped_release release;
+    status = resp_->wait_for(std::chrono::duration<double>(seconds));
+  }
+  if (status == std::future_status::ready)
   {
     return dataToPy(resp_->get());
   }
-- 
2.43.0


From ec5fa35e958034f4c945c32b23c4e26bd85ebaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:37 +0000
Subject: [PATCH 75/76] fix: allow an endpoint to release the last reference to
 its unix transport

---
 scalopus_transport/src/transport_unix.cpp | 20 ++++++++++++++++++--
 scalopus_transport/src/transport_unix.h   |  5 +++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index a399af3..110b162 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -488,9 +488,25 @@ std::vector<Destination::Ptr> TransportUnixFactory::discover()
   return res;
 }
 
+TransportUnix::Ptr TransportUnix::create()
+{
+  return Ptr(new TransportUnix(), [](TransportUnix* transport) {
+    if (transport->thread_.get_id() == std::this_thread::get_id())
+    {
+      // The worker thread itself released the last reference, for example from within an endpoint. It can't wait for
+      // itself, and still uses the transport until it is out of the endpoint.
+      std::thread([transport]() { delete transport; }).detach();
+    }
+    else
+    {
+      delete transport;
+    }
+  });
+}
+
 Transport::Ptr TransportUnixFactory::serve()
 {
-  auto t = std::make_shared<TransportUnix>();
+  auto t = TransportUnix::create();
   t->setLogger(logger_);
   if (t->serve())
   {
@@ -506,7 +522,7 @@ Transport::Ptr TransportUnixFactory::connect(const Destination::Ptr& destination
   {
     return nullptr;
   }
-  auto t = std::make_shared<TransportUnix>();
+  auto t = TransportUnix::create();
   t->setLogger(logger_);
   if (t->connect(dest->pid_))
   {
diff --git a/scalopus_transport/src/transport_unix.h b/scalopus_transport/src/transport_unix.h
index a997f78..2820a7d 100644
--- a/scalopus_transport/src/transport_unix.h
+++ b/scalopus_transport/src/transport_unix.h
@@ -56,6 +56,11 @@ public:
   TransportUnix();
   ~TransportUnix();
 
+  /**
+   * @brief Create an instance of which the last reference can be released by any thread, also by its own worker thread.
+   */
+  static Ptr create();
+
   /**
    * @brief Bind the transport as a server.
    * @return true on success, false on error.
-- 
2.43.0


From c744e2d92cff6c5ddee5ae4d46abb9e58cf771a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 76/76] fix: do not hold the GIL while threads that may need it
 are waited for

---
 scalopus_python/lib/scalopus_catapult.cpp  | 12 ++++--
 scalopus_python/lib/scalopus_general.cpp   | 25 +++++++-----
 scalopus_python/lib/scalopus_interface.cpp | 44 +++++++++++++++-------
 scalopus_python/lib/scalopus_interface.h   | 27 +++++++++++++
 scalopus_python/lib/scalopus_tracing.cpp   | 10 +++--
 5 files changed, 89 insertions(+), 29 deletions(-)

diff --git a/scalopus_python/lib/scalopus_catapult.cpp b/scalopus_python/lib/scalopus_catapult.cpp
index 0506e55..82516f1 100644
--- a/scalopus_python/lib/scalopus_catapult.cpp
+++ b/scalopus_python/lib/scalopus_catapult.cpp
@@ -30,6 +30,7 @@
 #include "scalopus_catapult.h"
 #include <pybind11/stl.h>
 #include <scalopus_catapult/catapult_server.h>
+#include "scalopus_interface.h"
 
 namespace scalopus
 {
@@ -39,13 +40,16 @@ void add_scalopus_catapult(py::module& m)
   py::module catapult = m.def_submodule("catapult", "The catapult components.");
 
   py::class_<CatapultServer, CatapultServer::Ptr> catapult_server(catapult, "CatapultServer");
-  catapult_server.def(py::init<>());
-  catapult_server.def("addProvider", &CatapultServer::addProvider, py::keep_alive<1, 2>());
+  catapult_server.def(py::init([]() { return destroyWithoutGil(std::make_shared<CatapultServer>()); }));
+  catapult_server.def("addProvider", &CatapultServer::addProvider, py::keep_alive<1, 2>(),
+                      py::call_guard<py::gil_scoped_release>());
   catapult_server.def("setSeasocksWarningLogger", &CatapultServer::setSeasocksWarningLogger);
   catapult_server.def("setLogger", [](CatapultServer& server, py::object fun) {
-    server.setLogger([fun](const std::string& str) {
+    const auto held = holdFunction(fun);
+    py::gil_scoped_release release;
+    server.setLogger([held](const std::string& str) {
       pybind11::gil_scoped_acquire gil;
-      fun(str);
+      (*held)(str);
     });
   });
 
diff --git a/scalopus_python/lib/scalopus_general.cpp b/scalopus_python/lib/scalopus_general.cpp
index 1f0a1bb..4f93166 100644
--- a/scalopus_python/lib/scalopus_general.cpp
+++ b/scalopus_python/lib/scalopus_general.cpp
@@ -34,16 +34,21 @@
 #include <scalopus_general/general.h>
 #include <scalopus_general/general_provider.h>
 #include <scalopus_interface/endpoint_manager.h>
+#include "scalopus_interface.h"
 
 namespace scalopus
 {
 namespace py = pybind11;
+
+// See the interface, these may wait for threads that wait for the GIL.
+using WithoutGil = py::call_guard<py::gil_scoped_release>;
+
 void add_scalopus_general(py::module& m)
 {
   py::module general = m.def_submodule("general", "The general components.");
   py::class_<EndpointIntrospect, EndpointIntrospect::Ptr, Endpoint> endpoint_introspect(general, "EndpointIntrospect");
   endpoint_introspect.def(py::init<>());
-  endpoint_introspect.def("supported", &EndpointIntrospect::supported);
+  endpoint_introspect.def("supported", &EndpointIntrospect::supported, WithoutGil());
   endpoint_introspect.def_property_readonly_static("name",
                                                    [](py::object /* self */) { return EndpointIntrospect::name; });
   endpoint_introspect.def("factory", &EndpointIntrospect::factory);
@@ -64,7 +69,7 @@ void add_scalopus_general(py::module& m)
                                                                                             "EndpointProcessInfo");
   endpoint_process_info.def(py::init<>());
   endpoint_process_info.def("setProcessName", &EndpointProcessInfo::setProcessName);
-  endpoint_process_info.def("processInfo", &EndpointProcessInfo::processInfo);
+  endpoint_process_info.def("processInfo", &EndpointProcessInfo::processInfo, WithoutGil());
   endpoint_process_info.def_property_readonly_static("name",
                                                      [](py::object /* self */) { return EndpointProcessInfo::name; });
   endpoint_process_info.def_static("factory", &EndpointProcessInfo::factory);
@@ -73,17 +78,19 @@ void add_scalopus_general(py::module& m)
 
   py::class_<EndpointManagerPoll, EndpointManagerPoll::Ptr, EndpointManager> endpoint_manager_poll(
       general, "EndpointManagerPoll");
-  endpoint_manager_poll.def(py::init<TransportFactory::Ptr>());
-  endpoint_manager_poll.def("startPolling", &EndpointManagerPoll::startPolling);
-  endpoint_manager_poll.def("stopPolling", &EndpointManagerPoll::stopPolling);
-  endpoint_manager_poll.def("manage", &EndpointManagerPoll::manage);
+  endpoint_manager_poll.def(py::init([](TransportFactory::Ptr factory) {
+    return destroyWithoutGil(std::make_shared<EndpointManagerPoll>(factory));
+  }));
+  endpoint_manager_poll.def("startPolling", &EndpointManagerPoll::startPolling, WithoutGil());
+  endpoint_manager_poll.def("stopPolling", &EndpointManagerPoll::stopPolling, WithoutGil());
+  endpoint_manager_poll.def("manage", &EndpointManagerPoll::manage, WithoutGil());
   endpoint_manager_poll.def("setLogger", &EndpointManagerPoll::setLogger);
-  endpoint_manager_poll.def("endpoints", &EndpointManagerPoll::endpoints);
+  endpoint_manager_poll.def("endpoints", &EndpointManagerPoll::endpoints, WithoutGil());
 
   // General provider.
   py::class_<GeneralProvider, GeneralProvider::Ptr, TraceEventProvider> general_provider(general, "GeneralProvider");
   general_provider.def(py::init<EndpointManager::Ptr>());
-  general_provider.def("getMapping", &GeneralProvider::getMapping);
-  general_provider.def("updateMapping", &GeneralProvider::updateMapping);
+  general_provider.def("getMapping", &GeneralProvider::getMapping, WithoutGil());
+  general_provider.def("updateMapping", &GeneralProvider::updateMapping, WithoutGil());
 }
 }  // namespace scalopus
diff --git a/scalopus_python/lib/scalopus_interface.cpp b/scalopus_python/lib/scalopus_interface.cpp
index dc9ffd9..0e317dd 100644
--- a/scalopus_python/lib/scalopus_interface.cpp
+++ b/scalopus_python/lib/scalopus_interface.cpp
@@ -120,6 +120,14 @@ void PyEndpoint::setTransport(Transport* transport)
   PYBIND11_OVERLOAD(void, Endpoint, setTransport, transport);
 }
 
+std::shared_ptr<py::object> holdFunction(const py::object& fun)
+{
+  return std::shared_ptr<py::object>(new py::object{ fun }, [](py::object* ptr) {
+    pybind11::gil_scoped_acquire gil;
+    delete ptr;
+  });
+}
+
 PendingResponse::PendingResponse(Transport::PendingResponse resp) : resp_{ resp }
 {
 }
@@ -172,6 +180,10 @@ std::vector<json> PyTraceEventSource::finishInterval()
   return {};
 }
 
+// Threads of the C++ side may wait for the GIL while they hold a mutex or are expected to respond, so it is released by
+// all calls that may wait for these threads.
+using WithoutGil = py::call_guard<py::gil_scoped_release>;
+
 // Maybe convert to bytes using https://pybind11.readthedocs.io/en/master/advanced/cast/stl.html ?
 void add_scalopus_interface(py::module& m)
 {
@@ -184,12 +196,14 @@ void add_scalopus_interface(py::module& m)
   pending_response.def("wait_for", &PendingResponse::wait_for);
 
   py::class_<Transport, Transport::Ptr> transport_interface(interface, "Transport");
-  transport_interface.def("addEndpoint", &Transport::addEndpoint, py::keep_alive<1, 2>());
+  transport_interface.def("addEndpoint", &Transport::addEndpoint, py::keep_alive<1, 2>(), WithoutGil());
   transport_interface.def("isConnected", &Transport::isConnected);
   transport_interface.def("getAddress", &Transport::getAddress);
-  transport_interface.def("broadcast", &Transport::broadcast);
+  transport_interface.def("broadcast", &Transport::broadcast, WithoutGil());
   transport_interface.def("request", [](Transport& transport, const std::string& name, const py::object& outgoing) {
-    return std::make_shared<PendingResponse>(transport.request(name, pyToData(outgoing)));
+    const auto data = pyToData(outgoing);
+    py::gil_scoped_release release;
+    return std::make_shared<PendingResponse>(transport.request(name, data));
   });
   //  transport_interface.def("setLogger", &Transport::setLogger);  // causes deadlocks when python shuts down.
 
@@ -203,22 +217,24 @@ void add_scalopus_interface(py::module& m)
   py::class_<TraceEventProvider, PyTraceEventProvider, TraceEventProvider::Ptr> trace_event_provider(
       interface, "TraceEventProvider");
   trace_event_provider.def(py::init<>());
-  trace_event_provider.def("makeSource", &TraceEventProvider::makeSource);
+  trace_event_provider.def("makeSource", &TraceEventProvider::makeSource, WithoutGil());
 
   py::class_<TraceEventSource, PyTraceEventSource, TraceEventSource::Ptr> trace_event_source(interface,
                                                                                              "TraceEventSource");
   trace_event_source.def(py::init_alias<>());
-  trace_event_source.def("startInterval", &TraceEventSource::startInterval);
-  trace_event_source.def("stopInterval", &TraceEventSource::stopInterval);
+  trace_event_source.def("startInterval", &TraceEventSource::startInterval, WithoutGil());
+  trace_event_source.def("stopInterval", &TraceEventSource::stopInterval, WithoutGil());
   //  trace_event_source.def("work", &TraceEventSource::work);
-  trace_event_source.def("finishInterval", &TraceEventSource::finishInterval);  // implicit conversion from json =)
+  trace_event_source.def("finishInterval", &TraceEventSource::finishInterval, WithoutGil());  // implicit conversion from json =)
 
   py::class_<EndpointManager, EndpointManager::Ptr> endpoint_manager(interface, "EndpointManager");
-  endpoint_manager.def("endpoints", &EndpointManager::endpoints, py::return_value_policy::copy);
+  endpoint_manager.def("endpoints", &EndpointManager::endpoints, py::return_value_policy::copy, WithoutGil());
   endpoint_manager.def("addEndpointFactory", [](EndpointManager& manager, std::string name, py::object fun) {
-    manager.addEndpointFactory(name, [fun](const Transport::Ptr& transport) {
+    const auto held = holdFunction(fun);
+    py::gil_scoped_release release;
+    manager.addEndpointFactory(name, [held](const Transport::Ptr& transport) {
       pybind11::gil_scoped_acquire gil;
-      py::object result_py = fun(transport);
+      py::object result_py = (*held)(transport);
       if (py::isinstance<py::none>(result_py))
       {
         // python side returned none... provider went weak.
@@ -234,9 +250,11 @@ void add_scalopus_interface(py::module& m)
   });
 
   py::class_<TransportFactory, TransportFactory::Ptr> transport_factory(interface, "TransportFactory");
-  transport_factory.def("discover", &TransportFactory::discover);
-  transport_factory.def("serve", &TransportFactory::serve);
-  transport_factory.def("connect", &TransportFactory::connect, py::return_value_policy::copy);
+  transport_factory.def("discover", &TransportFactory::discover, WithoutGil());
+  transport_factory.def("serve", [](TransportFactory& factory) { return destroyWithoutGil(factory.serve()); });
+  transport_factory.def("connect", [](TransportFactory& factory, const Destination::Ptr& destination) {
+    return destroyWithoutGil(factory.connect(destination));
+  });
   //  transport_factory.def("setLogger", &TransportFactory::setLogger);  // causes deadlocks when python shuts down.
 }
 
diff --git a/scalopus_python/lib/scalopus_interface.h b/scalopus_python/lib/scalopus_interface.h
index e516051..89ee54b 100644
--- a/scalopus_python/lib/scalopus_interface.h
+++ b/scalopus_python/lib/scalopus_interface.h
@@ -99,5 +99,32 @@ public:
   Transport::PendingResponse resp_;
 };
 
+/**
+ * @brief Make a pointer for Python to hold, which does not hold the GIL while the object is destroyed. Required for objects
+ *        with threads that may run Python code, as their destructors wait for these threads.
+ */
+template <typename T>
+std::shared_ptr<T> destroyWithoutGil(std::shared_ptr<T> ptr)
+{
+  T* raw = ptr.get();
+  if (raw == nullptr)
+  {
+    return nullptr;
+  }
+  return std::shared_ptr<T>(raw, [ptr](T*) mutable {
+    if (PyGILState_Check())
+    {
+      py::gil_scoped_release release;
+      ptr.reset();
+    }
+    ptr.reset();
+  });
+}
+
+/**
+ * @brief Hold a Python function such that it can be called and destroyed by any thread, whether it has the GIL or not.
+ */
+std::shared_ptr<py::object> holdFunction(const py::object& fun);
+
 void add_scalopus_interface(py::module&);
 }  // namespace scalopus
diff --git a/scalopus_python/lib/scalopus_tracing.cpp b/scalopus_python/lib/scalopus_tracing.cpp
index 3f229fb..650e181 100644
--- a/scalopus_python/lib/scalopus_tracing.cpp
+++ b/scalopus_python/lib/scalopus_tracing.cpp
@@ -52,6 +52,10 @@ static std::size_t uniqueTraceId()
 namespace scalopus
 {
 namespace py = pybind11;
+
+// See the interface, these may wait for threads that wait for the GIL.
+using WithoutGil = py::call_guard<py::gil_scoped_release>;
+
 void add_scalopus_tracing(py::module& m)
 {
   py::module tracing = m.def_submodule("tracing", "The tracing specific components.");
@@ -66,7 +70,7 @@ void add_scalopus_tracing(py::module& m)
   py::class_<EndpointTraceMapping, EndpointTraceMapping::Ptr, Endpoint> endpoint_trace_mapping(tracing,
                                                                                                "EndpointTraceMapping");
   endpoint_trace_mapping.def(py::init<>());
-  endpoint_trace_mapping.def("mapping", &EndpointTraceMapping::mapping);
+  endpoint_trace_mapping.def("mapping", &EndpointTraceMapping::mapping, WithoutGil());
   endpoint_trace_mapping.def_static("factory", &EndpointTraceMapping::factory);
   endpoint_trace_mapping.def_property_readonly_static("name",
                                                       [](py::object /* self */) { return EndpointTraceMapping::name; });
@@ -77,8 +81,8 @@ void add_scalopus_tracing(py::module& m)
   py::class_<EndpointTraceConfigurator, EndpointTraceConfigurator::Ptr, Endpoint> endpoint_tc(
       tracing, "EndpointTraceConfigurator");
   endpoint_tc.def(py::init<>());
-  endpoint_tc.def("setTraceState", &EndpointTraceConfigurator::setTraceState);
-  endpoint_tc.def("getTraceState", &EndpointTraceConfigurator::getTraceState);
+  endpoint_tc.def("setTraceState", &EndpointTraceConfigurator::setTraceState, WithoutGil());
+  endpoint_tc.def("getTraceState", &EndpointTraceConfigurator::getTraceState, WithoutGil());
   endpoint_tc.def_property_readonly_static("name",
                                            [](py::object /* self */) { return EndpointTraceConfigurator::name; });
   endpoint_tc.def_static("factory", &EndpointTraceConfigurator::factory);
-- 
2.43.0

