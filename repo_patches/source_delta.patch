From cc9cc1486e3fbaf4834a57fc76f760d3baf08f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 01/29] fix: guard the subscriber callback against concurrent
 delivery and replacement

---
 include/lamppost/bus/Subscriber.h |  2 ++
 src/lamppost/bus/Subscriber.cpp   | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/bus/Subscriber.h b/include/lamppost/bus/Subscriber.h
index b074913..7d86121 100644
--- a/include/lamppost/bus/Subscriber.h
+++ b/include/lamppost/bus/Subscriber.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -18,6 +19,7 @@ namespace lp
     class Subscriber : public BusParticipant
     {
     private:
+      std::mutex mCallbackMutex;
       MessageCallbackType mCallback;
 
     public:
diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index ec00ad2..824c1b7 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -25,19 +25,27 @@ namespace lp
 
     void Subscriber::Receive(messages::Message message)
     {
-      if(mCallback != nullptr)
+      MessageCallbackType callback;
       {
-        mCallback(message);
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(message);
       }
     }
 
     void Subscriber::Reset()
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = nullptr;
     }
 
     void Subscriber::SetDatagramCallback(DatagramCallbackType callback)
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = [callback](lp::messages::Message message)
         {
           messages::Datagram datagram = message.GetDatagram();
@@ -49,6 +57,7 @@ namespace lp
 
     void Subscriber::SetMessageCallback(MessageCallbackType callback)
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = callback;
     }
 
-- 
2.43.0


From f577352eed0537d1905b58977c16111bac3ddd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 02/29] fix: guard the publisher function against concurrent
 publishing and reset

---
 include/lamppost/bus/Publisher.h | 2 ++
 src/lamppost/bus/Publisher.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/lamppost/bus/Publisher.h b/include/lamppost/bus/Publisher.h
index 10346c4..8c5f8d7 100644
--- a/include/lamppost/bus/Publisher.h
+++ b/include/lamppost/bus/Publisher.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -19,6 +20,7 @@ namespace lp
     class Publisher : public BusParticipant
     {
     private:
+      std::mutex mPublishingMutex;
       DatagramCallbackType mPublishingFunction;
 
     public:
diff --git a/src/lamppost/bus/Publisher.cpp b/src/lamppost/bus/Publisher.cpp
index 27b2d2c..d6e4ba5 100644
--- a/src/lamppost/bus/Publisher.cpp
+++ b/src/lamppost/bus/Publisher.cpp
@@ -19,6 +19,7 @@ namespace lp
 
     void Publisher::Publish(messages::Datagram datagram)
     {
+      std::lock_guard<std::mutex> lock(mPublishingMutex);
       if(mPublishingFunction != nullptr)
       {
         mPublishingFunction(datagram);
@@ -27,6 +28,7 @@ namespace lp
 
     void Publisher::Reset()
     {
+      std::lock_guard<std::mutex> lock(mPublishingMutex);
       mPublishingFunction = nullptr;
     }
   } // namespace bus
-- 
2.43.0


From 051827b2cc69e5362d258a91449a06eda2a276d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 03/29] fix: cut off buses and their publishers safely while
 others publish

---
 include/lamppost/bus/Bus.h |  2 ++
 src/lamppost/bus/Bus.cpp   | 31 +++++++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f89078d..6d3c44b 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -44,6 +44,7 @@ namespace lp
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
       std::mutex mNotifierMutex;
+      std::mutex mPublishMessageMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
@@ -60,6 +61,7 @@ namespace lp
 
       void Publish(std::string topic, lp::messages::Datagram datagram);
       void Distribute(messages::Message message);
+      void Disconnect();
 
       template<class ClassType, class ... Args>
       std::shared_ptr<ClassType> CreateManagedResource(std::mutex& mutex, std::list<std::shared_ptr<ClassType>>& container, Args ... args)
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a2ad53f..3be8d24 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -45,7 +45,16 @@ namespace lp
 
     Bus::~Bus()
     {
-      mPublishMessageFunction = nullptr;
+      Disconnect();
+
+      {
+        // Publishers can outlive their bus but must not call into it anymore.
+        std::lock_guard<std::mutex> lock(mPublishersMutex);
+        for(const std::shared_ptr<Publisher>& publisher : mPublishers)
+        {
+          publisher->Reset();
+        }
+      }
 
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
@@ -72,7 +81,13 @@ namespace lp
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
       }
 
-      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, mPublishMessageFunction);
+      std::function<void(messages::Message)> publishMessageFunction;
+      {
+        std::lock_guard<std::mutex> publishLock(mPublishMessageMutex);
+        publishMessageFunction = mPublishMessageFunction;
+      }
+
+      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, publishMessageFunction);
       mChildBusses[name] = childBus;
 
       childBus->Start();
@@ -98,6 +113,7 @@ namespace lp
 
     void Bus::Publish(messages::Message message)
     {
+      std::lock_guard<std::mutex> lock(mPublishMessageMutex);
       if(mPublishMessageFunction != nullptr)
       {
         mPublishMessageFunction(message);
@@ -203,10 +219,17 @@ namespace lp
       }
     }
 
-    void Bus::Detach()
+    void Bus::Disconnect()
     {
+      // Publishing holds this mutex: nothing is on its way through this bus once it got cut off.
+      std::lock_guard<std::mutex> lock(mPublishMessageMutex);
       mPublishMessageFunction = nullptr;
-      
+    }
+
+    void Bus::Detach()
+    {
+      Disconnect();
+
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
-- 
2.43.0


From ab088aea894c151d860b49c2b8ed17080c70e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 04/29] fix: guard the open requests of an action consumer

---
 include/lamppost/bus/ActionConsumer.h |  1 +
 src/lamppost/bus/ActionConsumer.cpp   | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..462c7b4 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -28,6 +28,7 @@ namespace lp
       std::shared_ptr<Subscriber> mResponseSubscriber;
       std::shared_ptr<Publisher> mRequestPublisher;
 
+      std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
     public:
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..89a781e 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -30,7 +30,10 @@ namespace lp
 
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = callback;
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
@@ -72,12 +75,21 @@ namespace lp
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback;
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        auto openRequest = mOpenRequests.find(invocationId);
+        if(openRequest != mOpenRequests.end())
+        {
+          callback = openRequest->second;
+          mOpenRequests.erase(openRequest);
+        }
       }
 
+      if(callback != nullptr)
+      {
+        callback(response);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From 19ce168fc68c17f708df4359fad35bef42068189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 05/29] fix: keep the state of a synchronous request alive for
 late responses

---
 include/lamppost/bus/ActionConsumer.h |  2 +
 src/lamppost/bus/ActionConsumer.cpp   | 61 ++++++++++++++++++---------
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 462c7b4..e83ca6f 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -31,6 +31,8 @@ namespace lp
       std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
+      std::string SendRequest(messages::Datagram request, std::function<void(messages::Datagram)> callback);
+
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
       ~ActionConsumer() = default;
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 89a781e..fbac605 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -28,6 +28,13 @@ namespace lp
         throw exceptions::ArgumentNullException("callback", "Callback may not be null.");
       }
 
+      SendRequest(request, callback);
+    }
+
+    std::string ActionConsumer::SendRequest(
+      messages::Datagram request,
+      std::function<void(messages::Datagram)> callback)
+    {
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
       {
@@ -40,37 +47,51 @@ namespace lp
       wrappedRequest["request"] = request;
 
       mRequestPublisher->Publish(wrappedRequest);
+
+      return uuidString;
     }
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
+      // Shared with the callback, which can still be running when this call has timed out.
+      struct PendingResponse
+      {
+        std::mutex mutex;
+        std::condition_variable cv;
+        bool received = false;
+        messages::Datagram response;
+      };
 
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      std::shared_ptr<PendingResponse> pending = std::make_shared<PendingResponse>();
 
-      RequestAsync(
+      std::string invocationId = SendRequest(
         request,
-        [&](messages::Datagram internalResponse)
+        [pending](messages::Datagram response)
         {
-          if(waiting)
-          {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
-          }
+          std::lock_guard<std::mutex> lock(pending->mutex);
+          pending->response = response;
+          pending->received = true;
+          pending->cv.notify_one();
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      std::unique_lock<std::mutex> pendingLock(pending->mutex);
+      bool received = pending->cv.wait_for(
+        pendingLock,
+        std::chrono::milliseconds(timeoutMs),
+        [&pending]
+        {
+          return pending->received;
+        });
+
+      if(!received)
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests.erase(invocationId);
+
+        return messages::Datagram();
+      }
 
-      return response;
+      return pending->response;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
-- 
2.43.0


From 5b03896fd8b44c867f3c592756604e72a236f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 06/29] fix: ignore action messages without a usable invocation
 id

---
 include/lamppost/bus/Bus.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 6d3c44b..43afd76 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -138,10 +138,12 @@ namespace lp
         requestSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            // TODO: Check for presence of invocationId field here.
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            std::string invocationId = datagram.Get<std::string>("invocationId");
 
-            instance->ProcessRequest(invocationId, datagram);
+            if(!invocationId.empty())
+            {
+              instance->ProcessRequest(invocationId, datagram);
+            }
           });
 
         return instance;
@@ -164,10 +166,14 @@ namespace lp
         responseSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
-            messages::Datagram response = datagram["response"];
+            std::string invocationId = datagram.Get<std::string>("invocationId");
 
-            instance->ProcessResponse(invocationId, response);
+            if(!invocationId.empty())
+            {
+              messages::Datagram response = datagram["response"];
+
+              instance->ProcessResponse(invocationId, response);
+            }
           });
 
         return instance;
-- 
2.43.0


From 569d2664c2bb8cc22f06664306879d0f1f4ad6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 07/29] fix: keep undistributed messages when the bus is
 stopped

---
 src/lamppost/bus/Bus.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 3be8d24..ef9ba97 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -177,9 +177,17 @@ namespace lp
           mQueuedMessages.clear();
         }
 
-        for(const messages::Message& message : queuedMessages)
+        while(mShouldRun && !queuedMessages.empty())
         {
-          Distribute(message);
+          Distribute(queuedMessages.front());
+          queuedMessages.pop_front();
+        }
+
+        if(!queuedMessages.empty())
+        {
+          // Stopped in between: keep what was not distributed yet for the next run.
+          std::lock_guard<std::mutex> lock(mQueueMutex);
+          mQueuedMessages.insert(mQueuedMessages.begin(), queuedMessages.begin(), queuedMessages.end());
         }
       }
     }
@@ -196,7 +204,8 @@ namespace lp
 
     void Bus::Distribute(lp::messages::Message message)
     {
-      if(mShouldRun)
+      // The root bus only gets here while running, and then delivers to its whole tree.
+      if(mIsRootBus || mShouldRun)
       {
         {
           std::lock_guard<std::mutex> lock(mSubscribersMutex);
-- 
2.43.0


From 7f1af1b08cffd816c7c6aceabe2464d62f16f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 08/29] fix: honour a stop request that precedes the run of the
 bus

---
 include/lamppost/bus/Bus.h |  1 +
 src/lamppost/bus/Bus.cpp   | 15 +++++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 43afd76..1787992 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -47,6 +47,7 @@ namespace lp
       std::mutex mPublishMessageMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
+      std::atomic<bool> mStopRequested;
       bool mIsRootBus;
 
       std::mutex mPublishersMutex;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index ef9ba97..8db0c9b 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -8,6 +8,7 @@ namespace lp
     Bus::Bus(std::string name)
       : Identifiable(name),
         mShouldRun(false),
+        mStopRequested(false),
         mIsRootBus(true)
     {
       if(name.empty())
@@ -30,6 +31,7 @@ namespace lp
       : Identifiable(name),
         mPublishMessageFunction(publishMessageFunction),
         mShouldRun(false),
+        mStopRequested(false),
         mIsRootBus(false)
     {
       if(name.empty())
@@ -154,17 +156,17 @@ namespace lp
     {
       std::unique_lock<std::mutex> notifierLock(mNotifierMutex);
 
-      while(mShouldRun)
+      while(mShouldRun && !mStopRequested)
       {
         mNotifier.wait_for(notifierLock,
                            std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
                            [this]
                            {
                              std::lock_guard<std::mutex> lock(mQueueMutex);
-                             return !mQueuedMessages.empty() || !mShouldRun;
+                             return !mQueuedMessages.empty() || mStopRequested;
                            });
 
-        if(!mShouldRun)
+        if(mStopRequested)
         {
           break;
         }
@@ -177,7 +179,7 @@ namespace lp
           mQueuedMessages.clear();
         }
 
-        while(mShouldRun && !queuedMessages.empty())
+        while(!mStopRequested && !queuedMessages.empty())
         {
           Distribute(queuedMessages.front());
           queuedMessages.pop_front();
@@ -190,10 +192,15 @@ namespace lp
           mQueuedMessages.insert(mQueuedMessages.begin(), queuedMessages.begin(), queuedMessages.end());
         }
       }
+
+      // Each stop request ends one run, also if it came before that run has begun.
+      mShouldRun = false;
+      mStopRequested = false;
     }
 
     void Bus::Stop()
     {
+      mStopRequested = true;
       mShouldRun = false;
     }
 
-- 
2.43.0


From 8e0ba232c9161fdb2530204f25692ba2dd040abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 09/29] fix: report the stopped state after shutdown

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..3b6fc01 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -140,7 +140,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
-- 
2.43.0


From b22779464b32e19145ac5e6a60e2de71ab078a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 10/29] fix: make stop requests safe at any time, including
 from signal handlers

---
 src/lamppost/LampPost.cpp | 4 ++--
 src/main.cpp              | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 3b6fc01..67881c2 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -42,7 +42,7 @@ namespace lp
     mPluginManager.UnloadTemplates();
 
     mLog.Info("Disabling root bus", 1);
-    mRootBus = nullptr;
+    mPluginManager.SetBus(nullptr);
   }
 
   void LampPost::InstantiatePlugin(std::string identifier, PluginConfiguration pluginConfiguration)
@@ -145,7 +145,7 @@ namespace lp
 
   void LampPost::Stop()
   {
-    mLog.Info("Received stop signal.");
+    // Note: This is called from signal handlers and may therefore neither allocate memory nor take locks.
     mRootBus->Stop();
   }
 
diff --git a/src/main.cpp b/src/main.cpp
index 69b645e..84b4ea5 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -20,9 +20,6 @@ void HandleShutdownSignal()
 // Main
 int main(int argc, char** argv)
 {
-  std::cout << "Hooking up system calls." << std::endl;
-  HookSystemSignals();
-
   std::cout << "Starting LampPost." << std::endl;
   lp::LampPostConfiguration configuration;
 
@@ -35,6 +32,10 @@ int main(int argc, char** argv)
 
   lamppost = std::make_shared<lp::LampPost>(configuration);
 
+  // The signal handlers stop the instance, so it has to exist by now.
+  std::cout << "Hooking up system calls." << std::endl;
+  HookSystemSignals();
+
   try
   {
     lamppost->Start();
-- 
2.43.0


From f93d98a623ebf89c8d67e7d7ad9732e9e4ea3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 11/29] fix: cope with plugin instances that could not be
 created

---
 src/lamppost/plugin/PluginTemplate.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..b14484f 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -31,18 +31,24 @@ namespace lp
     }
 
     configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
-    configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
 
-    mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
+    // The identifier stays taken if the creation fails, as does the name of the child bus.
+    std::shared_ptr<PluginInstance>& instance = mInstances[configuration.mIdentifier];
+
+    configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
+    instance = mConfiguration.mInstantiateFunction(configuration);
 
-    return mInstances[configuration.mIdentifier];
+    return instance;
   }
 
   void PluginTemplate::Stop()
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Stop();
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Stop();
+      }
     }
   }
 
@@ -50,7 +56,10 @@ namespace lp
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Deinitialize();
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Deinitialize();
+      }
     }
 
     mInstances.clear();
-- 
2.43.0


From 1b7512f851dbcfa1fd9e1b6cffba751d44c3a98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 12/29] fix: close the library of a plugin template that gets
 replaced

---
 src/lamppost/plugin/PluginManager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..1fa443f 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -125,6 +125,15 @@ namespace lp
               pluginTemplateDescription.mLibraryHandle = handle;
               pluginTemplateDescription.mTemplate = pluginTemplate;
 
+              std::map<std::string, PluginTemplateDescription>::iterator existingTemplate = mTemplates.find(info->mIdentifier);
+              if(existingTemplate != mTemplates.end())
+              {
+                mLog.Warning("Replacing template of the same identifier", 3);
+
+                existingTemplate->second.mTemplate->Unload();
+                ClosePluginLibrary(existingTemplate->second.mLibraryHandle);
+              }
+
               mTemplates[info->mIdentifier] = pluginTemplateDescription;
 
               loadedSuccessfully = true;
-- 
2.43.0


From 0728cc3e97c1cd9fe54c288a1903344758536879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 13/29] fix: skip plugin libraries that do not provide any info

---
 src/lamppost/plugin/PluginManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 1fa443f..6284c24 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(info != nullptr && !info->mIdentifier.empty())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
-- 
2.43.0


From 4da802713678738e85148f3fa2b57c0eaed156c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 14/29] fix: honour the directory filter when listing
 directories

---
 src/lamppost/Filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..2e01d95 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -106,7 +106,7 @@ namespace lp
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
         if(filterIncludesDirectories && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
-- 
2.43.0


From d7ae5f352e17c1a1b7ec8d8cddc2b33c170e0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 15/29] fix: report no executable path when it cannot be
 determined

---
 src/lamppost/Filesystem.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 2e01d95..3db23e3 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -134,13 +134,12 @@ namespace lp
     }
 #elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
     std::string procExePath = "/proc/" + std::to_string(getpid()) + "/exe";
-    int bytes = std::min(static_cast<int>(readlink(procExePath.c_str(), static_cast<char*>(buffer), bufferLength)), bufferLength - 1);
+    int bytes = static_cast<int>(readlink(procExePath.c_str(), static_cast<char*>(buffer), bufferLength));
 
-    if(bytes >= 0) {
-      buffer[bytes] = '\0';
+    // A completely filled buffer holds a path that got cut off.
+    if(bytes >= 0 && bytes < bufferLength) {
+      path = std::string(static_cast<char*>(buffer), bytes);
     }
-
-    path = static_cast<char*>(buffer);
 #endif
 
     return path;
-- 
2.43.0


From c3d581539ed607c4b6705d7df24e4db9853047d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 16/29] fix: accept any kind of datagram on the sysinfo topic

---
 src/plugins/sysinfo/SysInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 403cd77..d140f3e 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -21,7 +21,9 @@ namespace lp
         "/sysinfo",
         [this](messages::Datagram datagram)
         {
-          std::string message = datagram.Get<std::string>();
+          std::stringstream sts;
+          sts << datagram;
+          std::string message = datagram.Get<std::string>("", sts.str());
           mLog.Info("Got it: " + message);
         });
 
-- 
2.43.0


From 5f5ccb42571a03c7bc76da14426240db4251ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 17/29] fix: reject malformed bytes when deserialising messages

---
 include/lamppost/messages/Message.h   |  1 +
 src/lamppost/messages/Message.cpp     | 17 +++++++++++++++++
 src/lamppost/messages/RawDatagram.cpp | 15 +++++++++++++++
 src/plugins/link/Link.cpp             | 11 +++++++++--
 4 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/messages/Message.h b/include/lamppost/messages/Message.h
index c1d89a9..37a0ff6 100644
--- a/include/lamppost/messages/Message.h
+++ b/include/lamppost/messages/Message.h
@@ -9,6 +9,7 @@
 #include <flatbuffers/util.h>
 
 #include <lamppost/data/RawBytes.h>
+#include <lamppost/exceptions/OperationFailedException.h>
 #include <lamppost/messages/Datagram.h>
 #include <lamppost/schemas/FBMessage_generated.h>
 
diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..4e4a6e6 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -43,8 +43,25 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      // The bytes may come from anywhere, so nothing in them can be relied on before they have been verified.
+      const flatbuffers::uoffset_t maximumDepth = 2048;
+      flatbuffers::Verifier verifier(
+        static_cast<const uint8_t*>(bytesToDeserialize->GetContent()), bytesToDeserialize->GetSize(), maximumDepth);
+
+      if(bytesToDeserialize->GetSize() == 0 || !schemas::VerifyFBMessageBuffer(verifier))
+      {
+        throw exceptions::OperationFailedException("Bytes do not represent a message.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
 
+      if(deserializedMessage->sender() == nullptr ||
+         deserializedMessage->topic() == nullptr ||
+         deserializedMessage->datagram() == nullptr)
+      {
+        throw exceptions::OperationFailedException("Serialized message is incomplete.");
+      }
+
       return messages::Message(
         deserializedMessage->sender()->str(),
         deserializedMessage->topic()->str(),
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..b7b7164 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -356,6 +356,11 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
+              if(structure->string_content() == nullptr)
+              {
+                throw exceptions::InvalidOperationException("Serialized value has no content.");
+              }
+
               rawDatagram->SetValue<std::string>(structure->string_content()->str());
               break;
 
@@ -375,6 +380,11 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          if(structure->list_content() == nullptr)
+          {
+            throw exceptions::InvalidOperationException("Serialized list has no content.");
+          }
+
           unsigned int length = structure->list_content()->size();
 
           for(unsigned int i = 0; i < length; ++i)
@@ -385,6 +395,11 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          if(structure->dictionary_keys() == nullptr || structure->dictionary_contents() == nullptr)
+          {
+            throw exceptions::InvalidOperationException("Serialized dictionary has no content.");
+          }
+
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
           for(unsigned int i = 0; i < length; ++i)
diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..68ce061 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -233,8 +233,15 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+            successfullyReceivedMessage = true;
+          }
+          catch(exceptions::Exception& exception)
+          {
+            mLog.Warning("Ignoring malformed message: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From 1d0519d3268193a197d787f633b4842ad792420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 18/29] fix: preserve empty lists and dictionaries when
 deserialising

---
 src/lamppost/messages/RawDatagram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index b7b7164..efcac4d 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -385,6 +385,8 @@ namespace lp
             throw exceptions::InvalidOperationException("Serialized list has no content.");
           }
 
+          rawDatagram->mType = RawDatagramType::List;
+
           unsigned int length = structure->list_content()->size();
 
           for(unsigned int i = 0; i < length; ++i)
@@ -400,6 +402,8 @@ namespace lp
             throw exceptions::InvalidOperationException("Serialized dictionary has no content.");
           }
 
+          rawDatagram->mType = RawDatagramType::Dictionary;
+
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
           for(unsigned int i = 0; i < length; ++i)
-- 
2.43.0


From 0f6e1347e5621c80da98377e73779ee8a015ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 19/29] fix: preserve empty arrays and objects when parsing
 JSON

---
 src/lamppost/messages/RawDatagram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index efcac4d..fa4c9da 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -466,6 +466,8 @@ namespace lp
 
         case json_type_array:
         {
+          root->mType = RawDatagramType::List;
+
           json_object* jarray = jobj, *jvalue;
 
           for(size_t i = 0; i < json_object_array_length(jarray); i++)
@@ -480,6 +482,8 @@ namespace lp
 
         case json_type_object:
         {
+          root->mType = RawDatagramType::Dictionary;
+
           // Note(fairlight1337): The following line is excluded from tidy checks as the utilized macro expands to
           // (according to tidy) unclean code which cannot be changed at this time.
           json_object_object_foreach(jobj, key, val) // NOLINT
-- 
2.43.0


From 04d66b8050366d6f7362884683560bcea215278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 20/29] fix: wait for plugin workers that ended by themselves

---
 src/lamppost/plugin/PluginInstance.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index fc59556..c06ff4a 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -42,14 +42,12 @@ namespace lp
 
   void PluginInstance::Stop()
   {
-    if(mShouldRun)
-    {
-      mShouldRun = false;
+    // The worker may have cleared the flag itself, and has to be waited for all the same.
+    mShouldRun = false;
 
-      if(mWorkerThread.joinable())
-      {
-        mWorkerThread.join();
-      }
+    if(mWorkerThread.joinable())
+    {
+      mWorkerThread.join();
     }
   }
 
-- 
2.43.0


From f4a105f9f85c01e4170dccb1592bb91f172ca030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 21/29] fix: skip configuration entries of the wrong kind

---
 src/lamppost/LampPost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 67881c2..0e4391b 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -72,7 +72,7 @@ namespace lp
 
     messages::Datagram config = messages::Datagram::DeserializeFromJson(sts.str());
 
-    if(config.KeyExists("plugins"))
+    if(config.KeyExists("plugins") && config["plugins"].GetType() == messages::RawDatagramType::List)
     {
       int pluginsCount = config["plugins"].GetCount();
 
@@ -85,7 +85,7 @@ namespace lp
       {
         if(config["plugins"][i].KeyExists("type"))
         {
-          std::string pluginType = config["plugins"][i]["type"];
+          std::string pluginType = config["plugins"][i].Get<std::string>("type");
 
           PluginConfiguration pluginConfiguration;
           pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
-- 
2.43.0


From 20012c6637872f77a8afe069eb8a509b0340f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 22/29] fix: choose plugin identifiers that are free across
 templates

---
 include/lamppost/plugin/PluginTemplate.h |  1 +
 src/lamppost/plugin/PluginTemplate.cpp   | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/lamppost/plugin/PluginTemplate.h b/include/lamppost/plugin/PluginTemplate.h
index 96efb6a..0c27277 100644
--- a/include/lamppost/plugin/PluginTemplate.h
+++ b/include/lamppost/plugin/PluginTemplate.h
@@ -23,6 +23,7 @@ namespace lp
     std::map<std::string, std::shared_ptr<PluginInstance>> mInstances;
 
     bool IndexedInstanceExists(int index);
+    bool BusExists(std::shared_ptr<bus::Bus> parentBus, std::string name);
 
     void Stop();
     void Deinitialize();
diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index b14484f..7d3f676 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -21,11 +21,26 @@ namespace lp
     return mInstances.find(identifier) != mInstances.end();
   }
 
+  bool PluginTemplate::BusExists(std::shared_ptr<bus::Bus> parentBus, std::string name)
+  {
+    // Instances of other templates can have taken the name: "Link" number 10 and "Link1" number 0.
+    try
+    {
+      parentBus->GetChildBus(name);
+    }
+    catch(exceptions::KeyNotFoundException&)
+    {
+      return false;
+    }
+
+    return true;
+  }
+
   std::shared_ptr<PluginInstance> PluginTemplate::Instantiate(PluginConfiguration configuration, std::shared_ptr<bus::Bus> parentBus)
   {
     int index = 0;
 
-    while(IndexedInstanceExists(index))
+    while(IndexedInstanceExists(index) || BusExists(parentBus, mConfiguration.mIdentifier + std::to_string(index)))
     {
       index++;
     }
-- 
2.43.0


From 8fe79b9ae68c1463fddd81b1b2ddad4e1331d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:41 +0000
Subject: [PATCH 23/29] fix: ignore shutdown signals once the program is about
 to exit

A signal that arrived after main had returned made the handler use the
instance while or after it was destroyed.
---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 84b4ea5..9334aac 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,4 +1,5 @@
 // System includes
+#include <csignal>
 #include <cstdlib>
 #include <iostream>
 
@@ -47,6 +48,10 @@ int main(int argc, char** argv)
     throw;
   }
 
+  // Nothing is left to be stopped, and the instance does not outlive the end of the program.
+  std::signal(SIGINT, SIG_IGN);
+  std::signal(SIGTERM, SIG_IGN);
+
   std::cout << "Exiting gracefully." << std::endl;
 
   return EXIT_SUCCESS;
-- 
2.43.0


From 52805571eff1e61f8963b7cdd6042b92a95db424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 24/29] fix: write log lines at once, also from plugin
 libraries

Each plugin library is linked with its own copy of the core and so of the
mutex that guards the output. Lines of different libraries could mix.
---
 src/lamppost/log/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/log/Log.cpp b/src/lamppost/log/Log.cpp
index 95ca399..e707f3f 100644
--- a/src/lamppost/log/Log.cpp
+++ b/src/lamppost/log/Log.cpp
@@ -11,7 +11,8 @@ namespace lp
     {
       std::lock_guard<std::mutex> lock(sSynchronizationMutex);
 
-      std::cout << line << std::endl;
+      // Written at once: plugin libraries carry their own copy of the mutex, but share the output.
+      std::cout << line + "\n" << std::flush;
     }
 
     void Log::Write(std::string prefix, std::string message, int indentationLevel, int /*color*/)
-- 
2.43.0


From 5f8966b7e6bfc14115b942a91de13836f66fc221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:29 +0000
Subject: [PATCH 25/29] fix: terminate the ZMQ context also when a signal
 interrupts it

---
 src/plugins/link/Link.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 68ce061..b0028c3 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -323,7 +323,10 @@ namespace lp
         zmq_ctx_shutdown(mZmqContext);
 
         mLog.Info("Terminating ZMQ context.");
-        zmq_ctx_term(mZmqContext);
+        while(zmq_ctx_term(mZmqContext) != 0 && zmq_errno() == EINTR)
+        {
+          // Signals can interrupt this, but the threads of the context may not outlive the plugin library.
+        }
 
         mZmqContext = nullptr;
       }
-- 
2.43.0


From 26ee6bb69a19505e0f7430b185dd0b420e9c5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:29 +0000
Subject: [PATCH 26/29] fix: limit the time a link waits for peers that do not
 read when it shuts down

---
 src/plugins/link/Link.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index b0028c3..5006726 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -105,6 +105,12 @@ namespace lp
       {
         mLog.Error("Failed to create ZMQ socket: " + std::string(zmq_strerror(zmq_errno())));
       }
+      else
+      {
+        // Peers that have stopped reading may hold up the shutdown for this long, but not forever.
+        const int lingerMs = 1000;
+        zmq_setsockopt(socket, ZMQ_LINGER, &lingerMs, sizeof(lingerMs));
+      }
 
       return socket;
     }
-- 
2.43.0


From aa8ef19bbe9d64331a1a1f243b5d68a84cb42c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:00 +0000
Subject: [PATCH 27/29] fix: release what parsing JSON allocates

---
 src/lamppost/messages/RawDatagram.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index fa4c9da..88169f1 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -424,18 +424,17 @@ namespace lp
     {
       std::shared_ptr<RawDatagram> rawDatagram = std::make_shared<RawDatagram>();
 
-      struct json_tokener* tok;
-      struct json_object* jobj;
       enum json_tokener_error error;
 
-      tok = json_tokener_new_ex(1000);
-
-      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length());
+      std::unique_ptr<json_tokener, void (*)(json_tokener*)> tok(json_tokener_new_ex(1000), &json_tokener_free);
+      std::unique_ptr<json_object, int (*)(json_object*)> jobj(
+        json_tokener_parse_ex(tok.get(), json.c_str(), json.length()),
+        &json_object_put);
       error = tok->err;
 
       if(error == json_tokener_success)
       {
-        ParseJsonObject(jobj, rawDatagram);
+        ParseJsonObject(jobj.get(), rawDatagram);
       }
 
       return rawDatagram;
-- 
2.43.0


From a1e12814dc196e254f4b1cfeeefc42e87a9efe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:46 +0000
Subject: [PATCH 28/29] fix: forget action requests that could not be sent

---
 include/lamppost/bus/ActionConsumer.h |  1 +
 src/lamppost/bus/ActionConsumer.cpp   | 23 ++++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index e83ca6f..44266c7 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -32,6 +32,7 @@ namespace lp
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
       std::string SendRequest(messages::Datagram request, std::function<void(messages::Datagram)> callback);
+      void PublishRequest(std::string uuidString, messages::Datagram request);
 
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index fbac605..ec75722 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -37,18 +37,35 @@ namespace lp
     {
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
+
+      try
       {
+        {
+          std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+          mOpenRequests[uuidString] = callback;
+        }
+
+        PublishRequest(uuidString, request);
+      }
+      catch(...)
+      {
+        // Nobody can respond to a request that did not get sent.
         std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
-        mOpenRequests[uuidString] = callback;
+        mOpenRequests.erase(uuidString);
+
+        throw;
       }
 
+      return uuidString;
+    }
+
+    void ActionConsumer::PublishRequest(std::string uuidString, messages::Datagram request)
+    {
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
       wrappedRequest["request"] = request;
 
       mRequestPublisher->Publish(wrappedRequest);
-
-      return uuidString;
     }
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
-- 
2.43.0


From 6096266d05a969e435fc030fb132ac08c779952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:46 +0000
Subject: [PATCH 29/29] fix: close directories also when memory runs out while
 listing them

---
 include/lamppost/Filesystem.h | 1 +
 src/lamppost/Filesystem.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/Filesystem.h b/include/lamppost/Filesystem.h
index 4e31cc9..c87c33a 100644
--- a/include/lamppost/Filesystem.h
+++ b/include/lamppost/Filesystem.h
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <iostream>
 #include <list>
+#include <memory>
 #include <string>
 
 #include <string.h>
diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 3db23e3..f02fb51 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -97,6 +97,9 @@ namespace lp
 
     d = opendir(path.c_str());
     if(d != nullptr) {
+      // Closed also when memory runs out in between.
+      std::unique_ptr<DIR, int (*)(DIR*)> closer(d, &closedir);
+
       while((dir = readdir(d)) != nullptr) {
         std::string name = static_cast<char*>(dir->d_name);
         std::string fullPath = CombinePaths(path, name);
@@ -111,8 +114,6 @@ namespace lp
           contents.push_back(name);
         }
       }
-
-      closedir(d);
     }
 #endif
 
-- 
2.43.0

