From 7aba72fb094e84c98669cd52247db70af71f5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 01/34] fix: report the stopped run state once LampPost::Start
 has returned

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..3b6fc01 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -140,7 +140,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
-- 
2.43.0


From 958a78e01348e9489d643537a400d2291ff55f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 02/34] fix: honour the directory filter when listing directory
 contents

---
 src/lamppost/Filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..2e01d95 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -106,7 +106,7 @@ namespace lp
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
         if(filterIncludesDirectories && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
-- 
2.43.0


From 13352cbe7e2dc3220f8ef3fcfaf53a579692e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 03/34] fix: do not read an unset buffer when the executable
 path is unavailable

---
 src/lamppost/Filesystem.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 2e01d95..785d6b2 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -138,9 +138,8 @@ namespace lp
 
     if(bytes >= 0) {
       buffer[bytes] = '\0';
+      path = static_cast<char*>(buffer);
     }
-
-    path = static_cast<char*>(buffer);
 #endif
 
     return path;
-- 
2.43.0


From a11a0020a7136e0ebb63a50b7316e59b32062bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 04/34] fix: release the JSON object and tokener after parsing

---
 src/lamppost/messages/RawDatagram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..03b8db5 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -419,6 +419,9 @@ namespace lp
         ParseJsonObject(jobj, rawDatagram);
       }
 
+      json_object_put(jobj);
+      json_tokener_free(tok);
+
       return rawDatagram;
     }
 
-- 
2.43.0


From 2dcbbfad896f0a8ff6bf8f39b2e5e98f438ed9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 05/34] fix: keep a datagram unchanged when an index lookup
 fails

---
 src/lamppost/messages/RawDatagram.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 03b8db5..71670bf 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -129,6 +129,11 @@ namespace lp
 
     std::shared_ptr<RawDatagram>& RawDatagram::Get(unsigned int index)
     {
+      if(index >= mList.size())
+      {
+        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
+      }
+
       if(mType != RawDatagramType::List)
       {
         mType = RawDatagramType::List;
@@ -136,11 +141,6 @@ namespace lp
         mValue = nullptr;
       }
 
-      if(index >= mList.size())
-      {
-        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
-      }
-
       std::list<std::shared_ptr<RawDatagram>>::iterator it = mList.begin();
       std::advance(it, index);
 
-- 
2.43.0


From b11f4b04974e04e72ded1042162ae9de3883fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 06/34] fix: RawBytes owns its buffer and must not be copied
 memberwise

---
 include/lamppost/data/RawBytes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lamppost/data/RawBytes.h b/include/lamppost/data/RawBytes.h
index 9e6f7cb..e1e10e5 100644
--- a/include/lamppost/data/RawBytes.h
+++ b/include/lamppost/data/RawBytes.h
@@ -20,6 +20,8 @@ namespace lp
     public:
       RawBytes();
       RawBytes(void* content, std::size_t size);
+      RawBytes(const RawBytes&) = delete;
+      RawBytes& operator=(const RawBytes&) = delete;
       ~RawBytes();
 
       const void* GetContent();
-- 
2.43.0


From 367933e2cc80d2ca665b7d7f61982dbb2eb119fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 07/34] fix: compare all of a configuration and never past the
 shorter list

---
 include/lamppost/LampPostConfiguration.h             | 2 +-
 include/lamppost/plugin/PluginManagerConfiguration.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/LampPostConfiguration.h b/include/lamppost/LampPostConfiguration.h
index 969413e..1e45802 100644
--- a/include/lamppost/LampPostConfiguration.h
+++ b/include/lamppost/LampPostConfiguration.h
@@ -25,7 +25,7 @@ namespace lp
 
     bool operator==(const LampPostConfiguration& other) const
     {
-      return mPluginManagerConfiguration == other.mPluginManagerConfiguration;
+      return mPluginManagerConfiguration == other.mPluginManagerConfiguration && mConfigurationFiles == other.mConfigurationFiles;
     }
 
     bool operator!=(const LampPostConfiguration& other) const
diff --git a/include/lamppost/plugin/PluginManagerConfiguration.h b/include/lamppost/plugin/PluginManagerConfiguration.h
index f884a12..2eb7e46 100644
--- a/include/lamppost/plugin/PluginManagerConfiguration.h
+++ b/include/lamppost/plugin/PluginManagerConfiguration.h
@@ -30,7 +30,7 @@ namespace lp
     {
       return
         mBus == rhs.mBus &&
-        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin());
+        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin(), rhs.mTemplateSearchPaths.end());
     }
 
     bool operator!=(const lp::PluginManagerConfiguration& rhs) const
-- 
2.43.0


From 0c8606e501c1a8371df58f74e5218d9f46681b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 08/34] fix: join the worker thread even if the plugin stopped
 itself

---
 src/lamppost/plugin/PluginInstance.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index fc59556..13879b3 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -42,14 +42,11 @@ namespace lp
 
   void PluginInstance::Stop()
   {
-    if(mShouldRun)
-    {
-      mShouldRun = false;
+    mShouldRun = false;
 
-      if(mWorkerThread.joinable())
-      {
-        mWorkerThread.join();
-      }
+    if(mWorkerThread.joinable())
+    {
+      mWorkerThread.join();
     }
   }
 
-- 
2.43.0


From b3d158368dc00cf5a7cbcbd6938ec2b79bf69bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 09/34] fix: skip instances a plugin failed to create when
 unloading its template

---
 src/lamppost/plugin/PluginTemplate.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..84bc878 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -42,7 +42,10 @@ namespace lp
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Stop();
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Stop();
+      }
     }
   }
 
@@ -50,7 +53,10 @@ namespace lp
   {
     for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
     {
-      instancePair.second->Deinitialize();
+      if(instancePair.second != nullptr)
+      {
+        instancePair.second->Deinitialize();
+      }
     }
 
     mInstances.clear();
-- 
2.43.0


From 9013d57ace167891ebeaf878cab46b929c1a04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 10/34] fix: reject plugin libraries without info or with an
 identifier already in use

---
 src/lamppost/plugin/PluginManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..f50ca8f 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(info != nullptr && !info->mIdentifier.empty() && mTemplates.find(info->mIdentifier) == mTemplates.end())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
@@ -140,7 +140,7 @@ namespace lp
           }
           else
           {
-            mLog.Error("Identifier empty", 3);
+            mLog.Error("Identifier missing, empty or already in use", 3);
 
             ClosePluginLibrary(handle);
           }
-- 
2.43.0


From 575be1124b59502237112e450513f255c78c55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 11/34] fix: keep the signal path free of logging and of null
 dereferences

---
 src/lamppost/LampPost.cpp | 6 ++++--
 src/main.cpp              | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 3b6fc01..45a862d 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -145,8 +145,10 @@ namespace lp
 
   void LampPost::Stop()
   {
-    mLog.Info("Received stop signal.");
-    mRootBus->Stop();
+    if(mRootBus != nullptr)
+    {
+      mRootBus->Stop();
+    }
   }
 
   bool LampPost::IsStopped()
diff --git a/src/main.cpp b/src/main.cpp
index 69b645e..9d5d631 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -13,7 +13,10 @@ std::shared_ptr<lp::LampPost> lamppost = nullptr;
 
 void HandleShutdownSignal()
 {
-  lamppost->Stop();
+  if(lamppost != nullptr)
+  {
+    lamppost->Stop();
+  }
 }
 
 
-- 
2.43.0


From bf22371a462c9d91a3ea46b44bd00244efcdac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 12/34] fix: wait for queued messages under the mutex that
 guards the queue

---
 include/lamppost/bus/Bus.h |  1 -
 src/lamppost/bus/Bus.cpp   | 30 ++++++++++++++----------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f89078d..23f8fef 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -43,7 +43,6 @@ namespace lp
       std::mutex mQueueMutex;
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
-      std::mutex mNotifierMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a2ad53f..b46eed8 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -136,26 +136,24 @@ namespace lp
 
     void Bus::Run()
     {
-      std::unique_lock<std::mutex> notifierLock(mNotifierMutex);
-
       while(mShouldRun)
       {
-        mNotifier.wait_for(notifierLock,
-                           std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
-                           [this]
-                           {
-                             std::lock_guard<std::mutex> lock(mQueueMutex);
-                             return !mQueuedMessages.empty() || !mShouldRun;
-                           });
-
-        if(!mShouldRun)
-        {
-          break;
-        }
-
         std::deque<messages::Message> queuedMessages;
         {
-          std::lock_guard<std::mutex> lock(mQueueMutex);
+          std::unique_lock<std::mutex> lock(mQueueMutex);
+
+          mNotifier.wait_for(lock,
+                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
+                             [this]
+                             {
+                               return !mQueuedMessages.empty() || !mShouldRun;
+                             });
+
+          if(!mShouldRun)
+          {
+            break;
+          }
+
           queuedMessages = mQueuedMessages;
 
           mQueuedMessages.clear();
-- 
2.43.0


From 964bf2c668daa79c7ee221e32a10eeab9beac613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 13/34] fix: synchronise detaching a bus with publishing on it

---
 include/lamppost/bus/Bus.h |  1 +
 src/lamppost/bus/Bus.cpp   | 30 ++++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 23f8fef..5c20ce2 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -44,6 +44,7 @@ namespace lp
       std::deque<messages::Message> mQueuedMessages;
       std::condition_variable mNotifier;
       std::function<void(messages::Message)> mPublishMessageFunction;
+      std::mutex mPublishMessageFunctionMutex;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
 
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index b46eed8..7cb9ac3 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -45,7 +45,10 @@ namespace lp
 
     Bus::~Bus()
     {
-      mPublishMessageFunction = nullptr;
+      {
+        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+        mPublishMessageFunction = nullptr;
+      }
 
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
@@ -72,7 +75,13 @@ namespace lp
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
       }
 
-      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, mPublishMessageFunction);
+      std::function<void(messages::Message)> publishMessageFunction;
+      {
+        std::lock_guard<std::mutex> publishLock(mPublishMessageFunctionMutex);
+        publishMessageFunction = mPublishMessageFunction;
+      }
+
+      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, publishMessageFunction);
       mChildBusses[name] = childBus;
 
       childBus->Start();
@@ -98,9 +107,15 @@ namespace lp
 
     void Bus::Publish(messages::Message message)
     {
-      if(mPublishMessageFunction != nullptr)
+      std::function<void(messages::Message)> publishMessageFunction;
       {
-        mPublishMessageFunction(message);
+        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+        publishMessageFunction = mPublishMessageFunction;
+      }
+
+      if(publishMessageFunction != nullptr)
+      {
+        publishMessageFunction(message);
       }
     }
 
@@ -203,8 +218,11 @@ namespace lp
 
     void Bus::Detach()
     {
-      mPublishMessageFunction = nullptr;
-      
+      {
+        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+        mPublishMessageFunction = nullptr;
+      }
+
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
-- 
2.43.0


From af21f5714326641d61e1293b81aa59478a432a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 14/34] fix: synchronise resetting a publisher with publishing
 through it

---
 include/lamppost/bus/Publisher.h  |  2 ++
 include/lamppost/bus/Subscriber.h |  2 ++
 src/lamppost/bus/Publisher.cpp    | 11 +++++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/bus/Publisher.h b/include/lamppost/bus/Publisher.h
index 10346c4..e0d93d3 100644
--- a/include/lamppost/bus/Publisher.h
+++ b/include/lamppost/bus/Publisher.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -20,6 +21,7 @@ namespace lp
     {
     private:
       DatagramCallbackType mPublishingFunction;
+      std::mutex mPublishingFunctionMutex;
 
     public:
       Publisher(std::string topic, DatagramCallbackType publishingFunction);
diff --git a/include/lamppost/bus/Subscriber.h b/include/lamppost/bus/Subscriber.h
index b074913..4d908ae 100644
--- a/include/lamppost/bus/Subscriber.h
+++ b/include/lamppost/bus/Subscriber.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -19,6 +20,7 @@ namespace lp
     {
     private:
       MessageCallbackType mCallback;
+      std::mutex mCallbackMutex;
 
     public:
       Subscriber(std::string topic);
diff --git a/src/lamppost/bus/Publisher.cpp b/src/lamppost/bus/Publisher.cpp
index 27b2d2c..1c0ab20 100644
--- a/src/lamppost/bus/Publisher.cpp
+++ b/src/lamppost/bus/Publisher.cpp
@@ -19,14 +19,21 @@ namespace lp
 
     void Publisher::Publish(messages::Datagram datagram)
     {
-      if(mPublishingFunction != nullptr)
+      DatagramCallbackType publishingFunction;
       {
-        mPublishingFunction(datagram);
+        std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);
+        publishingFunction = mPublishingFunction;
+      }
+
+      if(publishingFunction != nullptr)
+      {
+        publishingFunction(datagram);
       }
     }
 
     void Publisher::Reset()
     {
+      std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);
       mPublishingFunction = nullptr;
     }
   } // namespace bus
-- 
2.43.0


From b20f011421be89d73aaf7e49093fddb76febfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 15/34] fix: synchronise replacing a subscriber callback with
 invoking it

---
 src/lamppost/bus/Subscriber.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index ec00ad2..824c1b7 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -25,19 +25,27 @@ namespace lp
 
     void Subscriber::Receive(messages::Message message)
     {
-      if(mCallback != nullptr)
+      MessageCallbackType callback;
       {
-        mCallback(message);
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(message);
       }
     }
 
     void Subscriber::Reset()
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = nullptr;
     }
 
     void Subscriber::SetDatagramCallback(DatagramCallbackType callback)
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = [callback](lp::messages::Message message)
         {
           messages::Datagram datagram = message.GetDatagram();
@@ -49,6 +57,7 @@ namespace lp
 
     void Subscriber::SetMessageCallback(MessageCallbackType callback)
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = callback;
     }
 
-- 
2.43.0


From dc5a2a23572a5ce275b0b58d6be940bb1ebabf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 16/34] fix: do not invoke callbacks that were never set or
 have been reset

---
 include/lamppost/bus/ActionProvider.h |  3 +++
 src/lamppost/bus/ActionProvider.cpp   | 12 +++++++++++-
 src/lamppost/bus/Subscriber.cpp       | 12 ++++++++----
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/lamppost/bus/ActionProvider.h b/include/lamppost/bus/ActionProvider.h
index dbc01b8..ac2956a 100644
--- a/include/lamppost/bus/ActionProvider.h
+++ b/include/lamppost/bus/ActionProvider.h
@@ -4,6 +4,8 @@
 
 #include <functional>
 #include <iostream>
+#include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -24,6 +26,7 @@ namespace lp
       std::shared_ptr<Publisher> mResponsePublisher;
 
       std::function<void(std::shared_ptr<ActionProvider>, std::string, lp::messages::Datagram)> mCallback;
+      std::mutex mCallbackMutex;
 
     public:
       ActionProvider(std::shared_ptr<Subscriber> requestSubscriber, std::shared_ptr<Publisher> responsePublisher, std::string topic, std::function<void(std::shared_ptr<ActionProvider>, std::string, messages::Datagram)> callback);
diff --git a/src/lamppost/bus/ActionProvider.cpp b/src/lamppost/bus/ActionProvider.cpp
index 507f26f..7c74338 100644
--- a/src/lamppost/bus/ActionProvider.cpp
+++ b/src/lamppost/bus/ActionProvider.cpp
@@ -19,6 +19,7 @@ namespace lp
 
     void ActionProvider::Reset()
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = nullptr;
     }
 
@@ -33,7 +34,16 @@ namespace lp
 
     void ActionProvider::ProcessRequest(std::string invocationId, messages::Datagram request)
     {
-      mCallback(this->shared_from_this(), std::move(invocationId), request);
+      std::function<void(std::shared_ptr<ActionProvider>, std::string, messages::Datagram)> callback;
+      {
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(this->shared_from_this(), std::move(invocationId), request);
+      }
     }
   } // namespace bus
 } // namespace lp
diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index 824c1b7..6bc12ef 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -17,8 +17,10 @@ namespace lp
                   {
                     messages::Datagram datagram = message.GetDatagram();
 
-                    // TODO(fairlight1337): Check value here.
-                    callback(datagram);
+                    if(callback != nullptr)
+                    {
+                      callback(datagram);
+                    }
                   })
     {
     }
@@ -50,8 +52,10 @@ namespace lp
         {
           messages::Datagram datagram = message.GetDatagram();
 
-          // TODO(fairlight1337): Check value here.
-          callback(datagram);
+          if(callback != nullptr)
+          {
+            callback(datagram);
+          }
         };
     }
 
-- 
2.43.0


From 3610ac2cd9263e0f54eb3c01ff18d1e5df83bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 17/34] fix: synchronise the open requests of an action
 consumer

---
 include/lamppost/bus/ActionConsumer.h |  1 +
 src/lamppost/bus/ActionConsumer.cpp   | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..0f77c6f 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -29,6 +29,7 @@ namespace lp
       std::shared_ptr<Publisher> mRequestPublisher;
 
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
+      std::mutex mOpenRequestsMutex;
 
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..5e51491 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -30,7 +30,10 @@ namespace lp
 
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = callback;
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
@@ -72,12 +75,20 @@ namespace lp
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback;
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+        {
+          callback = mOpenRequests[invocationId];
+          mOpenRequests.erase(invocationId);
+        }
       }
 
+      if(callback != nullptr)
+      {
+        callback(response);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From d71841c13e18bdd0fc51b9194361b60602fc1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 18/34] fix: keep the state of a blocking request alive until
 its response arrives

---
 src/lamppost/bus/ActionConsumer.cpp | 40 +++++++++++++++--------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 5e51491..f71526c 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -44,33 +44,35 @@ namespace lp
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
+      // Note: The response may arrive after this function returned, hence the state is owned by the callback as well.
+      struct PendingRequest
+      {
+        std::mutex mMutex;
+        std::condition_variable mNotifier;
+        bool mWaiting = true;
+        messages::Datagram mResponse;
+      };
 
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      std::shared_ptr<PendingRequest> pending = std::make_shared<PendingRequest>();
 
       RequestAsync(
         request,
-        [&](messages::Datagram internalResponse)
+        [pending](messages::Datagram internalResponse)
         {
-          if(waiting)
-          {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
-          }
+          std::lock_guard<std::mutex> lock(pending->mMutex);
+          pending->mResponse = internalResponse;
+          pending->mWaiting = false;
+          pending->mNotifier.notify_one();
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      std::unique_lock<std::mutex> lock(pending->mMutex);
+      pending->mNotifier.wait_for(lock, std::chrono::milliseconds(timeoutMs),
+                                  [pending]
+                                  {
+                                    return !pending->mWaiting;
+                                  });
 
-      return response;
+      return pending->mResponse;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
-- 
2.43.0


From da8f814e0bc9f5fcfd4e6d41a92c5a4d3cc9fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 19/34] fix: ignore action messages that carry no invocation id

---
 include/lamppost/bus/Bus.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 5c20ce2..bf007c1 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -136,10 +136,12 @@ namespace lp
         requestSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            // TODO: Check for presence of invocationId field here.
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            std::string invocationId = datagram.Get<std::string>("invocationId");
 
-            instance->ProcessRequest(invocationId, datagram);
+            if(!invocationId.empty())
+            {
+              instance->ProcessRequest(invocationId, datagram);
+            }
           });
 
         return instance;
@@ -162,7 +164,7 @@ namespace lp
         responseSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            std::string invocationId = datagram.Get<std::string>("invocationId");
             messages::Datagram response = datagram["response"];
 
             instance->ProcessResponse(invocationId, response);
-- 
2.43.0


From 33fc6a60f7ccf2c7547afecff5fc826ae468ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 20/34] fix: reset publishers and subscribers that outlive
 their bus

---
 src/lamppost/bus/Bus.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 7cb9ac3..293e8d3 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -60,6 +60,23 @@ namespace lp
 
         mChildBusses.clear();
       }
+
+      // Note: Participants may outlive the bus, but must not reach into it anymore.
+      {
+        std::lock_guard<std::mutex> lock(mPublishersMutex);
+        for(const std::shared_ptr<Publisher>& publisher : mPublishers)
+        {
+          publisher->Reset();
+        }
+      }
+
+      {
+        std::lock_guard<std::mutex> lock(mSubscribersMutex);
+        for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
+        {
+          subscriber->Reset();
+        }
+      }
     }
 
     std::shared_ptr<Bus> Bus::CreateChildBus(std::string name)
-- 
2.43.0


From 415afb44205493c0ed273ba1f7ff9a3e4ba8fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 21/34] fix: do not let a non-string datagram on /sysinfo end
 the process

---
 src/plugins/sysinfo/SysInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 403cd77..ef3c5c6 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -21,7 +21,7 @@ namespace lp
         "/sysinfo",
         [this](messages::Datagram datagram)
         {
-          std::string message = datagram.Get<std::string>();
+          std::string message = datagram.Get<std::string>("");
           mLog.Info("Got it: " + message);
         });
 
-- 
2.43.0


From 8467961f9590bf931d79ac13d0cecca804235631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 22/34] fix: drop the action callback of the sysinfo plugin
 when it is deinitialized

---
 src/plugins/sysinfo/SysInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index ef3c5c6..30f0812 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -65,6 +65,9 @@ namespace lp
 
       DeletePublisher(mSysInfoPublisher);
       mSysInfoPublisher = nullptr;
+
+      mSysInfoActionProvider->Reset();
+      mSysInfoActionProvider = nullptr;
     }
   } // namespace plugins
 } // namespace lp
-- 
2.43.0


From 76334f13f62925e715dd386428d0cf02e4311a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 23/34] fix: verify received bytes before reading a message
 from them

---
 include/lamppost/messages/Message.h   |  3 +++
 src/lamppost/messages/Message.cpp     | 10 ++++++++++
 src/lamppost/messages/RawDatagram.cpp | 11 ++++++++---
 src/plugins/link/Link.cpp             | 11 +++++++++--
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/lamppost/messages/Message.h b/include/lamppost/messages/Message.h
index c1d89a9..2ef8138 100644
--- a/include/lamppost/messages/Message.h
+++ b/include/lamppost/messages/Message.h
@@ -20,6 +20,9 @@ namespace lp
     class Message
     {
     private:
+      static const unsigned int MAXIMUM_DEPTH = 1024;
+      static const unsigned int MAXIMUM_TABLES = 10000000;
+
       std::string mSender;
       std::string mTopic;
       Datagram mDatagram;
diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..f1b3cd6 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -43,7 +43,17 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      flatbuffers::Verifier verifier(static_cast<const uint8_t*>(bytesToDeserialize->GetContent()), bytesToDeserialize->GetSize(), MAXIMUM_DEPTH, MAXIMUM_TABLES);
+      if(!schemas::VerifyFBMessageBuffer(verifier))
+      {
+        throw exceptions::InvalidOperationException("Bytes do not contain a message.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
+      if(deserializedMessage->sender() == nullptr || deserializedMessage->topic() == nullptr || deserializedMessage->datagram() == nullptr)
+      {
+        throw exceptions::InvalidOperationException("Message is incomplete.");
+      }
 
       return messages::Message(
         deserializedMessage->sender()->str(),
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 71670bf..3e8c507 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -356,7 +356,7 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
-              rawDatagram->SetValue<std::string>(structure->string_content()->str());
+              rawDatagram->SetValue<std::string>(structure->string_content() != nullptr ? structure->string_content()->str() : std::string());
               break;
 
             case schemas::ValueType::ValueType_Double:
@@ -375,7 +375,7 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
-          unsigned int length = structure->list_content()->size();
+          unsigned int length = structure->list_content() != nullptr ? structure->list_content()->size() : 0;
 
           for(unsigned int i = 0; i < length; ++i)
           {
@@ -385,7 +385,12 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
-          unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          unsigned int length = 0;
+
+          if(structure->dictionary_keys() != nullptr && structure->dictionary_contents() != nullptr)
+          {
+            length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          }
 
           for(unsigned int i = 0; i < length; ++i)
           {
diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..e9043d0 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -233,8 +233,15 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+            successfullyReceivedMessage = true;
+          }
+          catch(exceptions::InvalidOperationException& exception)
+          {
+            mLog.Warning("Dropping malformed message: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From a1bf875ecbee9fe096a5bbdba88174d1f922b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 24/34] fix: let the JSON tokener see the end of a number or
 literal

---
 src/lamppost/messages/RawDatagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 3e8c507..a7c6d30 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -416,7 +416,7 @@ namespace lp
 
       tok = json_tokener_new_ex(1000);
 
-      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length());
+      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
       error = tok->err;
 
       if(error == json_tokener_success)
-- 
2.43.0


From beb0166080e2d28161ce2270cf0f5ac9e700b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 25/34] fix: keep empty lists and dictionaries what they are
 when reading them

---
 src/lamppost/messages/RawDatagram.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index a7c6d30..e2370ca 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -375,6 +375,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          *rawDatagram = RawDatagram(RawDatagramType::List);
+
           unsigned int length = structure->list_content() != nullptr ? structure->list_content()->size() : 0;
 
           for(unsigned int i = 0; i < length; ++i)
@@ -385,6 +387,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          *rawDatagram = RawDatagram(RawDatagramType::Dictionary);
+
           unsigned int length = 0;
 
           if(structure->dictionary_keys() != nullptr && structure->dictionary_contents() != nullptr)
@@ -455,6 +459,8 @@ namespace lp
 
         case json_type_array:
         {
+          *root = RawDatagram(RawDatagramType::List);
+
           json_object* jarray = jobj, *jvalue;
 
           for(size_t i = 0; i < json_object_array_length(jarray); i++)
@@ -469,6 +475,8 @@ namespace lp
 
         case json_type_object:
         {
+          *root = RawDatagram(RawDatagramType::Dictionary);
+
           // Note(fairlight1337): The following line is excluded from tidy checks as the utilized macro expands to
           // (according to tidy) unclean code which cannot be changed at this time.
           json_object_object_foreach(jobj, key, val) // NOLINT
-- 
2.43.0


From ec3aa9a70853f1d4e077518780a8fcf4c2ec3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:50 +0000
Subject: [PATCH 26/34] fix: store string literals as strings

---
 include/lamppost/messages/RawDatagram.h |  2 ++
 src/lamppost/messages/RawDatagram.cpp   | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/lamppost/messages/RawDatagram.h b/include/lamppost/messages/RawDatagram.h
index a70081d..9f0599d 100644
--- a/include/lamppost/messages/RawDatagram.h
+++ b/include/lamppost/messages/RawDatagram.h
@@ -63,6 +63,7 @@ namespace lp
       RawDatagram();
       RawDatagram(RawDatagramType rawDatagramType);
       RawDatagram(std::shared_ptr<DataBase> data);
+      RawDatagram(const char* value);
 
       template<typename ContentType>
       RawDatagram(ContentType contentValue)
@@ -95,6 +96,7 @@ namespace lp
 
       // Values
       RawDatagram& operator=(std::string value);
+      RawDatagram& operator=(const char* value);
       RawDatagram& operator=(int value);
       RawDatagram& operator=(double value);
       RawDatagram& operator=(bool value);
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e2370ca..e54c09f 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -32,6 +32,11 @@ namespace lp
     {
     }
 
+    RawDatagram::RawDatagram(const char* value)
+      : RawDatagram(std::string(value))
+    {
+    }
+
     RawDatagram::~RawDatagram()
     {
       mDictionary.clear();
@@ -244,6 +249,11 @@ namespace lp
       return *this;
     }
 
+    RawDatagram& RawDatagram::operator=(const char* value)
+    {
+      return *this = std::string(value);
+    }
+
     RawDatagram& RawDatagram::operator=(const std::shared_ptr<DataBase>& data)
     {
       if(mType != RawDatagramType::Value)
-- 
2.43.0


From 5d602b05fbfc4f401f4c103f27f991a10995a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:42 +0000
Subject: [PATCH 27/34] fix: keep JSON strings whole when they contain a null
 character

---
 src/lamppost/messages/RawDatagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e54c09f..1380f3e 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -464,7 +464,7 @@ namespace lp
 
         case json_type_string:
         {
-          *root = std::string(json_object_get_string(jobj));
+          *root = std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));
         } break;
 
         case json_type_array:
-- 
2.43.0


From 5ce24f0467af63b8206da7cb7aef6f1bdc22b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:05 +0000
Subject: [PATCH 28/34] fix: keep the root bus in place while Stop may be
 called from other threads

---
 src/lamppost/LampPost.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 45a862d..8995204 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -41,8 +41,7 @@ namespace lp
     mRootBus->Detach();
     mPluginManager.UnloadTemplates();
 
-    mLog.Info("Disabling root bus", 1);
-    mRootBus = nullptr;
+    // Note: The root bus stays in place until destruction, as Stop() may be called from any thread at any time.
   }
 
   void LampPost::InstantiatePlugin(std::string identifier, PluginConfiguration pluginConfiguration)
-- 
2.43.0


From a5824f71cf796fe5a51f2d3c419bcc922a23fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:05 +0000
Subject: [PATCH 29/34] fix: name the missing publishing function of a bus, not
 its name

---
 src/lamppost/bus/Bus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 293e8d3..fa7800d 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -39,7 +39,7 @@ namespace lp
 
       if(publishMessageFunction == nullptr)
       {
-        throw exceptions::ArgumentNullException("name", "Bus publishing function may not be null.");
+        throw exceptions::ArgumentNullException("publishMessageFunction", "Bus publishing function may not be null.");
       }
     }
 
-- 
2.43.0


From 5551199c568ad22bbb66678e142c3bed65cf2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:44 +0000
Subject: [PATCH 30/34] fix: remove the bus of a plugin instance before its
 library is closed

What a plugin leaves on its bus (such as the participants of an action
provider) refers to code of the plugin library. The bus stayed a child
of its parent until the host ended, so with a library that is really
unmapped its destruction ran code that was gone.
---
 include/lamppost/bus/Bus.h               | 1 +
 include/lamppost/plugin/PluginTemplate.h | 1 +
 src/lamppost/bus/Bus.cpp                 | 6 ++++++
 src/lamppost/plugin/PluginTemplate.cpp   | 9 +++++++++
 4 files changed, 17 insertions(+)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index bf007c1..89bcbdf 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -96,6 +96,7 @@ namespace lp
 
       std::shared_ptr<Bus> CreateChildBus(std::string name);
       std::shared_ptr<Bus> GetChildBus(std::string name);
+      void DeleteChildBus(std::string name);
 
       std::string GetName();
 
diff --git a/include/lamppost/plugin/PluginTemplate.h b/include/lamppost/plugin/PluginTemplate.h
index 96efb6a..c588399 100644
--- a/include/lamppost/plugin/PluginTemplate.h
+++ b/include/lamppost/plugin/PluginTemplate.h
@@ -21,6 +21,7 @@ namespace lp
   private:
     PluginTemplateConfiguration mConfiguration;
     std::map<std::string, std::shared_ptr<PluginInstance>> mInstances;
+    std::map<std::string, std::shared_ptr<bus::Bus>> mParentBusses;
 
     bool IndexedInstanceExists(int index);
 
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index fa7800d..d033fc4 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -117,6 +117,12 @@ namespace lp
       return mChildBusses[name];
     }
 
+    void Bus::DeleteChildBus(std::string name)
+    {
+      std::lock_guard<std::mutex> lock(mChildBussesMutex);
+      mChildBusses.erase(name);
+    }
+
     void Bus::Publish(std::string topic, messages::Datagram datagram)
     {
       Publish(messages::Message(GetIdentifier(), std::move(topic), datagram));
diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index 84bc878..e1ec886 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -32,6 +32,7 @@ namespace lp
 
     configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
     configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
+    mParentBusses[configuration.mIdentifier] = parentBus;
 
     mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
 
@@ -60,6 +61,14 @@ namespace lp
     }
 
     mInstances.clear();
+
+    // Note: What is left on the busses of the instances refers to code of the plugin library, which is closed next.
+    for(std::pair<std::string, std::shared_ptr<bus::Bus>> parentPair : mParentBusses)
+    {
+      parentPair.second->DeleteChildBus(parentPair.first);
+    }
+
+    mParentBusses.clear();
   }
 
   void PluginTemplate::Unload()
-- 
2.43.0


From e491dcccc7e5679bc7c7af9017a3da3382eadd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:44 +0000
Subject: [PATCH 31/34] fix: write each log line in one piece

The library is linked into the host and into every plugin statically, so
each has its own log mutex. Line and line break were written separately,
and lines of the host and of plugins got mixed.
---
 src/lamppost/log/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/log/Log.cpp b/src/lamppost/log/Log.cpp
index 95ca399..82f6c46 100644
--- a/src/lamppost/log/Log.cpp
+++ b/src/lamppost/log/Log.cpp
@@ -11,7 +11,8 @@ namespace lp
     {
       std::lock_guard<std::mutex> lock(sSynchronizationMutex);
 
-      std::cout << line << std::endl;
+      // Note: Plugin libraries come with a mutex of their own, hence a line goes out in one piece.
+      std::cout << line + "\n" << std::flush;
     }
 
     void Log::Write(std::string prefix, std::string message, int indentationLevel, int /*color*/)
-- 
2.43.0


From 46a2561f3a20462b6945f0fb0fe6714eeff984e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:57 +0000
Subject: [PATCH 32/34] fix: detach a child bus that is let go of

Its own parent does not know it anymore afterwards, so nothing else would
keep it from reaching into the parent after that is gone.
---
 src/lamppost/bus/Bus.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index d033fc4..7f7d561 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -120,7 +120,16 @@ namespace lp
     void Bus::DeleteChildBus(std::string name)
     {
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
-      mChildBusses.erase(name);
+      std::map<std::string, std::shared_ptr<Bus>>::iterator found = mChildBusses.find(name);
+
+      if(found != mChildBusses.end())
+      {
+        // Note: The child bus may outlive this bus, but must not reach into it anymore.
+        found->second->Stop();
+        found->second->Detach();
+
+        mChildBusses.erase(found);
+      }
     }
 
     void Bus::Publish(std::string topic, messages::Datagram datagram)
-- 
2.43.0


From 2178009f89590ea7eac544953394ed39efa0e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:12 +0000
Subject: [PATCH 33/34] fix: identifiers come from more than a single random
 number

---
 include/lamppost/utilities/Uuid.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/utilities/Uuid.h b/include/lamppost/utilities/Uuid.h
index a84b584..86044ae 100644
--- a/include/lamppost/utilities/Uuid.h
+++ b/include/lamppost/utilities/Uuid.h
@@ -28,8 +28,8 @@ namespace lp
       {
         Uuid uuid;
 
-        std::mt19937 rng;
-        rng.seed(std::random_device()());
+        // Note: A generator seeded with a single number could only give 2^32 different identifiers.
+        std::random_device rng;
         std::uniform_int_distribution<unsigned int> dist(1, -1);
 
         char buffer[128];
-- 
2.43.0


From a6976c9cb983665a4c5127cd4e777a33b9ba3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:26 +0000
Subject: [PATCH 34/34] fix: report the path of the running executable whole

---
 src/lamppost/Filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 785d6b2..2adc998 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -122,7 +122,7 @@ namespace lp
   std::string Filesystem::GetPathOfRunningExecutable()
   {
     std::string path;
-    char buffer[1024];
+    char buffer[4096]; // Note: Room for the longest path there can be, as a longer one would be cut.
     int bufferLength = sizeof(buffer);
 
 #if defined(_WIN32) || defined(_WIN64)
-- 
2.43.0

