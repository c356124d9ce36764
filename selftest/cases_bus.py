B='src/lamppost/bus/Bus.cpp'; BH='include/lamppost/bus/Bus.h'; S='src/lamppost/bus/Subscriber.cpp'; P='src/lamppost/bus/Publisher.cpp'
AC='src/lamppost/bus/ActionConsumer.cpp'; AP='src/lamppost/bus/ActionProvider.cpp'; AM='src/lamppost/utilities/AntMatcher.cpp'
CASES=[]
def bug(n, props, *e): CASES.append((n, props if isinstance(props, list) else [props], list(e)))
def same(n, *e): CASES.append((n, [], list(e)))

# ---------------- behaviour-preserving
same('same-run-helper', (B,"""      while(mShouldRun)
      {
        std::deque<messages::Message> queuedMessages;
        {
          std::unique_lock<std::mutex> lock(mQueueMutex);

          mNotifier.wait_for(lock,
                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
                             [this]
                             {
                               return !mQueuedMessages.empty() || !mShouldRun;
                             });

          if(!mShouldRun)
          {
            break;
          }

          queuedMessages = mQueuedMessages;

          mQueuedMessages.clear();
        }

        for(const messages::Message& message : queuedMessages)
        {
          Distribute(message);
        }
      }
""","""      while(mShouldRun)
      {
        for(const messages::Message& message : TakeQueued())
        {
          Distribute(message);
        }
      }
    }

    std::deque<messages::Message> Bus::TakeQueued()
    {
      std::deque<messages::Message> queuedMessages;
      std::unique_lock<std::mutex> lock(mQueueMutex);

      mNotifier.wait_for(lock,
                         std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
                         [this]
                         {
                           return !mQueuedMessages.empty() || !mShouldRun;
                         });
      if(mShouldRun)
      {
        std::swap(queuedMessages, mQueuedMessages);
      }
      return queuedMessages;
"""),(BH,"      void Distribute(messages::Message message);","      void Distribute(messages::Message message);\n      std::deque<messages::Message> TakeQueued();"))
same('same-swap', (B,"queuedMessages = mQueuedMessages;\n\n          mQueuedMessages.clear();","queuedMessages.swap(mQueuedMessages);"))
same('same-move', (B,"queuedMessages = mQueuedMessages;\n\n          mQueuedMessages.clear();","queuedMessages = std::move(mQueuedMessages);\n          mQueuedMessages.clear();"))
same('same-popfront', (B,"""        for(const messages::Message& message : queuedMessages)
        {
          Distribute(message);
        }""","""        while(!queuedMessages.empty())
        {
          messages::Message message = queuedMessages.front();
          queuedMessages.pop_front();
          Distribute(message);
        }"""))
same('same-iter', (B,"""        for(const messages::Message& message : queuedMessages)
        {
          Distribute(message);
        }""","""        for(auto it = queuedMessages.begin(); it != queuedMessages.end(); ++it)
        {
          Distribute(*it);
        }"""))
same('same-index', (B,"""        for(const messages::Message& message : queuedMessages)
        {
          Distribute(message);
        }""","""        for(std::size_t i = 0; i < queuedMessages.size(); ++i)
        {
          Distribute(queuedMessages[i]);
        }"""))
same('same-foreach', (B,"""        for(const messages::Message& message : queuedMessages)
        {
          Distribute(message);
        }""","""        std::for_each(queuedMessages.begin(), queuedMessages.end(), [this](const messages::Message& message) { Distribute(message); });"""),(B,"#include <lamppost/bus/Bus.h>","#include <lamppost/bus/Bus.h>\n#include <algorithm>"))
same('same-predless', (B,"""          mNotifier.wait_for(lock,
                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
                             [this]
                             {
                               return !mQueuedMessages.empty() || !mShouldRun;
                             });
""","""          if(mQueuedMessages.empty() && mShouldRun)
          {
            mNotifier.wait_for(lock, std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS));
          }
"""))
same('same-forever', (B,"while(mShouldRun)\n      {\n        std::deque","for(;;)\n      {\n        if(!mShouldRun) { return; }\n        std::deque"))
same('same-dist-early', (B,"""      if(mShouldRun)
      {
        {
          std::lock_guard<std::mutex> lock(mSubscribersMutex);
          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
          {
            if(TopicMatchesPattern(subscriber->GetTopic(), message.GetTopic()))
            {
              subscriber->Receive(message);
            }
          }
        }

        {
          std::lock_guard<std::mutex> lock(mChildBussesMutex);
          for(std::pair<std::string, std::shared_ptr<Bus>> pair : mChildBusses)
          {
            pair.second->Distribute(message);
          }
        }
      }""","""      if(!mShouldRun)
      {
        return;
      }

      DistributeToSubscribers(message);
      DistributeToChildren(message);
    }

    void Bus::DistributeToSubscribers(messages::Message message)
    {
      const std::string topic = message.GetTopic();
      std::lock_guard<std::mutex> lock(mSubscribersMutex);
      for(auto it = mSubscribers.begin(); it != mSubscribers.end(); ++it)
      {
        Subscriber& subscriber = **it;
        if(!TopicMatchesPattern(subscriber.GetTopic(), topic))
        {
          continue;
        }
        subscriber.Receive(message);
      }
    }

    void Bus::DistributeToChildren(messages::Message message)
    {
      std::lock_guard<std::mutex> lock(mChildBussesMutex);
      for(const auto& entry : mChildBusses)
      {
        const std::shared_ptr<Bus>& child = entry.second;
        child->Distribute(message);
      }"""),(BH,"      void Distribute(messages::Message message);","      void Distribute(messages::Message message);\n      void DistributeToSubscribers(messages::Message message);\n      void DistributeToChildren(messages::Message message);"))
same('same-children-first', (B,"""        {
          std::lock_guard<std::mutex> lock(mSubscribersMutex);
          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
          {
            if(TopicMatchesPattern(subscriber->GetTopic(), message.GetTopic()))
            {
              subscriber->Receive(message);
            }
          }
        }

        {
          std::lock_guard<std::mutex> lock(mChildBussesMutex);
          for(std::pair<std::string, std::shared_ptr<Bus>> pair : mChildBusses)
          {
            pair.second->Distribute(message);
          }
        }
""","""        {
          std::lock_guard<std::mutex> lock(mChildBussesMutex);
          for(std::pair<std::string, std::shared_ptr<Bus>> pair : mChildBusses)
          {
            pair.second->Distribute(message);
          }
        }

        {
          std::lock_guard<std::mutex> lock(mSubscribersMutex);
          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
          {
            if(TopicMatchesPattern(subscriber->GetTopic(), message.GetTopic()))
            {
              subscriber->Receive(message);
            }
          }
        }
"""))
same('same-notify-in-lock', (B,"""            mQueuedMessages.push_back(message);
          }

          mNotifier.notify_one();""","""            mQueuedMessages.push_back(message);
            mNotifier.notify_all();
          }
"""))
same('same-emplace', (B,"mQueuedMessages.push_back(message);","mQueuedMessages.emplace_back(std::move(message));"))
same('same-uniquelock', (B,"""          {
            std::lock_guard<std::mutex> lock(mQueueMutex);
            mQueuedMessages.push_back(message);
          }
""","""          std::unique_lock<std::mutex> lock(mQueueMutex);
          mQueuedMessages.push_back(message);
          lock.unlock();
"""))
same('same-enqueue-method', (B,"""          {
            std::lock_guard<std::mutex> lock(mQueueMutex);
            mQueuedMessages.push_back(message);
          }

          mNotifier.notify_one();""","""          Enqueue(message);"""),(B,"    void Bus::Stop()","    void Bus::Enqueue(messages::Message message)\n    {\n      {\n        std::lock_guard<std::mutex> guard(mQueueMutex);\n        mQueuedMessages.push_back(std::move(message));\n      }\n      mNotifier.notify_one();\n    }\n\n    void Bus::Stop()"),(BH,"      void Distribute(messages::Message message);","      void Distribute(messages::Message message);\n      void Enqueue(messages::Message message);"))
same('same-match-inline', (B,"return utilities::AntMatcher::Matches(pattern, topic);","if(pattern == \"/**/*\") { return true; }\n      return topic == pattern;"))
same('same-match-ternary', (B,"return utilities::AntMatcher::Matches(pattern, topic);","return pattern.compare(topic) == 0 ? true : pattern == \"/**/*\";"))
same('same-receive-earlyreturn', (S,"""      if(callback != nullptr)
      {
        callback(message);
      }
    }

    void Subscriber::Reset""","""      if(!callback)
      {
        return;
      }
      callback(message);
    }

    void Subscriber::Reset"""))
same('same-wrap-helper', (S,"""      std::lock_guard<std::mutex> lock(mCallbackMutex);
      mCallback = [callback](lp::messages::Message message)
        {
          messages::Datagram datagram = message.GetDatagram();

          if(callback != nullptr)
          {
            callback(datagram);
          }
        };""","""      SetMessageCallback([callback](lp::messages::Message message)
        {
          if(callback)
          {
            callback(message.GetDatagram());
          }
        });"""))
same('same-delete-iter', (BH,"container.remove(instance);\n        instance->Reset();","container.erase(std::remove(container.begin(), container.end(), instance), container.end());\n        instance->Reset();"))
same('same-delete-find', (BH,"container.remove(instance);\n        instance->Reset();","auto it = std::find(container.begin(), container.end(), instance);\n        if(it != container.end())\n        {\n          container.erase(it);\n        }\n        instance->Reset();"))
same('same-delete-order', (BH,"container.remove(instance);\n        instance->Reset();","instance->Reset();\n        container.remove(instance);"))
same('same-contains-loop', (BH,"return std::find(container.begin(), container.end(), instance) != container.end();","return std::count(container.begin(), container.end(), instance) > 0;"))
same('same-contains-rangefor', (BH,"return std::find(container.begin(), container.end(), instance) != container.end();","for(const auto& element : container)\n        {\n          if(element == instance)\n          {\n            return true;\n          }\n        }\n        return false;"))
same('same-contains-anyof', (BH,"return std::find(container.begin(), container.end(), instance) != container.end();","return std::any_of(container.begin(), container.end(), [&](const std::shared_ptr<ClassType>& element) { return element == instance; });"))
same('same-child-count', (B,"if(mChildBusses.find(name) != mChildBusses.end())","if(mChildBusses.count(name) > 0)"))
same('same-getchild-it', (B,"""      if(mChildBusses.find(name) == mChildBusses.end())
      {
        throw exceptions::KeyNotFoundException(name, "Child bus by that name does not exist in this bus.");
      }

      return mChildBusses[name];""","""      auto child = mChildBusses.find(name);
      if(child != mChildBusses.end())
      {
        return child->second;
      }

      throw exceptions::KeyNotFoundException(name, "Child bus by that name does not exist in this bus.");"""))
same('same-child-emplace', (B,"mChildBusses[name] = childBus;\n\n      childBus->Start();","childBus->Start();\n      mChildBusses.emplace(name, childBus);"))
same('same-child-insert', (B,"mChildBusses[name] = childBus;","mChildBusses.insert(std::make_pair(name, childBus));"))
same('same-publish-local', (B,"""      std::function<void(messages::Message)> publishMessageFunction;
      {
        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
        publishMessageFunction = mPublishMessageFunction;
      }

      if(publishMessageFunction != nullptr)
      {
        publishMessageFunction(message);
      }""","""      const std::function<void(messages::Message)> publishMessageFunction = CurrentPublishFunction();
      if(!publishMessageFunction)
      {
        return;
      }
      publishMessageFunction(std::move(message));"""),(B,"    void Bus::Stop()","    std::function<void(messages::Message)> Bus::CurrentPublishFunction()\n    {\n      std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);\n      return mPublishMessageFunction;\n    }\n\n    void Bus::Stop()"),(BH,"      void Distribute(messages::Message message);","      void Distribute(messages::Message message);\n      std::function<void(messages::Message)> CurrentPublishFunction();"))
same('same-detach-helper', (B,"""      {
        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
        mPublishMessageFunction = nullptr;
      }

      {
        std::lock_guard<std::mutex> lock(mChildBussesMutex);
        for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
        {
          busPair.second->Stop();
          busPair.second->Detach();
        }

        mChildBusses.clear();
      }
""","""      Detach();

      {
        std::lock_guard<std::mutex> lock(mChildBussesMutex);
        mChildBusses.clear();
      }
"""))
same('same-detach-order', (B,"""      {
        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
        mPublishMessageFunction = nullptr;
      }

      std::lock_guard<std::mutex> lock(mChildBussesMutex);
      for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
      {
        busPair.second->Stop();
        busPair.second->Detach();
      }
""","""      for(auto& busPair : SnapshotChildren())
      {
        busPair.second->Stop();
        busPair.second->Detach();
      }

      std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
      mPublishMessageFunction = nullptr;
"""),(B,"    void Bus::Stop()","    std::map<std::string, std::shared_ptr<Bus>> Bus::SnapshotChildren()\n    {\n      std::lock_guard<std::mutex> lock(mChildBussesMutex);\n      return mChildBusses;\n    }\n\n    void Bus::Stop()"),(BH,"      void Distribute(messages::Message message);","      void Distribute(messages::Message message);\n      std::map<std::string, std::shared_ptr<Bus>> SnapshotChildren();"))
same('same-ac-processresponse', (AC,"""        if(mOpenRequests.find(invocationId) != mOpenRequests.end())
        {
          callback = mOpenRequests[invocationId];
          mOpenRequests.erase(invocationId);
        }""","""        auto request = mOpenRequests.find(invocationId);
        if(request == mOpenRequests.end())
        {
          return;
        }
        callback = std::move(request->second);
        mOpenRequests.erase(request);"""))
same('same-ac-requestwait', (AC,"""      pending->mNotifier.wait_for(lock, std::chrono::milliseconds(timeoutMs),
                                  [pending]
                                  {
                                    return !pending->mWaiting;
                                  });

      return pending->mResponse;""","""      const std::chrono::milliseconds timeout(timeoutMs);
      pending->mNotifier.wait_for(lock, timeout, [&pending]() { return pending->mWaiting == false; });

      messages::Datagram result = pending->mResponse;
      return result;"""))
same('same-ac-emplace', (AC,"mOpenRequests[uuidString] = callback;","mOpenRequests.emplace(uuidString, callback);"))
same('same-ac-notify-outside', (AC,"""          std::lock_guard<std::mutex> lock(pending->mMutex);
          pending->mResponse = internalResponse;
          pending->mWaiting = false;
          pending->mNotifier.notify_one();""","""          {
            std::lock_guard<std::mutex> lock(pending->mMutex);
            pending->mWaiting = false;
            pending->mResponse = internalResponse;
          }
          pending->mNotifier.notify_all();"""))
same('same-ap-topic', (BH,"""            std::string invocationId = datagram.Get<std::string>("invocationId");

            if(!invocationId.empty())
            {
              instance->ProcessRequest(invocationId, datagram);
            }""","""            const std::string id = datagram.Get<std::string>("invocationId");

            if(id.empty())
            {
              return;
            }
            instance->ProcessRequest(id, datagram);"""))
same('same-rename-fields', (B,"mQueuedMessages.push_back(message);","mPending.push_back(message);"),(B,"return !mQueuedMessages.empty() || !mShouldRun;","return !mPending.empty() || !mShouldRun;"),(B,"queuedMessages = mQueuedMessages;\n\n          mQueuedMessages.clear();","queuedMessages = mPending;\n\n          mPending.clear();"),(BH,"std::deque<messages::Message> mQueuedMessages;","std::deque<messages::Message> mPending;"))

# ---------------- bugs
bug('bug-pushfront','C01',(B,"mQueuedMessages.push_back(message);","mQueuedMessages.push_front(message);"))
bug('bug-drop-when-full','C01',(B,"            mQueuedMessages.push_back(message);","            if(mQueuedMessages.size() < 1024)\n            {\n              mQueuedMessages.push_back(message);\n            }"))
bug('bug-not-clear','C01',(B,"          mQueuedMessages.clear();","          mQueuedMessages.pop_front();"))
bug('bug-reverse','C01',(B,"for(const messages::Message& message : queuedMessages)\n        {\n          Distribute(message);\n        }","for(auto it = queuedMessages.rbegin(); it != queuedMessages.rend(); ++it)\n        {\n          Distribute(*it);\n        }"))
bug('bug-clear-later','C01',(B,"          queuedMessages = mQueuedMessages;\n\n          mQueuedMessages.clear();\n        }\n","          queuedMessages = mQueuedMessages;\n        }\n        { std::lock_guard<std::mutex> l(mQueueMutex); mQueuedMessages.clear(); }\n"))
bug('bug-skip-first-child','C01',(B,"            pair.second->Distribute(message);","            if(!pair.first.empty() && pair.first[0] != '_')\n            {\n              pair.second->Distribute(message);\n            }"))
bug('bug-break-after-match',['C01'],(B,"              subscriber->Receive(message);","              subscriber->Receive(message);\n              break;"))
bug('bug-dist-twice',['C01'],(B,"            pair.second->Distribute(message);","            pair.second->Distribute(message);\n            pair.second->Distribute(message);"))
bug('bug-publisher-topic',['C01'],(B,"Publish(messages::Message(GetIdentifier(), std::move(topic), datagram));","Publish(messages::Message(topic, GetIdentifier(), datagram));"))
bug('bug-dedupe',['C01'],(B,"            mQueuedMessages.push_back(message);","            if(mQueuedMessages.empty() || !(mQueuedMessages.back() == message))\n            {\n              mQueuedMessages.push_back(message);\n            }"))
bug('bug-match-prefix',['C01','C02'],(AM,"==","!="))
bug('bug-match-empty',['C02'],(B,"return utilities::AntMatcher::Matches(pattern, topic);","return !topic.empty() && utilities::AntMatcher::Matches(pattern, topic);"))
bug('bug-match-swap',['C02'],(B,"return utilities::AntMatcher::Matches(pattern, topic);","return utilities::AntMatcher::Matches(topic, pattern);"))
bug('bug-skip-self',['C01'],(B,"if(TopicMatchesPattern(subscriber->GetTopic(), message.GetTopic()))","if(message.GetSender() != subscriber->GetTopic() && TopicMatchesPattern(subscriber->GetTopic(), message.GetTopic()))"))
bug('bug-loop-exit-empty',['C01'],(B,"          if(!mShouldRun)\n          {\n            break;","          if(!mShouldRun || mQueuedMessages.size() > 100000)\n          {\n            break;"))
bug('bug-stop-clears',['C01'],(B,"      mShouldRun = false;\n    }\n\n    bool","      mShouldRun = false;\n      std::lock_guard<std::mutex> l(mQueueMutex);\n      mQueuedMessages.clear();\n    }\n\n    bool"))
bug('bug-child-own-queue',['C01'],(B,"std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, publishMessageFunction);","std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name);"))
bug('bug-no-notify',['C03'],(B,"          mNotifier.notify_one();",""))
bug('bug-notify-before',['C03'],(B,"""          {
            std::lock_guard<std::mutex> lock(mQueueMutex);
            mQueuedMessages.push_back(message);
          }

          mNotifier.notify_one();""","""          mNotifier.notify_one();
          {
            std::lock_guard<std::mutex> lock(mQueueMutex);
            mQueuedMessages.push_back(message);
          }
"""))
bug('bug-notify-if-size1',['C03'],(B,"          mNotifier.notify_one();","          if(message.GetTopic() != \"\")\n          {\n            mNotifier.notify_one();\n          }"))
bug('bug-pred-and',['C03'],(B,"return !mQueuedMessages.empty() || !mShouldRun;","return mQueuedMessages.size() > 1 || !mShouldRun;"))
bug('bug-wait-nopred',['C03'],(B,"""                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
                             [this]
                             {
                               return !mQueuedMessages.empty() || !mShouldRun;
                             });""","""                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS));"""))
bug('bug-wait-untimed',['C03'],(B,"""          mNotifier.wait_for(lock,
                             std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
                             [this]""","""          mNotifier.wait(lock,
                             [this]"""))
bug('bug-other-mutex',['C03','C04'],(B,"          std::unique_lock<std::mutex> lock(mQueueMutex);","          std::unique_lock<std::mutex> lock(mSubscribersMutex);"))
bug('bug-nolock-publish',['C04'],(B,"            std::lock_guard<std::mutex> lock(mQueueMutex);\n            mQueuedMessages","            mQueuedMessages"))
bug('bug-nolock-getchild',['C04'],(B,"      std::lock_guard<std::mutex> lock(mChildBussesMutex);\n      if(mChildBusses.find(name) == mChildBusses.end())","      if(mChildBusses.find(name) == mChildBusses.end())"))
bug('bug-nolock-contains',['C04'],(BH,"        std::lock_guard<std::mutex> lock(mutex);\n        return std::find","        return std::find"))
bug('bug-nolock-reset',['C04'],(P,"      std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);\n      mPublishingFunction = nullptr;","      mPublishingFunction = nullptr;"))
bug('bug-wrongmutex-del',['C04','C06'],(B,"DeleteManagedResource(mSubscribersMutex, mSubscribers, std::move(subscriber));","DeleteManagedResource(mPublishersMutex, mSubscribers, std::move(subscriber));"))
bug('bug-flag-plain',['C04'],(BH,"std::atomic<bool> mShouldRun;","bool mShouldRun;"))
bug('bug-empty-check-nolock',['C04'],(B,"        std::deque<messages::Message> queuedMessages;\n        {","        std::deque<messages::Message> queuedMessages;\n        if(mQueuedMessages.empty()) { std::this_thread::yield(); }\n        {"))
bug('bug-copy-subs',['C06'],(B,"""          std::lock_guard<std::mutex> lock(mSubscribersMutex);
          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
          {""","""          std::list<std::shared_ptr<Subscriber>> subscribers;
          {
            std::lock_guard<std::mutex> lock(mSubscribersMutex);
            subscribers = mSubscribers;
          }
          for(const std::shared_ptr<Subscriber>& subscriber : subscribers)
          {"""))
bug('bug-del-noreset',['C06'],(BH,"        container.remove(instance);\n        instance->Reset();","        container.remove(instance);"))
bug('bug-del-reset-if-present',['C06'],(BH,"        container.remove(instance);\n        instance->Reset();","        auto it = std::find(container.begin(), container.end(), instance);\n        if(it != container.end() && container.size() > 1)\n        {\n          container.erase(it);\n        }\n        instance->Reset();"))
bug('bug-create-front-twice',['C06'],(BH,"container.push_back(instance);","container.push_back(instance);\n        container.push_back(instance);"))
bug('bug-null-check-gone',['C07'],(S,"""      if(callback != nullptr)
      {
        callback(message);
      }
    }

    void Subscriber::Reset""","""      callback(message);
    }

    void Subscriber::Reset"""))
bug('bug-null-recheck-field',['C04'],(P,"      if(publishingFunction != nullptr)\n      {\n        publishingFunction(datagram);","      if(mPublishingFunction != nullptr)\n      {\n        publishingFunction(datagram);"))
bug('bug-wrap-nullcheck',['C07'],(S,"""          if(callback != nullptr)
          {
            callback(datagram);
          }
        };""","""          callback(datagram);
        };"""))
bug('bug-empty-name',['C08'],(B,"""      if(name.empty())
      {
        throw exceptions::ArgumentNullException("name", "Bus name may not be empty.");
      }

      if(publishMessageFunction == nullptr)""","""      if(publishMessageFunction == nullptr)"""))
bug('bug-child-overwrite',['C08'],(B,"""      if(mChildBusses.find(name) != mChildBusses.end())
      {
        throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
      }
""",""))
bug('bug-child-exc-order',['C08'],(B,"throw exceptions::DuplicateKeyException(name,","throw exceptions::DuplicateKeyException(GetIdentifier(),"))
bug('bug-child-notstarted',['C08'],(B,"      childBus->Start();\n",""))
bug('bug-getchild-null',['C08'],(B,"""      if(mChildBusses.find(name) == mChildBusses.end())
      {
        throw exceptions::KeyNotFoundException(name, "Child bus by that name does not exist in this bus.");
      }

      return""","""      return"""))
bug('bug-register-before-check',['C08'],(B,"      std::lock_guard<std::mutex> lock(mChildBussesMutex);\n      if(mChildBusses.find(name) != mChildBusses.end())\n      {","      std::lock_guard<std::mutex> lock(mChildBussesMutex);\n      if(mChildBusses.find(name) != mChildBusses.end())\n      {\n        mChildBusses.erase(name);"))
bug('bug-detach-nostop',['C10'],(B,"        busPair.second->Stop();\n        busPair.second->Detach();\n      }\n    }\n  }","        busPair.second->Detach();\n      }\n    }\n  }"))
bug('bug-detach-keepfn',['C10'],(B,"""      {
        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
        mPublishMessageFunction = nullptr;
      }

      std::lock_guard<std::mutex> lock(mChildBussesMutex);""","""      std::lock_guard<std::mutex> lock(mChildBussesMutex);"""))
bug('bug-dtor-nodetach',['C10'],(B,"          busPair.second->Stop();\n          busPair.second->Detach();","          busPair.second->Stop();"))
bug('bug-dtor-noresetpub',['C10'],(B,"          publisher->Reset();",""))
bug('bug-detach-only-first',['C10'],(B,"        busPair.second->Stop();\n        busPair.second->Detach();\n      }\n    }\n  }","        busPair.second->Stop();\n        busPair.second->Detach();\n        break;\n      }\n    }\n  }"))
bug('bug-action-order',['C11'],(AC,"""      {
        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
        mOpenRequests[uuidString] = callback;
      }

      messages::Datagram wrappedRequest;
      wrappedRequest["invocationId"] = uuidString;
      wrappedRequest["request"] = request;

      mRequestPublisher->Publish(wrappedRequest);""","""      messages::Datagram wrappedRequest;
      wrappedRequest["invocationId"] = uuidString;
      wrappedRequest["request"] = request;

      mRequestPublisher->Publish(wrappedRequest);

      {
        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
        mOpenRequests[uuidString] = callback;
      }"""))
bug('bug-action-noerase',['C11'],(AC,"          mOpenRequests.erase(invocationId);\n",""))
bug('bug-action-splitlock',['C11'],(AC,"""          callback = mOpenRequests[invocationId];
          mOpenRequests.erase(invocationId);
        }
      }

      if(callback != nullptr)
      {
        callback(response);
      }""","""          callback = mOpenRequests[invocationId];
        }
      }

      if(callback != nullptr)
      {
        {
          std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
          mOpenRequests.erase(invocationId);
        }
        callback(response);
      }"""))
bug('bug-action-topic',['C11'],(BH,'std::shared_ptr<Publisher> responsePublisher = CreatePublisher(topic + "/response");','std::shared_ptr<Publisher> responsePublisher = CreatePublisher(topic + "/request");'))
bug('bug-action-static-uuid',['C11'],(AC,"utilities::Uuid uuid = utilities::Uuid::CreateUuid();","static utilities::Uuid uuid = utilities::Uuid::CreateUuid();"))
bug('bug-action-refcap',['C11'],(AC,"""        [pending](messages::Datagram internalResponse)""","""        [&pending](messages::Datagram internalResponse)"""))
bug('bug-action-flagnolock',['C11'],(AC,"""          std::lock_guard<std::mutex> lock(pending->mMutex);
          pending->mResponse = internalResponse;
          pending->mWaiting = false;""","""          pending->mResponse = internalResponse;
          pending->mWaiting = false;"""))
bug('bug-action-nonotify',['C11'],(AC,"          pending->mNotifier.notify_one();\n",""))
bug('bug-action-timeout',['C11'],(AC,"std::chrono::milliseconds(timeoutMs)","std::chrono::milliseconds(1000)"))
bug('bug-action-respid',['C11'],(AP,'wrappedResponse["invocationId"] = std::move(invocationId);','wrappedResponse["invocationid"] = std::move(invocationId);'))
bug('bug-action-anyid',['C11'],(AC,"callback = mOpenRequests[invocationId];\n          mOpenRequests.erase(invocationId);","callback = mOpenRequests.begin()->second;\n          mOpenRequests.erase(invocationId);"))

# ---------------- C05
bug('bug-order-run-under-lock',['C05'],(B,"""          mQueuedMessages.clear();
        }

        for(const messages::Message& message : queuedMessages)
        {
          Distribute(message);
        }""","""          mQueuedMessages.clear();

        for(const messages::Message& message : queuedMessages)
        {
          Distribute(message);
        }
        }"""))
bug('bug-order-request-under-lock',['C05'],(AC,"""        mOpenRequests[uuidString] = callback;
      }

      messages::Datagram wrappedRequest;
      wrappedRequest["invocationId"] = uuidString;
      wrappedRequest["request"] = request;

      mRequestPublisher->Publish(wrappedRequest);""","""        mOpenRequests[uuidString] = callback;

      messages::Datagram wrappedRequest;
      wrappedRequest["invocationId"] = uuidString;
      wrappedRequest["request"] = request;

      mRequestPublisher->Publish(wrappedRequest);
      }
      std::lock_guard<std::mutex> again(mOpenRequestsMutex);
      for(auto& r : mOpenRequests) { r.second(request); }"""))
bug('bug-order-response-under-lock',['C05'],(AC,"""          mOpenRequests.erase(invocationId);
        }
      }

      if(callback != nullptr)
      {
        callback(response);
      }""","""          mOpenRequests.erase(invocationId);
        }

      if(callback != nullptr)
      {
        callback(response);
      }
      }"""))
bug('bug-order-delsub',['C05'],(B,"      {\n        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);\n        mPublishMessageFunction = nullptr;\n      }\n\n      std::lock_guard<std::mutex> lock(mChildBussesMutex);","      std::lock_guard<std::mutex> lock0(mPublishMessageFunctionMutex);\n      mPublishMessageFunction = nullptr;\n\n      std::lock_guard<std::mutex> lock(mChildBussesMutex);"))
same('same-publish-under-pubmutex',(P,"""        publishingFunction = mPublishingFunction;
      }

      if(publishingFunction != nullptr)
      {
        publishingFunction(datagram);
      }""","""        publishingFunction = mPublishingFunction;

      if(publishingFunction != nullptr)
      {
        publishingFunction(datagram);
      }
      }"""))
bug('bug-lock-leak',['C05'],(AP,"        std::lock_guard<std::mutex> lock(mCallbackMutex);\n        callback = mCallback;\n","        mCallbackMutex.lock();\n        callback = mCallback;\n        if(callback == nullptr) { return; }\n        mCallbackMutex.unlock();\n"))
bug('bug-relock',['C05'],(B,"      for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)\n      {\n        busPair.second->Stop();\n        busPair.second->Detach();\n      }\n    }\n  }","      for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)\n      {\n        GetChildBus(busPair.first)->Stop();\n        busPair.second->Detach();\n      }\n    }\n  }"))
same('same-manual-lock', (AP,"        std::lock_guard<std::mutex> lock(mCallbackMutex);\n        callback = mCallback;\n","        mCallbackMutex.lock();\n        callback = mCallback;\n        mCallbackMutex.unlock();\n"))
same('same-unique-unlock', (P,"""      {
        std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);
        publishingFunction = mPublishingFunction;
      }
""","""      std::unique_lock<std::mutex> lock(mPublishingFunctionMutex);
      publishingFunction = mPublishingFunction;
      lock.unlock();
"""))

same('same-buspublish-under-lock', (B,"""      std::function<void(messages::Message)> publishMessageFunction;
      {
        std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
        publishMessageFunction = mPublishMessageFunction;
      }

      if(publishMessageFunction != nullptr)
      {
        publishMessageFunction(message);
      }""","""      std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
      if(mPublishMessageFunction != nullptr)
      {
        mPublishMessageFunction(message);
      }"""))

DELC = """      std::map<std::string, std::shared_ptr<Bus>>::iterator found = mChildBusses.find(name);

      if(found != mChildBusses.end())
      {
        // Note: The child bus may outlive this bus, but must not reach into it anymore.
        found->second->Stop();
        found->second->Detach();

        mChildBusses.erase(found);
      }
"""
same('same-delchild-outside', (B, '      std::lock_guard<std::mutex> lock(mChildBussesMutex);\n' + DELC, """      std::shared_ptr<Bus> childBus;
      {
        std::lock_guard<std::mutex> lock(mChildBussesMutex);
        std::map<std::string, std::shared_ptr<Bus>>::iterator found = mChildBusses.find(name);
        if(found == mChildBusses.end())
        {
          return;
        }
        childBus = found->second;
        mChildBusses.erase(found);
      }

      childBus->Detach();
      childBus->Stop();
"""))
same('same-delchild-count', (B, DELC, """      if(mChildBusses.count(name) > 0)
      {
        mChildBusses[name]->Stop();
        mChildBusses[name]->Detach();
        mChildBusses.erase(name);
      }
"""))
same('same-delchild-helper', (B, "        found->second->Stop();\n        found->second->Detach();\n\n        mChildBusses.erase(found);\n", "        LetGo(found->second);\n        mChildBusses.erase(found);\n"),
     (B, "    void Bus::DeleteChildBus(std::string name)\n", "    static void LetGo(const std::shared_ptr<Bus>& child)\n    {\n      child->Stop();\n      child->Detach();\n    }\n\n    void Bus::DeleteChildBus(std::string name)\n"))
bug('bug-delchild-no-detach', 'C10', (B, "        found->second->Stop();\n        found->second->Detach();\n", "        found->second->Stop();\n"))
bug('bug-delchild-no-stop', 'C10', (B, "        found->second->Stop();\n        found->second->Detach();\n", "        found->second->Detach();\n"))
bug('bug-delchild-no-lock', 'C04', (B, '      std::lock_guard<std::mutex> lock(mChildBussesMutex);\n' + DELC, DELC))
bug('bug-delchild-throws', 'C08', (B, "        mChildBusses.erase(found);\n      }\n", "        mChildBusses.erase(found);\n      }\n      else\n      {\n        throw exceptions::KeyNotFoundException(name, \"Child bus by that name does not exist in this bus.\");\n      }\n"))
bug('bug-delchild-first', ['C08', 'C10', 'C21'], (B, "        mChildBusses.erase(found);\n", "        mChildBusses.erase(mChildBusses.begin());\n"))
bug('bug-delchild-other-detached', ['C10'], (B, "        found->second->Detach();\n\n        mChildBusses.erase", "        Detach();\n\n        mChildBusses.erase"))
