LK='src/plugins/link/Link.cpp'; LKH='include/plugins/link/Link.h'; MS='src/lamppost/messages/Message.cpp'
import os
if not os.path.exists('/repo/' + LKH):
    LKH = 'src/plugins/link/Link.h'
CASES=[]
def bug(n, props, *e): CASES.append((n, props if isinstance(props, list) else [props], list(e)))
def same(n, *e): CASES.append((n, [], list(e)))
# ------------------------------------------------ same behaviour
CB0 = """          if(!message.WasSentBySender(this->GetIdentifier()))
          {
            if(mZmqServerPubSocket != nullptr)
            {
              std::lock_guard<std::mutex> serverPubLock(mServerPubMutex);

              if(!this->SendZmqMessage(mZmqServerPubSocket, message))
              {
                mLog.Warning("Failed to send message to server(s).");
              }
            }

            if(mZmqClientPubSocket != nullptr)
            {
              std::lock_guard<std::mutex> clientPubLock(mClientPubMutex);

              if(!this->SendZmqMessage(mZmqClientPubSocket, message))
              {
                mLog.Warning("Failed to send message to client(s).");
              }
            }
          }
"""
same('same-l-early-return', (LK, CB0, """          if(message.WasSentBySender(this->GetIdentifier()))
          {
            return;
          }

          {
            std::lock_guard<std::mutex> clientPubLock(mClientPubMutex);

            if(mZmqClientPubSocket != nullptr && !this->SendZmqMessage(mZmqClientPubSocket, message))
            {
              mLog.Warning("Failed to send message to client(s).");
            }
          }

          {
            std::lock_guard<std::mutex> serverPubLock(mServerPubMutex);

            if(mZmqServerPubSocket != nullptr && !this->SendZmqMessage(mZmqServerPubSocket, message))
            {
              mLog.Warning("Failed to send message to server(s).");
            }
          }
"""))
same('same-l-forward-method', (LK, CB0, """          this->ForwardMessage(message);
"""), (LK, """    void* Link::CreateZmqSocket(int""", """    void Link::ForwardMessage(messages::Message& message)
    {
      if(message.WasSentBySender(GetIdentifier()))
      {
        return;
      }

      ForwardThrough(mZmqServerPubSocket, mServerPubMutex, message, "server(s)");
      ForwardThrough(mZmqClientPubSocket, mClientPubMutex, message, "client(s)");
    }

    void Link::ForwardThrough(void* socket, std::mutex& socketMutex, messages::Message& message, const std::string& who)
    {
      if(socket == nullptr)
      {
        return;
      }

      std::lock_guard<std::mutex> lock(socketMutex);

      if(!SendZmqMessage(socket, message))
      {
        mLog.Warning("Failed to send message to " + who + ".");
      }
    }

    void* Link::CreateZmqSocket(int"""), (LKH, """      void* CreateZmqSocket(int""", """      void ForwardMessage(messages::Message& message);
      void ForwardThrough(void* socket, std::mutex& socketMutex, messages::Message& message, const std::string& who);

      void* CreateZmqSocket(int"""))
SND = """      zmq_msg_t message = zmq_msg_t();
      std::shared_ptr<data::RawBytes> rawBytes = messageToSend.SerializeToBytes();

      if(zmq_msg_init_size(&message, rawBytes->GetSize()) > -1)
      {
        std::memcpy(zmq_msg_data(&message), rawBytes->GetContent(), rawBytes->GetSize());

        zmq_send(zmqSocket, "A", 1, ZMQ_SNDMORE);
        int sendResult = zmq_msg_send(&message, zmqSocket, 0);

        if(sendResult == rawBytes->GetSize())
        {
          successfullySent = true;
        }
        else
        {
          int errorCode = zmq_errno();
          mLog.Error(std::string("ZMQ Error during send (received " + std::to_string(sendResult) + ", expected " + std::to_string(rawBytes->GetSize()) + "): ") + zmq_strerror(errorCode));
        }

        zmq_msg_close(&message);
      }
      else
      {
        int errorCode = zmq_errno();
        mLog.Error(std::string("ZMQ Error during message initialization: ") + zmq_strerror(errorCode));
      }
"""
same('same-l-send-raw', (LK, SND, """      std::shared_ptr<data::RawBytes> rawBytes = messageToSend.SerializeToBytes();
      const size_t size = rawBytes->GetSize();

      zmq_send(zmqSocket, "A", 1, ZMQ_SNDMORE);
      int sendResult = zmq_send(zmqSocket, rawBytes->GetContent(), size, 0);

      if(sendResult >= 0 && static_cast<size_t>(sendResult) == size)
      {
        successfullySent = true;
      }
      else
      {
        mLog.Error(std::string("ZMQ Error during send: ") + zmq_strerror(zmq_errno()));
      }
"""))
same('same-l-send-init-fails', (LK, SND, """      std::shared_ptr<data::RawBytes> rawBytes = messageToSend.SerializeToBytes();
      const size_t messageSize = rawBytes->GetSize();
      const std::string topicFrame = "A";

      zmq_msg_t message;
      if(zmq_msg_init_size(&message, messageSize) != 0)
      {
        mLog.Error(std::string("ZMQ Error during message initialization: ") + zmq_strerror(zmq_errno()));
        return false;
      }

      std::memcpy(zmq_msg_data(&message), rawBytes->GetContent(), messageSize);

      zmq_send(zmqSocket, topicFrame.c_str(), topicFrame.size(), ZMQ_SNDMORE);
      successfullySent = zmq_msg_send(&message, zmqSocket, 0) == static_cast<int>(messageSize);

      if(!successfullySent)
      {
        mLog.Error(std::string("ZMQ Error during send: ") + zmq_strerror(zmq_errno()));
      }

      zmq_msg_close(&message);
"""))
REC = """        zmq_msg_t messagePart = zmq_msg_t();
        int64_t more = 0;
        size_t sizeOfMore = sizeof(more);
        bool topicNameSkipped = false;

        do
        {
          if(zmq_msg_init(&messagePart) == 0)
          {
            int receiveResult = zmq_recvmsg(zmqSocket, &messagePart, ZMQ_DONTWAIT);

            if(receiveResult > -1)
            {
              size_t messageSize = zmq_msg_size(&messagePart);
              void* messageData = zmq_msg_data(&messagePart);

              if(!topicNameSkipped)
              {
                topicNameSkipped = true;
              }
              else
              {
                bytes->Append(messageData, messageSize);
              }

              zmq_getsockopt(zmqSocket, ZMQ_RCVMORE, &more, &sizeOfMore);
            }
            else
            {
              more = 0;
            }

            zmq_msg_close(&messagePart);
          }
        } while(more > 0);
"""
same('same-l-recv-while', (LK, REC, """        zmq_msg_t messagePart = zmq_msg_t();
        int more = 1;
        size_t sizeOfMore = sizeof(more);
        bool topicNameSkipped = false;

        while(more != 0)
        {
          zmq_msg_init(&messagePart);

          if(zmq_msg_recv(&messagePart, zmqSocket, ZMQ_DONTWAIT) >= 0)
          {
            if(topicNameSkipped)
            {
              bytes->Append(zmq_msg_data(&messagePart), zmq_msg_size(&messagePart));
            }

            topicNameSkipped = true;
            zmq_getsockopt(zmqSocket, ZMQ_RCVMORE, &more, &sizeOfMore);
          }
          else
          {
            more = 0;
          }

          zmq_msg_close(&messagePart);
        }
"""))
same('same-l-recv-index', (LK, REC, """        zmq_msg_t messagePart = zmq_msg_t();
        int more = 0;
        size_t sizeOfMore = sizeof(more);
        unsigned int partIndex = 0;

        do
        {
          zmq_msg_init(&messagePart);
          more = 0;

          if(zmq_recvmsg(zmqSocket, &messagePart, ZMQ_DONTWAIT) > -1)
          {
            if(partIndex > 0)
            {
              bytes->Append(zmq_msg_data(&messagePart), zmq_msg_size(&messagePart));
            }

            partIndex++;
            zmq_getsockopt(zmqSocket, ZMQ_RCVMORE, &more, &sizeOfMore);
          }

          zmq_msg_close(&messagePart);
        } while(more != 0);
"""))
same('same-l-recv-helper', (LK, REC, """        bool more = false;

        if(ReceivePart(zmqSocket, nullptr, more))
        {
          while(more)
          {
            if(!ReceivePart(zmqSocket, bytes, more))
            {
              break;
            }
          }
        }
"""), (LK, """    bool Link::SendZmqMessage(""", """    bool Link::ReceivePart(void* zmqSocket, std::shared_ptr<data::RawBytes> target, bool& more)
    {
      zmq_msg_t part;
      zmq_msg_init(&part);
      bool received = zmq_msg_recv(&part, zmqSocket, ZMQ_DONTWAIT) > -1;

      if(received)
      {
        if(target != nullptr)
        {
          target->Append(zmq_msg_data(&part), zmq_msg_size(&part));
        }

        more = zmq_msg_more(&part) != 0;
      }

      zmq_msg_close(&part);
      return received;
    }

    bool Link::SendZmqMessage("""), (LKH, """      bool SendZmqMessage(""", """      bool ReceivePart(void* zmqSocket, std::shared_ptr<data::RawBytes> target, bool& more);
      bool SendZmqMessage("""))
RUN1 = """          if(mZmqContext != nullptr && ReceiveMessage(mZmqServerSubSocket, receivedMessage))
          {
            // TODO(fairlight1337): Properly handle logic for receiving messages as a server here. Right now,
            // the messages inserted back into the bus here isn't marked as received through a specific link
            // and will most probably bounce back over the same connection it came in when transmitted to this
            // Link plugin instance again. This needs to be taken care of.
            receivedMessage.PrependSender(this->GetIdentifier());
            GetBus()->Publish(receivedMessage);
          }
"""
RUN2 = """          if(mZmqContext != nullptr && ReceiveMessage(mZmqClientSubSocket, receivedMessage))
          {
            // TODO(fairlight1337): Properly handle logic for receiving messages as a client here. See comment above.
            receivedMessage.PrependSender(this->GetIdentifier());
            GetBus()->Publish(receivedMessage);
          }
"""
same('same-l-run-helper', (LK, RUN1, """          ForwardToBus(mZmqServerSubSocket);
"""), (LK, RUN2, """          ForwardToBus(mZmqClientSubSocket);
"""), (LK, """    bool Link::ReceiveMessage(""", """    void Link::ForwardToBus(void* zmqSocket)
    {
      messages::Message received;

      if(ReceiveMessage(zmqSocket, received))
      {
        messages::Message marked(GetIdentifier() + "/" + received.GetSender(), received.GetTopic(), received.GetDatagram());
        GetBus()->Publish(marked);
      }
    }

    bool Link::ReceiveMessage("""), (LKH, """      bool SendZmqMessage(""", """      void ForwardToBus(void* zmqSocket);
      bool SendZmqMessage("""))
same('same-l-run-order', (LK, RUN1, """          if(ReceiveMessage(mZmqClientSubSocket, receivedMessage))
          {
            receivedMessage.PrependSender(this->GetIdentifier());
            GetBus()->Publish(receivedMessage);
          }
"""), (LK, RUN2, """          if(ReceiveMessage(mZmqServerSubSocket, receivedMessage))
          {
            receivedMessage.PrependSender(this->GetIdentifier());
            GetBus()->Publish(receivedMessage);
          }
"""))
SRV = """        mZmqServerPubSocket = CreateZmqSocket(ZMQ_PUB);
        BindZmqSocket(mZmqServerPubSocket, endpointAddressPub);

        mZmqServerSubSocket = CreateZmqSocket(ZMQ_SUB);
        BindZmqSocket(mZmqServerSubSocket, endpointAddressSub);
        zmq_setsockopt(mZmqServerSubSocket, ZMQ_SUBSCRIBE, "A", 1);
"""
same('same-l-sub-first', (LK, SRV, """        mZmqServerSubSocket = CreateZmqSocket(ZMQ_SUB);
        zmq_setsockopt(mZmqServerSubSocket, ZMQ_SUBSCRIBE, "A", 1);
        BindZmqSocket(mZmqServerSubSocket, endpointAddressSub);

        mZmqServerPubSocket = CreateZmqSocket(ZMQ_PUB);
        BindZmqSocket(mZmqServerPubSocket, endpointAddressPub);
"""))
DEI = """      if(mZmqContext != nullptr)
      {
        if(mZmqServerPubSocket != nullptr)
        {
          zmq_close(mZmqServerPubSocket);
          mZmqServerPubSocket = nullptr;
        }

        if(mZmqServerSubSocket != nullptr)
        {
          zmq_close(mZmqServerSubSocket);
          mZmqServerSubSocket = nullptr;
        }

        if(mZmqClientPubSocket != nullptr)
        {
          zmq_close(mZmqClientPubSocket);
          mZmqClientPubSocket = nullptr;
        }

        if(mZmqClientSubSocket != nullptr)
        {
          zmq_close(mZmqClientSubSocket);
          mZmqClientSubSocket = nullptr;
        }

        mLog.Info("Shutting down ZMQ.");
        zmq_ctx_shutdown(mZmqContext);
"""
same('same-l-close-helper', (LK, DEI, """      if(mZmqContext != nullptr)
      {
        CloseZmqSocket(mZmqClientSubSocket);
        CloseZmqSocket(mZmqClientPubSocket);
        CloseZmqSocket(mZmqServerSubSocket);
        CloseZmqSocket(mZmqServerPubSocket);
"""), (LK, """    bool Link::SendZmqMessage(""", """    void Link::CloseZmqSocket(void*& zmqSocket)
    {
      if(zmqSocket != nullptr)
      {
        zmq_close(zmqSocket);
        zmqSocket = nullptr;
      }
    }

    bool Link::SendZmqMessage("""), (LKH, """      bool SendZmqMessage(""", """      void CloseZmqSocket(void*& zmqSocket);
      bool SendZmqMessage("""))
same('same-l-close-loop', (LK, DEI, """      if(mZmqContext != nullptr)
      {
        for(void** zmqSocket : {&mZmqServerPubSocket, &mZmqServerSubSocket, &mZmqClientPubSocket, &mZmqClientSubSocket})
        {
          if(*zmqSocket != nullptr)
          {
            zmq_close(*zmqSocket);
            *zmqSocket = nullptr;
          }
        }
"""))
INI = """      if(serverRoleIsEnabled)
      {
        std::string endpointAddressPub = "tcp://" + serverInterface + ":" + std::to_string(serverPortPub);
        std::string endpointAddressSub = "tcp://" + serverInterface + ":" + std::to_string(serverPortSub);
"""
same('same-l-endpoint-helper', (LK, INI, """      auto endpoint = [](const std::string& host, int port) {
        std::string address = "tcp://";
        address += host;
        address += ":";
        address += std::to_string(port);
        return address;
      };

      if(serverRoleIsEnabled)
      {
        const std::string endpointAddressPub = endpoint(serverInterface, serverPortPub);
        const std::string endpointAddressSub = endpoint(serverInterface, serverPortSub);
"""))
same('same-l-enabled-nested', (LK, """      bool serverRoleIsEnabled = GetCustomConfiguration().Get<bool>("server-role/enabled", false);
""", """      messages::Datagram& configuration = GetCustomConfiguration();
      const bool serverRoleIsEnabled = configuration.Get<bool>("server-role/enabled", false);
"""))

# ------------------------------------------------ bugs
bug('bug-l-echo', 'C23', (LK, "if(!message.WasSentBySender(this->GetIdentifier()))", "if(message.GetSender() != this->GetIdentifier())"))
bug('bug-l-echo-contains', 'C23', (LK, "if(!message.WasSentBySender(this->GetIdentifier()))", "if(message.GetSender().find(this->GetIdentifier()) == std::string::npos)"))
bug('bug-l-no-mark', 'C23', (LK, RUN2, RUN2.replace("            receivedMessage.PrependSender(this->GetIdentifier());\n", "")))
bug('bug-l-remove-sender', 'C23', (LK, RUN2, RUN2.replace("PrependSender(", "RemoveSender(")))
bug('bug-l-mark-noslash', 'C23', (MS, """mSender = senderName + "/" + mSender;""", """mSender = senderName + mSender;"""))
bug('bug-l-was-sent', 'C23', (MS, """    {
      return mSender.substr(0, senderName.size() + 1) == senderName + "/";""", """    {
      return mSender.substr(0, senderName.size()) == senderName;"""))
bug('bug-l-client-else', 'C23', (LK, """            if(mZmqClientPubSocket != nullptr)
            {
              std::lock_guard""", """            else if(mZmqClientPubSocket != nullptr)
            {
              std::lock_guard"""))
bug('bug-l-wrong-socket', ['C23', 'C24'], (LK, "SendZmqMessage(mZmqClientPubSocket, message)", "SendZmqMessage(mZmqServerPubSocket, message)"))
bug('bug-l-no-sndmore', 'C23', (LK, 'zmq_send(zmqSocket, "A", 1, ZMQ_SNDMORE)', 'zmq_send(zmqSocket, "A", 1, 0)'))
bug('bug-l-size-short', 'C23', (LK, "zmq_msg_init_size(&message, rawBytes->GetSize()) > -1", "zmq_msg_init_size(&message, rawBytes->GetSize() + 1) > -1"))
bug('bug-l-topic-frame-first', 'C23', (LK, """      if(zmq_msg_init_size(&message""", """      zmq_send(zmqSocket, "A", 1, ZMQ_SNDMORE);
      if(zmq_msg_init_size(&message"""), (LK, """        zmq_send(zmqSocket, "A", 1, ZMQ_SNDMORE);
        int sendResult""", """        int sendResult"""))
bug('bug-l-retry', 'C23', (LK, """                mLog.Warning("Failed to send message to client(s).");""", """                mLog.Warning("Failed to send message to client(s).");
                this->SendZmqMessage(mZmqClientPubSocket, message);"""))
bug('bug-l-topic-other', 'C23', (LK, 'zmq_setsockopt(mZmqClientSubSocket, ZMQ_SUBSCRIBE, "A", 1)', 'zmq_setsockopt(mZmqClientSubSocket, ZMQ_SUBSCRIBE, "B", 1)'))
bug('bug-l-sub-length', 'C23', (LK, 'zmq_setsockopt(mZmqClientSubSocket, ZMQ_SUBSCRIBE, "A", 1)', 'zmq_setsockopt(mZmqClientSubSocket, ZMQ_SUBSCRIBE, "A", 2)'))
bug('bug-l-no-subscribe', 'C23', (LK, '        zmq_setsockopt(mZmqServerSubSocket, ZMQ_SUBSCRIBE, "A", 1);\n', ''))
bug('bug-l-keep-topic', 'C23', (LK, "bool topicNameSkipped = false;", "bool topicNameSkipped = true;"))
bug('bug-l-last-part', 'C23', (LK, "                bytes->Append(messageData, messageSize);", "                bytes = std::make_shared<data::RawBytes>();\n                bytes->Append(messageData, messageSize);"))
bug('bug-l-one-part', 'C23', (LK, "} while(more > 0);", "} while(more > 0 && bytes->GetSize() == 0);"))
bug('bug-l-more-stale', 'C23', (LK, "              zmq_getsockopt(zmqSocket, ZMQ_RCVMORE, &more, &sizeOfMore);\n", "              more = bytes->GetSize() == 0;\n"))
bug('bug-l-after-close', 'C23', (LK, REC, REC.replace("                bytes->Append(messageData, messageSize);", "                zmq_msg_close(&messagePart);\n                bytes->Append(messageData, messageSize);")))
bug('bug-l-toggle', 'C23', (LK, """                bytes->Append(messageData, messageSize);
              }""", """                bytes->Append(messageData, messageSize);
                topicNameSkipped = false;
              }"""))
bug('bug-l-malformed-ends', 'C23', (LK, "catch(exceptions::InvalidOperationException& exception)", "catch(exceptions::KeyNotFoundException& exception)"))
bug('bug-l-malformed-published', 'C23', (LK, """            messages::Message::Deserialize(bytes);
            successfullyReceivedMessage = true;""" if False else """            receivedMessage = messages::Message::Deserialize(bytes);
            successfullyReceivedMessage = true;""", """            successfullyReceivedMessage = true;
            receivedMessage = messages::Message::Deserialize(bytes);"""))
bug('bug-l-starve', 'C23', (LK, """          if(mZmqContext != nullptr && ReceiveMessage(mZmqClientSubSocket, receivedMessage))""", """          if(mZmqContext != nullptr && receivedMessage.GetTopic().empty() && ReceiveMessage(mZmqClientSubSocket, receivedMessage))"""))
bug('bug-l-drop-empty-topic', 'C23', (LK, RUN1, RUN1.replace("            GetBus()->Publish(receivedMessage);", "            if(!receivedMessage.GetTopic().empty())\n            {\n              GetBus()->Publish(receivedMessage);\n            }")))
bug('bug-l-topic-as-sender', 'C23', (LK, RUN1, RUN1.replace("            GetBus()->Publish(receivedMessage);", "            GetBus()->Publish(messages::Message(receivedMessage.GetSender(), \"remote/\" + receivedMessage.GetTopic(), receivedMessage.GetDatagram()));")))
bug('bug-l-small-messages', 'C23', (LK, "if(bytes->GetSize() > 0)", "if(bytes->GetSize() > 8)"))
bug('bug-l-not-everything', 'C23', (LK, 'GetSubscriber("/**/*");', 'GetSubscriber("/**");'))
bug('bug-l-close-twice', 'C24', (LK, """          zmq_close(mZmqClientPubSocket);
""", """          zmq_close(mZmqClientPubSocket);
          zmq_close(mZmqClientPubSocket);
"""))
bug('bug-l-close-missing', 'C24', (LK, """          zmq_close(mZmqClientSubSocket);
""", ""))
bug('bug-l-close-else', 'C24', (LK, """        if(mZmqClientPubSocket != nullptr)
        {
          zmq_close""", """        else if(mZmqClientPubSocket != nullptr)
        {
          zmq_close"""))
bug('bug-l-term-first', 'C24', (LK, """        if(mZmqServerPubSocket != nullptr)
        {
          zmq_close(""", """        zmq_ctx_term(mZmqContext);
        if(mZmqServerPubSocket != nullptr)
        {
          zmq_close("""), (LK, """        mLog.Info("Terminating ZMQ context.");
        zmq_ctx_term(mZmqContext);
""", ""))
bug('bug-l-unsub-late', 'C24', (LK, """      DeleteSubscriber(mWildcardSubscriber);
      mWildcardSubscriber = nullptr;

      std::lock_guard""", """      std::lock_guard"""), (LK, """        mZmqContext = nullptr;
      }
    }
  } // namespace plugins""", """        mZmqContext = nullptr;
      }

      DeleteSubscriber(mWildcardSubscriber);
      mWildcardSubscriber = nullptr;
    }
  } // namespace plugins"""))
bug('bug-l-ctx-kept', 'C24', (LK, """        zmq_ctx_term(mZmqContext);
""", ""))
bug('bug-l-test-socket', 'C24', (LK, """        mZmqServerPubSocket = CreateZmqSocket(ZMQ_PUB);
""", """        void* probe = CreateZmqSocket(ZMQ_PUB);
        mLog.Info(probe != nullptr ? "Sockets available." : "No sockets available.");
        mZmqServerPubSocket = CreateZmqSocket(ZMQ_PUB);
"""))
bug('bug-l-two-threads', 'C24', (LK, """            receivedMessage.PrependSender(this->GetIdentifier());
            GetBus()->Publish(receivedMessage);
          }
        }

        Sleep""", """            receivedMessage.PrependSender(this->GetIdentifier());
            GetBus()->Publish(receivedMessage);

            if(mZmqServerPubSocket != nullptr)
            {
              SendZmqMessage(mZmqServerPubSocket, receivedMessage);
            }
          }
        }

        Sleep"""))
bug('bug-l-client-ports', 'C26', (LK, 'Get<int>("client-role/port-pub", 6968)', 'Get<int>("client-role/port-pub", 6967)'), (LK, 'Get<int>("client-role/port-sub", 6967)', 'Get<int>("client-role/port-sub", 6968)'))
bug('bug-l-host-key', 'C26', (LK, '"client-role/server-host"', '"client-role/host"'))
bug('bug-l-default-on', 'C26', (LK, '"client-role/enabled", false', '"client-role/enabled", true'))
bug('bug-l-sub-connects-pub', 'C26', (LK, "ConnectZmqSocket(mZmqClientSubSocket, endpointAddressSub)", "ConnectZmqSocket(mZmqClientSubSocket, endpointAddressPub)"))
bug('bug-l-one-role', 'C26', (LK, "if(clientRoleIsEnabled)", "if(clientRoleIsEnabled && !serverRoleIsEnabled)"))
bug('bug-l-port-plus', 'C26', (LK, 'std::string endpointAddressSub = "tcp://" + clientServerHost + ":" + std::to_string(clientPortSub);', 'std::string endpointAddressSub = "tcp://" + clientServerHost + ":" + std::to_string(clientPortPub - 1);'))
bug('bug-l-connect-server', 'C26', (LK, "BindZmqSocket(mZmqServerSubSocket, endpointAddressSub)", "ConnectZmqSocket(mZmqServerSubSocket, endpointAddressSub)"))
bug('bug-l-iface', 'C26', (LK, 'Get<std::string>("server-role/interface", "*")', 'Get<std::string>("client-role/interface", "*")'))
same('same-l-recv-forever', (LK, REC, """        bool isTopic = true;

        while(true)
        {
          zmq_msg_t part;
          zmq_msg_init(&part);

          if(zmq_msg_recv(&part, zmqSocket, ZMQ_DONTWAIT) == -1)
          {
            zmq_msg_close(&part);
            break;
          }

          if(!isTopic)
          {
            bytes->Append(zmq_msg_data(&part), zmq_msg_size(&part));
          }

          isTopic = false;
          const bool last = zmq_msg_more(&part) == 0;
          zmq_msg_close(&part);

          if(last)
          {
            break;
          }
        }
"""))
same('same-l-recv-early', (LK, REC, """        zmq_msg_t topicPart;
        zmq_msg_init(&topicPart);

        if(zmq_msg_recv(&topicPart, zmqSocket, ZMQ_DONTWAIT) < 0)
        {
          zmq_msg_close(&topicPart);
          return false;
        }

        int more = zmq_msg_more(&topicPart);
        zmq_msg_close(&topicPart);

        while(more)
        {
          zmq_msg_t messagePart;
          zmq_msg_init(&messagePart);

          if(zmq_msg_recv(&messagePart, zmqSocket, ZMQ_DONTWAIT) < 0)
          {
            more = 0;
          }
          else
          {
            bytes->Append(zmq_msg_data(&messagePart), zmq_msg_size(&messagePart));
            more = zmq_msg_more(&messagePart);
          }

          zmq_msg_close(&messagePart);
        }
"""))
same('same-l-run-unique-lock', (LK, RUN1, RUN1.replace("GetBus()->Publish(receivedMessage);", "serverSubLock.unlock();\n            GetBus()->Publish(receivedMessage);")),
     (LK, "std::lock_guard<std::mutex> serverSubLock(mServerSubMutex);\n\n          if", "std::unique_lock<std::mutex> serverSubLock(mServerSubMutex);\n\n          if"))
bug('bug-l-recv-forever-last', 'C23', (LK, REC, """        bool isTopic = true;

        while(true)
        {
          zmq_msg_t part;
          zmq_msg_init(&part);

          if(zmq_msg_recv(&part, zmqSocket, ZMQ_DONTWAIT) == -1)
          {
            zmq_msg_close(&part);
            break;
          }

          const bool last = zmq_msg_more(&part) == 0;

          if(!isTopic && !last)
          {
            bytes->Append(zmq_msg_data(&part), zmq_msg_size(&part));
          }

          isTopic = false;
          zmq_msg_close(&part);

          if(last)
          {
            break;
          }
        }
"""))
