R='src/lamppost/messages/RawDatagram.cpp'; RH='include/lamppost/messages/RawDatagram.h'
D='src/lamppost/messages/Datagram.cpp'; DH='include/lamppost/messages/Datagram.h'; DA='include/lamppost/messages/Data.h'
M='src/lamppost/messages/Message.cpp'; MH='include/lamppost/messages/Message.h'
RB='src/lamppost/data/RawBytes.cpp'; RBH='include/lamppost/data/RawBytes.h'; FS='src/lamppost/Filesystem.cpp'
LK='src/plugins/link/Link.cpp'; LC='include/lamppost/LampPostConfiguration.h'; PC='include/lamppost/plugin/PluginManagerConfiguration.h'
CASES=[]
def bug(n, props, *e): CASES.append((n, props if isinstance(props, list) else [props], list(e)))
def same(n, *e): CASES.append((n, [], list(e)))

# ---------------- behaviour-preserving: datagram operations
same('same-d-getcount-early', (R, """      int count;

      switch(mType) {
        case RawDatagramType::List:
          count = mList.size();
          break;

        case RawDatagramType::Dictionary:
          count = mDictionary.size();
          break;

        default:
          throw exceptions::InvalidOperationException("RawDatagram must be a list or a dictionary.");
          break;
      }

      return count;""", """      if(mType == RawDatagramType::List)
      {
        return mList.size();
      }

      if(mType != RawDatagramType::Dictionary)
      {
        throw exceptions::InvalidOperationException("RawDatagram must be a list or a dictionary.");
      }

      return mDictionary.size();"""))
same('same-d-remove-count', (R, """      std::map<std::string, std::shared_ptr<RawDatagram>>::iterator it = mDictionary.find(key);
      if(it == mDictionary.end())
      {
        throw exceptions::KeyNotFoundException(key, "Key not found in dictionary.");
      }

      mDictionary.erase(it);""", """      if(mDictionary.erase(key) == 0)
      {
        throw exceptions::KeyNotFoundException(key, "Key not found in dictionary.");
      }"""))
same('same-d-remove-exists', (R, """      std::map<std::string, std::shared_ptr<RawDatagram>>::iterator it = mDictionary.find(key);
      if(it == mDictionary.end())
      {
        throw exceptions::KeyNotFoundException(key, "Key not found in dictionary.");
      }

      mDictionary.erase(it);""", """      if(!KeyExists(key))
      {
        throw exceptions::KeyNotFoundException(key, "Key not found in dictionary.");
      }

      mDictionary.erase(key);"""))
same('same-d-keyexists-count', (R, "return mDictionary.find(key) != mDictionary.end();", "return mDictionary.count(key) > 0;"))
same('same-d-keyexists-count2', (R, "return mDictionary.find(key) != mDictionary.end();", "return mDictionary.count(key) != 0;"))
same('same-d-get-it', (R, """      if(mDictionary.find(key) == mDictionary.end())
      {
        mDictionary[key] = std::make_shared<RawDatagram>();
      }

      return mDictionary[key];""", """      auto it = mDictionary.find(key);

      if(it == mDictionary.end())
      {
        it = mDictionary.insert(std::make_pair(key, std::make_shared<RawDatagram>())).first;
      }

      return it->second;"""))
same('same-d-get-emplace', (R, """      if(mDictionary.find(key) == mDictionary.end())
      {
        mDictionary[key] = std::make_shared<RawDatagram>();
      }

      return mDictionary[key];""", """      if(!KeyExists(key))
      {
        mDictionary.emplace(key, std::make_shared<RawDatagram>());
      }

      return mDictionary.at(key);"""))
same('same-d-get-ref', (R, """      if(mDictionary.find(key) == mDictionary.end())
      {
        mDictionary[key] = std::make_shared<RawDatagram>();
      }

      return mDictionary[key];""", """      std::shared_ptr<RawDatagram>& entry = mDictionary[key];

      if(entry == nullptr)
      {
        entry = std::make_shared<RawDatagram>();
      }

      return entry;"""))
same('same-d-get-inverted', (R, """      if(mDictionary.find(key) == mDictionary.end())
      {
        mDictionary[key] = std::make_shared<RawDatagram>();
      }

      return mDictionary[key];""", """      const auto it = mDictionary.find(key);
      if(it != mDictionary.end())
      {
        return it->second;
      }

      std::shared_ptr<RawDatagram>& entry = mDictionary[key];
      entry = std::make_shared<RawDatagram>();
      return entry;"""))
BECOME = (RH, """      static void ParseJsonObject(""", """      void Become(RawDatagramType type)
      {
        if(mType != type)
        {
          mDictionary.clear();
          mList.clear();
          mValue = nullptr;
          mType = type;
        }
      }

      static void ParseJsonObject(""")
same('same-d-become-helper', BECOME, (R, """      if(mType != RawDatagramType::Dictionary)
      {
        mType = RawDatagramType::Dictionary;
        mList.clear();
        mValue = nullptr;
      }
""", "      Become(RawDatagramType::Dictionary);\n"), (R, """      if(mType != RawDatagramType::List)
      {
        mDictionary.clear();
        mValue = nullptr;

        mType = RawDatagramType::List;
      }
""", "      Become(RawDatagramType::List);\n"), (R, """      if(mType != RawDatagramType::Value)
      {
        mDictionary.clear();
        mList.clear();

        mType = RawDatagramType::Value;
      }

      mValue = data;""", "      Become(RawDatagramType::Value);\n      mValue = data;"), (RH, """        if(mType != RawDatagramType::Value)
        {
          mDictionary.clear();
          mList.clear();

          mType = RawDatagramType::Value;
        }

        mValue = std::make""", "        Become(RawDatagramType::Value);\n        mValue = std::make"))
same('same-d-listget-loop', (R, """      std::list<std::shared_ptr<RawDatagram>>::iterator it = mList.begin();
      std::advance(it, index);

      return *it;""", "      return *std::next(mList.begin(), index);"))
same('same-d-listremove-next', (R, """      std::list<std::shared_ptr<RawDatagram>>::iterator it = mList.begin();
      std::advance(it, index);

      mList.erase(it);""", "      mList.erase(std::next(mList.begin(), index));"))
same('same-d-listget-noreset', (R, """      if(mType != RawDatagramType::List)
      {
        mType = RawDatagramType::List;
        mDictionary.clear();
        mValue = nullptr;
      }

      std::list""", "      std::list"))
same('same-d-listget-order', (R, """      if(index >= mList.size())
      {
        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
      }

      if(mType != RawDatagramType::List)
      {
        mType = RawDatagramType::List;
        mDictionary.clear();
        mValue = nullptr;
      }
""", """      if(mType != RawDatagramType::List || !(index < mList.size()))
      {
        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
      }
"""))
same('same-d-add-emplace', (R, "mList.push_back(datagram);", "mList.emplace_back(std::move(datagram));"))
same('same-d-add-insert', (R, "mList.push_back(datagram);", "mList.insert(mList.end(), datagram);"))
same('same-d-clear-if', (R, """      switch(mType) {
        case RawDatagramType::List:
          mList.clear();
          break;

        case RawDatagramType::Dictionary:
          mDictionary.clear();
          break;

        default:
          throw exceptions::InvalidOperationException("RawDatagram must be a list or a dictionary.");
          break;
      }
    }

    RawDatagram& RawDatagram::operator=(int value)""", """      if(mType != RawDatagramType::List && mType != RawDatagramType::Dictionary)
      {
        throw exceptions::InvalidOperationException("RawDatagram must be a list or a dictionary.");
      }

      mList.clear();
      mDictionary.clear();
    }

    RawDatagram& RawDatagram::operator=(int value)"""))
same('same-d-ctor-if', (R, """      switch(mType)
      {
        case RawDatagramType::Value:
          mValue = std::make_shared<Data<int>>(0);
          break;

        default:
          mValue = nullptr;
          break;
      }""", """      if(mType == RawDatagramType::Value)
      {
        SetValue(0);
      }"""))
same('same-d-get-typed-early', (RH, """        if(data != nullptr)
        {
          return data->Get();
        }
        else
        {
          throw exceptions::InvalidOperationException("Wrong data type.");
        }""", """        if(!data)
        {
          throw exceptions::InvalidOperationException("Wrong data type.");
        }

        return data->Get();"""))
same('same-d-get-typed-is', (RH, """        std::shared_ptr<Data<T>> data = std::dynamic_pointer_cast<Data<T>>(mValue);

        if(data != nullptr)
        {
          return data->Get();
        }
        else
        {
          throw exceptions::InvalidOperationException("Wrong data type.");
        }""", """        if(!IsOfValueType<T>())
        {
          throw exceptions::InvalidOperationException("Wrong data type.");
        }

        return std::static_pointer_cast<Data<T>>(mValue)->Get();"""))
same('same-d-path-early', (RH, """        DataType returnValue = defaultValue;

        if(path.empty())
        {
          // TODO(fairlight1337): Check if the path contains list specific tokens.

          if(IsOfValueType<DataType>())
          {
            returnValue = Get<DataType>();
          }
        }
        else
        {
          std::string nextToken;
          std::string rest;

          size_t delimPos = path.find_first_of('/');
          if(delimPos == std::string::npos)
          {
            nextToken = path;
            rest = "";
          }
          else
          {
            nextToken = path.substr(0, delimPos);

            if(path.length() > delimPos + 1)
            {
              rest = path.substr(delimPos + 1);
            }
            else
            {
              rest = "";
            }
          }

          if(GetType() == RawDatagramType::Dictionary)
          {
            if(KeyExists(nextToken))
            {
              return mDictionary[nextToken]->Get<DataType>(rest, defaultValue);
            }
          }
        }

        return returnValue;""", """        if(path.empty())
        {
          return IsOfValueType<DataType>() ? Get<DataType>() : defaultValue;
        }

        const size_t delimPos = path.find('/');
        const std::string nextToken = path.substr(0, delimPos);
        const std::string rest = delimPos == std::string::npos ? std::string() : path.substr(delimPos + 1);

        if(mType != RawDatagramType::Dictionary || !KeyExists(nextToken))
        {
          return defaultValue;
        }

        return Get(nextToken)->Get<DataType>(rest, defaultValue);"""))
same('same-d-path-find', (RH, """          if(GetType() == RawDatagramType::Dictionary)
          {
            if(KeyExists(nextToken))
            {
              return mDictionary[nextToken]->Get<DataType>(rest, defaultValue);
            }
          }""", """          const auto it = mDictionary.find(nextToken);
          if(mType == RawDatagramType::Dictionary && it != mDictionary.end())
          {
            return it->second->template Get<DataType>(rest, defaultValue);
          }"""))
same('same-d-copy-refs', (R, "for(std::pair<std::string, std::shared_ptr<RawDatagram>> pair : mDictionary)\n          {\n            (*copy)[pair.first] = pair.second->Copy();", "for(const auto& entry : mDictionary)\n          {\n            copy->mDictionary[entry.first] = entry.second->Copy();"))
same('same-d-copy-iter', (R, """          for(const std::shared_ptr<RawDatagram>& listItem : mList)
          {
            copy->Add(listItem->Copy());
          }
        } break;""", """          for(auto it = mList.begin(); it != mList.end(); ++it)
          {
            copy->mList.push_back((*it)->Copy());
          }
        } break;"""))
same('same-d-copy-if', (R, """        case RawDatagramType::Value:
        {
          *copy = mValue->Copy();
        } break;
      }

      return copy;""", """        case RawDatagramType::Value:
          copy->mValue = mValue->Copy();
          break;
      }

      return copy;"""))
same('same-d-copy-ctor', (R, """      std::shared_ptr<RawDatagram> copy = std::make_shared<RawDatagram>();
      copy->mType = mType;
""", """      auto copy = std::make_shared<RawDatagram>(mType);
"""))
same('same-d-copy-emplace', (R, "(*copy)[pair.first] = pair.second->Copy();", "copy->mDictionary.emplace(pair.first, pair.second->Copy());"))
same('same-d-copy-transform', (R, """          for(const std::shared_ptr<RawDatagram>& listItem : mList)
          {
            copy->Add(listItem->Copy());
          }
        } break;""", """          std::for_each(mList.begin(), mList.end(), [&copy](const std::shared_ptr<RawDatagram>& item) { copy->Add(item->Copy()); });
        } break;"""))
same('same-d-eq-early', (R, """      bool isEqual = false;

      if(rhs.mType == mType)
      {
        switch(mType)
        {
          case RawDatagramType::Empty:
          {
            isEqual = true;
          } break;

          case RawDatagramType::Value:
          {
            isEqual = rhs.mValue != nullptr && mValue != nullptr && rhs.mValue->Equals(mValue);
          } break;
""", """      if(rhs.mType != mType)
      {
        return false;
      }

      bool isEqual = false;

      {
        switch(mType)
        {
          case RawDatagramType::Empty:
            return true;

          case RawDatagramType::Value:
            return mValue != nullptr && rhs.mValue != nullptr && mValue->Equals(rhs.mValue);
"""))
same('same-d-eq-list-early', (R, """            if(rhs.mList.size() == mList.size())
            {
              isEqual = true;

              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterOwn = mList.begin();
              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterRhs = rhs.mList.begin();

              while(iterOwn != mList.end())
              {
                if(**iterOwn != **iterRhs)
                {
                  isEqual = false;
                  break;
                }

                iterOwn++;
                iterRhs++;
              }
            }
""", """            if(rhs.mList.size() != mList.size())
            {
              return false;
            }

            auto iterRhs = rhs.mList.begin();
            for(const auto& item : mList)
            {
              if(*item != **iterRhs)
              {
                return false;
              }

              ++iterRhs;
            }

            return true;
"""))
same('same-d-eq-list-std', (R, """              isEqual = true;

              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterOwn = mList.begin();
              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterRhs = rhs.mList.begin();

              while(iterOwn != mList.end())
              {
                if(**iterOwn != **iterRhs)
                {
                  isEqual = false;
                  break;
                }

                iterOwn++;
                iterRhs++;
              }
""", """              isEqual = std::equal(mList.begin(), mList.end(), rhs.mList.begin(),
                                   [](const std::shared_ptr<RawDatagram>& a, const std::shared_ptr<RawDatagram>& b) { return *a == *b; });
"""))
same('same-d-eq-list-for', (R, """              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterOwn = mList.begin();
              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterRhs = rhs.mList.begin();

              while(iterOwn != mList.end())
              {
                if(**iterOwn != **iterRhs)
                {
                  isEqual = false;
                  break;
                }

                iterOwn++;
                iterRhs++;
              }
""", """              for(auto a = mList.begin(), b = rhs.mList.begin(); isEqual && a != mList.end(); ++a, ++b)
              {
                isEqual = (**a == **b);
              }
"""))
same('same-d-eq-dict-ref', (R, """              for(std::pair<std::string, std::shared_ptr<RawDatagram>> pair : mDictionary)
              {
                std::string key = pair.first;
                std::map<std::string, std::shared_ptr<RawDatagram>>::const_iterator iterRhs = rhs.mDictionary.find(key);

                if((iterRhs == rhs.mDictionary.end()) || (*(*iterRhs).second != *(pair.second)))
                {
                  isEqual = false;
                  break;
                }
              }""", """              for(const auto& entry : mDictionary)
              {
                const auto other = rhs.mDictionary.find(entry.first);

                if(other == rhs.mDictionary.end())
                {
                  return false;
                }

                if(!(*other->second == *entry.second))
                {
                  return false;
                }
              }"""))
same('same-d-eq-helper', (RH, "      bool operator==(const RawDatagram& rhs) const;", """      bool SameLists(const RawDatagram& rhs) const
      {
        if(mList.size() != rhs.mList.size()) return false;
        auto b = rhs.mList.begin();
        for(auto a = mList.begin(); a != mList.end(); ++a, ++b)
        {
          if(**a != **b) return false;
        }
        return true;
      }

      bool operator==(const RawDatagram& rhs) const;"""), (R, """            if(rhs.mList.size() == mList.size())
            {
              isEqual = true;

              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterOwn = mList.begin();
              std::list<std::shared_ptr<RawDatagram>>::const_iterator iterRhs = rhs.mList.begin();

              while(iterOwn != mList.end())
              {
                if(**iterOwn != **iterRhs)
                {
                  isEqual = false;
                  break;
                }

                iterOwn++;
                iterRhs++;
              }
            }
""", "            isEqual = SameLists(rhs);\n"))
same('same-d-data-eq', (DA, """        bool isEqual = false;
        std::shared_ptr<Data<T>> data = std::dynamic_pointer_cast<Data<T>>(rhs);

        if(data != nullptr)
        {
          isEqual = (data->Get() == this->Get());
        }

        return isEqual;""", """        const auto data = std::dynamic_pointer_cast<Data<T>>(rhs);

        return data != nullptr && data->mValue == mValue;"""))
same('same-d-datagram-index', (DH, """        std::shared_ptr<RawDatagram> rawDatagram = (*mRawDatagram)[key];
        if(rawDatagram == nullptr)
        {
          (*mRawDatagram)[key] = std::make_shared<RawDatagram>();
          rawDatagram = (*mRawDatagram)[key];
        }

        return Datagram(rawDatagram);""", """        return Datagram(mRawDatagram->Get(key));"""))
same('same-d-datagram-copy', (D, """      : mRawDatagram(std::make_shared<RawDatagram>())
    {
      if(datagram.mRawDatagram != nullptr)
      {
        *mRawDatagram = *(datagram.mRawDatagram->Copy());
      }
    }""", """      : mRawDatagram(datagram.mRawDatagram != nullptr ? datagram.mRawDatagram->Copy() : std::make_shared<RawDatagram>())
    {
    }"""))
same('same-d-message-eq', (M, "return rhs.mSender == mSender && rhs.mTopic == mTopic && rhs.mDatagram == mDatagram;", """if(mSender != rhs.mSender)
      {
        return false;
      }

      return mTopic == rhs.mTopic && mDatagram == rhs.mDatagram;"""))

# ---------------- behaviour-preserving: wire
same('same-w-ser-if', (R, """          for(const std::shared_ptr<RawDatagram>& listItem : mList)
          {
            listContentRaw.push_back(listItem->SerializeToStructure(builder));
          }
          break;""", """          listContentRaw.reserve(mList.size());
          for(auto it = mList.cbegin(); it != mList.cend(); ++it)
          {
            listContentRaw.emplace_back((*it)->SerializeToStructure(builder));
          }
          break;"""))
same('same-w-ser-ref', (R, "for(std::pair<std::string, std::shared_ptr<RawDatagram>> dictionaryItem : mDictionary)", "for(const auto& dictionaryItem : mDictionary)"))
same('same-w-ser-direct', (R, """          if(IsOfValueType<std::string>())
          {
            valueType = schemas::ValueType::ValueType_String;
            stringContent = builder.CreateString(Get<std::string>());
          }
          else if(IsOfValueType<int>())
          {
            valueType = schemas::ValueType::ValueType_Integer;
            integerContent = Get<int>();
          }""", """          if(IsOfValueType<int>())
          {
            integerContent = Get<int>();
            valueType = schemas::ValueType::ValueType_Integer;
          }
          else if(IsOfValueType<std::string>())
          {
            const std::string content = Get<std::string>();
            stringContent = builder.CreateString(content);
            valueType = schemas::ValueType::ValueType_String;
          }"""))
same('same-w-ser-builder', (R, """      return schemas::CreateFBDatagram(
        builder,
        datagramType,
        valueType,
        stringContent,
        integerContent,
        doubleContent,
        booleanContent,
        listContent,
        dictionaryKeysContent,
        dictionaryValuesContent);""", """      schemas::FBDatagramBuilder tableBuilder(builder);
      tableBuilder.add_datagram_type(datagramType);
      tableBuilder.add_value_type(valueType);
      tableBuilder.add_string_content(stringContent);
      tableBuilder.add_integer_content(integerContent);
      tableBuilder.add_double_content(doubleContent);
      tableBuilder.add_boolean_content(booleanContent);
      tableBuilder.add_list_content(listContent);
      tableBuilder.add_dictionary_keys(dictionaryKeysContent);
      tableBuilder.add_dictionary_contents(dictionaryValuesContent);

      return tableBuilder.Finish();"""))
same('same-w-des-locals', (R, """          unsigned int length = structure->list_content() != nullptr ? structure->list_content()->size() : 0;

          for(unsigned int i = 0; i < length; ++i)
          {
            rawDatagram->Add(RawDatagram::DeserializeFromStructure(structure->list_content()->operator[](i)));
          }""", """          const auto* items = structure->list_content();

          if(items != nullptr)
          {
            for(flatbuffers::uoffset_t i = 0; i < items->size(); i++)
            {
              rawDatagram->Add(DeserializeFromStructure(items->Get(i)));
            }
          }"""))
same('same-w-des-range', (R, """          unsigned int length = structure->list_content() != nullptr ? structure->list_content()->size() : 0;

          for(unsigned int i = 0; i < length; ++i)
          {
            rawDatagram->Add(RawDatagram::DeserializeFromStructure(structure->list_content()->operator[](i)));
          }""", """          if(structure->list_content() != nullptr)
          {
            for(const schemas::FBDatagram* item : *structure->list_content())
            {
              rawDatagram->Add(RawDatagram::DeserializeFromStructure(item));
            }
          }"""))
same('same-w-des-dict', (R, """          unsigned int length = 0;

          if(structure->dictionary_keys() != nullptr && structure->dictionary_contents() != nullptr)
          {
            length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
          }

          for(unsigned int i = 0; i < length; ++i)
          {
            rawDatagram->operator[](structure->dictionary_keys()->operator[](i)->str()) = RawDatagram::DeserializeFromStructure(structure->dictionary_contents()->operator[](i));
          }""", """          const auto* keys = structure->dictionary_keys();
          const auto* contents = structure->dictionary_contents();

          if(keys == nullptr || contents == nullptr)
          {
            break;
          }

          for(unsigned int i = 0; i < keys->size() && i < contents->size(); ++i)
          {
            const std::string key = keys->Get(i)->str();
            (*rawDatagram)[key] = DeserializeFromStructure(contents->Get(i));
          }"""))
same('same-w-msg-helper', (M, """      if(!schemas::VerifyFBMessageBuffer(verifier))
      {
        throw exceptions::InvalidOperationException("Bytes do not contain a message.");
      }

      const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
      if(deserializedMessage->sender() == nullptr || deserializedMessage->topic() == nullptr || deserializedMessage->datagram() == nullptr)
      {
        throw exceptions::InvalidOperationException("Message is incomplete.");
      }
""", """      const bool valid = schemas::VerifyFBMessageBuffer(verifier);
      if(!valid)
      {
        throw exceptions::InvalidOperationException("Bytes do not contain a message.");
      }

      const auto* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
      const bool complete = deserializedMessage->sender() && deserializedMessage->topic() && deserializedMessage->datagram();
      if(!complete)
      {
        throw exceptions::InvalidOperationException("Message is incomplete.");
      }
"""))
same('same-w-msg-options', (M, """      flatbuffers::Verifier verifier(static_cast<const uint8_t*>(bytesToDeserialize->GetContent()), bytesToDeserialize->GetSize(), MAXIMUM_DEPTH, MAXIMUM_TABLES);""", """      const uint8_t* content = static_cast<const uint8_t*>(bytesToDeserialize->GetContent());
      const std::size_t size = bytesToDeserialize->GetSize();
      flatbuffers::Verifier verifier(content, size, MAXIMUM_DEPTH, MAXIMUM_TABLES);"""))
same('same-w-msg-locals', (M, """      return messages::Message(
        deserializedMessage->sender()->str(),
        deserializedMessage->topic()->str(),
        Datagram::DeserializeFromStructure(deserializedMessage->datagram()));""", """      const std::string sender = deserializedMessage->sender()->str();
      const std::string topic = deserializedMessage->topic()->str();
      const Datagram datagram = Datagram::DeserializeFromStructure(deserializedMessage->datagram());

      return messages::Message(sender, topic, datagram);"""))
same('same-w-msg-ser', (M, """      flatbuffers::Offset<flatbuffers::String> sender = flatBufferBuilder.CreateString(GetSender());
      flatbuffers::Offset<flatbuffers::String> topic = flatBufferBuilder.CreateString(GetTopic());
      flatbuffers::Offset<schemas::FBDatagram> serializedDatagram = mDatagram.SerializeToStructure(flatBufferBuilder);
""", """      auto serializedDatagram = mDatagram.SerializeToStructure(flatBufferBuilder);
      auto topic = flatBufferBuilder.CreateString(mTopic);
      auto sender = flatBufferBuilder.CreateString(mSender);
"""))

# ---------------- behaviour-preserving: JSON
same('same-j-early', (R, """      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
      error = tok->err;

      if(error == json_tokener_success)
      {
        ParseJsonObject(jobj, rawDatagram);
      }

      json_object_put(jobj);""", """      jobj = json_tokener_parse_ex(tok, json.c_str(), static_cast<int>(json.size()) + 1);
      error = json_tokener_get_error(tok);

      if(error != json_tokener_success)
      {
        json_object_put(jobj);
        json_tokener_free(tok);

        return rawDatagram;
      }

      ParseJsonObject(jobj, rawDatagram);

      json_object_put(jobj);"""))
same('same-j-if', (R, """        case json_type_boolean:
        {
          *root = static_cast<bool>(json_object_get_boolean(jobj));
        } break;
""", """        case json_type_boolean:
        {
          const bool value = json_object_get_boolean(jobj) != 0;
          *root = value;
        } break;
"""))
same('same-j-array', (R, """          json_object* jarray = jobj, *jvalue;

          for(size_t i = 0; i < json_object_array_length(jarray); i++)
          {
            jvalue = json_object_array_get_idx(jarray, i);
            std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
            ParseJsonObject(jvalue, rawChildDatagram);

            root->Add(rawChildDatagram);
          }""", """          const size_t length = json_object_array_length(jobj);

          for(size_t i = 0; i < length; ++i)
          {
            auto element = std::make_shared<RawDatagram>();
            ParseJsonObject(json_object_array_get_idx(jobj, i), element);
            root->Add(element);
          }"""))
same('same-j-helper', (RH, "      static void ParseJsonObject(", """      static std::shared_ptr<RawDatagram> ParseChild(json_object* jobj)
      {
        std::shared_ptr<RawDatagram> child = std::make_shared<RawDatagram>();
        ParseJsonObject(jobj, child);
        return child;
      }

      static void ParseJsonObject("""), (R, """            jvalue = json_object_array_get_idx(jarray, i);
            std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
            ParseJsonObject(jvalue, rawChildDatagram);

            root->Add(rawChildDatagram);""", """            jvalue = json_object_array_get_idx(jarray, i);
            root->Add(ParseChild(jvalue));"""), (R, """            std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
            ParseJsonObject(val, rawChildDatagram);

            root->operator[](key) = rawChildDatagram;""", """            (*root)[key] = ParseChild(val);"""))
same('same-j-member-first', (R, """            std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
            ParseJsonObject(val, rawChildDatagram);

            root->operator[](key) = rawChildDatagram;""", """            const std::string name = key;
            std::shared_ptr<RawDatagram> member = std::make_shared<RawDatagram>();
            ParseJsonObject(val, member);
            root->Get(name) = member;"""))

# ---------------- behaviour-preserving: bytes
same('same-b-append', (RB, """      if(mContent == nullptr)
      {
        mContent = static_cast<void*>(new char[size]);
        memcpy(mContent, data, size);
        mSize = size;
      }
      else
      {
        char* swapBuffer = new char[mSize + size];
        memcpy(swapBuffer, mContent, mSize);
        memcpy(&swapBuffer[mSize], data, size);

        delete[] static_cast<char*>(mContent);
        mContent = swapBuffer;
        mSize += size;
      }""", """      if(mContent == nullptr)
      {
        mSize = size;
        mContent = new char[mSize];
        std::memcpy(mContent, data, mSize);

        return;
      }

      const std::size_t newSize = mSize + size;
      char* newContent = new char[newSize];
      std::memcpy(newContent, mContent, mSize);
      std::memcpy(newContent + mSize, data, size);

      delete[] static_cast<char*>(mContent);
      mContent = newContent;
      mSize = newSize;"""))
same('same-b-append-copy', (RB, """        memcpy(swapBuffer, mContent, mSize);
        memcpy(&swapBuffer[mSize], data, size);
""", """        std::copy(static_cast<char*>(mContent), static_cast<char*>(mContent) + mSize, swapBuffer);
        std::copy(static_cast<const char*>(data), static_cast<const char*>(data) + size, swapBuffer + mSize);
"""))
same('same-b-append-loop', (RB, """        memcpy(&swapBuffer[mSize], data, size);
""", """        for(std::size_t i = 0; i < size; ++i)
        {
          swapBuffer[mSize + i] = static_cast<const char*>(data)[i];
        }
"""))
same('same-b-dtor', (RB, """      if(mContent != nullptr)
      {
        delete[] static_cast<char*>(mContent);
      }
    }""", """      delete[] static_cast<char*>(mContent);
    }"""))
same('same-b-ctor', (RB, """      : mSize(size)
    {
      if(content == nullptr)
      {
        throw exceptions::ArgumentNullException("content", "Content may not be null.");
      }

      mContent = static_cast<void*>(new char[size]);
      std::memcpy(mContent, content, size);
    }""", """      : RawBytes()
    {
      if(!content)
      {
        throw exceptions::ArgumentNullException("content", "Content may not be null.");
      }

      Append(content, size);
    }"""))
same('same-b-helper', (RBH, "      void* mContent;", """      static char* Duplicate(const void* data, std::size_t size)
      {
        char* copy = new char[size];
        std::memcpy(copy, data, size);
        return copy;
      }

      void* mContent;"""), (RB, """      mContent = static_cast<void*>(new char[size]);
      std::memcpy(mContent, content, size);""", "      mContent = Duplicate(content, size);"), (RB, """        mContent = static_cast<void*>(new char[size]);
        memcpy(mContent, data, size);
        mSize = size;""", "        mContent = Duplicate(data, size);\n        mSize = size;"))
same('same-b-exe', (FS, """    int bytes = std::min(static_cast<int>(readlink(procExePath.c_str(), static_cast<char*>(buffer), bufferLength)), bufferLength - 1);

    if(bytes >= 0) {
      buffer[bytes] = '\\0';
      path = static_cast<char*>(buffer);
    }""", """    const ssize_t bytes = readlink(procExePath.c_str(), buffer, sizeof(buffer) - 1);
    if(bytes > -1) {
      buffer[bytes] = '\\0';
      path = buffer;
    }"""))
same('same-b-exe2', (FS, """    if(bytes >= 0) {
      buffer[bytes] = '\\0';
      path = static_cast<char*>(buffer);
    }""", """    if(bytes >= 0) {
      path.assign(buffer, bytes);
    }"""))

# ---------------- bugs: operations
bug('bug-d-remove-silent', 'C09', (R, """        throw exceptions::KeyNotFoundException(key, "Key not found in dictionary.");
      }

      mDictionary.erase(it);""", """        return;
      }

      mDictionary.erase(it);"""))
bug('bug-d-remove-index-off', 'C09', (R, """      if(index >= mList.size())
      {
        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
      }

      std::list<std::shared_ptr<RawDatagram>>::iterator it = mList.begin();
      std::advance(it, index);

      mList.erase(it);""", """      if(index > mList.size())
      {
        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
      }

      std::list<std::shared_ptr<RawDatagram>>::iterator it = mList.begin();
      std::advance(it, index);

      mList.erase(it);"""))
bug('bug-d-listget-changes', ['C09'], (R, """      if(index >= mList.size())
      {
        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
      }

      if(mType != RawDatagramType::List)
      {
        mType = RawDatagramType::List;
        mDictionary.clear();
        mValue = nullptr;
      }
""", """      if(mType != RawDatagramType::List)
      {
        mType = RawDatagramType::List;
        mDictionary.clear();
        mValue = nullptr;
      }

      if(index >= mList.size())
      {
        throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
      }
"""))
bug('bug-d-get-overwrites', ['C09', 'C13'], (R, """        mType = RawDatagramType::Dictionary;
        mList.clear();
        mValue = nullptr;
      }
""", """        mType = RawDatagramType::Dictionary;
        mList.clear();
      }
"""))
bug('bug-d-add-keeps-dict', 'C13', (R, """        mDictionary.clear();
        mValue = nullptr;

        mType = RawDatagramType::List;""", """        mValue = nullptr;

        mType = RawDatagramType::List;"""))
bug('bug-d-add-front', 'C13', (R, "mList.push_back(datagram);", "mList.push_front(datagram);"))
bug('bug-d-setvalue-keeps', 'C13', (RH, """          mDictionary.clear();
          mList.clear();

          mType = RawDatagramType::Value;
        }

        mValue = std::make""", """          mDictionary.clear();

          mType = RawDatagramType::Value;
        }

        mValue = std::make"""))
bug('bug-d-setvalue-type-only', 'C13', (RH, """        if(mType != RawDatagramType::Value)
        {
          mDictionary.clear();
          mList.clear();

          mType = RawDatagramType::Value;
        }

        mValue = std::make_shared<Data<T>>(value);""", """        if(mType != RawDatagramType::Value)
        {
          mDictionary.clear();
          mList.clear();

          mType = RawDatagramType::Value;
          mValue = std::make_shared<Data<T>>(value);
        }
        else if(!IsOfValueType<T>())
        {
          mValue = std::make_shared<Data<T>>(value);
        }"""))
bug('bug-d-ctor-value-null', 'C13', (R, "          mValue = std::make_shared<Data<int>>(0);\n", "          mValue = nullptr;\n"))
bug('bug-d-clear-other', 'C09', (R, """        case RawDatagramType::Dictionary:
          mDictionary.clear();
          break;

        default:
          throw exceptions::InvalidOperationException("RawDatagram must be a list or a dictionary.");
          break;
      }
    }

    RawDatagram& RawDatagram::operator=(int""", """        case RawDatagramType::Dictionary:
          mList.clear();
          break;

        default:
          throw exceptions::InvalidOperationException("RawDatagram must be a list or a dictionary.");
          break;
      }
    }

    RawDatagram& RawDatagram::operator=(int"""))
bug('bug-d-path-empty-part', 'C09', (RH, "            nextToken = path.substr(0, delimPos);", "            nextToken = path.substr(0, delimPos > 0 ? delimPos : 1);"))
bug('bug-d-path-default-lost', 'C09', (RH, "return mDictionary[nextToken]->Get<DataType>(rest, defaultValue);", "return mDictionary[nextToken]->Get<DataType>(rest);"))
bug('bug-d-path-creates', 'C09', (RH, """            if(KeyExists(nextToken))
            {
              return mDictionary[nextToken]->Get<DataType>(rest, defaultValue);
            }""", """            return Get(nextToken)->Get<DataType>(rest, defaultValue);"""))
bug('bug-d-path-throws', 'C09', (RH, """          if(IsOfValueType<DataType>())
          {
            returnValue = Get<DataType>();
          }""", """          if(mType == RawDatagramType::Value)
          {
            returnValue = Get<DataType>();
          }"""))
bug('bug-d-copy-shares-list', 'C12', (R, "copy->Add(listItem->Copy());", "copy->Add(listItem);"))
bug('bug-d-copy-shares-value', 'C12', (R, "*copy = mValue->Copy();", "*copy = mValue;"))
bug('bug-d-data-copy-shares', 'C12', (R, "(*copy)[pair.first] = pair.second->Copy();", "(*copy)[pair.first] = pair.second;"))
bug('bug-d-copy-empty-dropped', 'C12', (R, "            copy->Add(listItem->Copy());", "            if(listItem->GetType() != RawDatagramType::Empty)\n            {\n              copy->Add(listItem->Copy());\n            }"))
bug('bug-d-copy-type-lost', 'C12', (R, "      copy->mType = mType;\n", ""))
bug('bug-d-copy-datagram-shallow', 'C12', (D, "*mRawDatagram = *(datagram.mRawDatagram->Copy());", "*mRawDatagram = *datagram.mRawDatagram;"))
bug('bug-d-assign-shallow', 'C12', (DH, "*mRawDatagram = *(otherDatagram.mRawDatagram->Copy());", "*mRawDatagram = *otherDatagram.mRawDatagram;"))
bug('bug-d-eq-list-prefix', 'C17', (R, "            if(rhs.mList.size() == mList.size())", "            if(rhs.mList.size() >= mList.size())"))
bug('bug-d-eq-dict-missing', 'C17', (R, "if((iterRhs == rhs.mDictionary.end()) || (*(*iterRhs).second != *(pair.second)))", "if((iterRhs != rhs.mDictionary.end()) && (*(*iterRhs).second != *(pair.second)))"))
bug('bug-d-eq-dict-size', 'C17', (R, "            if(rhs.mDictionary.size() == mDictionary.size())", "            if(!rhs.mDictionary.empty() || mDictionary.empty())"))
bug('bug-d-eq-list-last', 'C17', (R, """                if(**iterOwn != **iterRhs)
                {
                  isEqual = false;
                  break;
                }
""", """                isEqual = !(**iterOwn != **iterRhs);
"""))
bug('bug-d-eq-type', 'C17', (R, "      if(rhs.mType == mType)\n", "      if(rhs.mType == mType || mType == RawDatagramType::Empty)\n"))
bug('bug-d-eq-self', 'C17', (R, "rhs.mValue->Equals(mValue)", "rhs.mValue->Equals(rhs.mValue)"))
bug('bug-d-msg-eq', 'C17', (M, "rhs.mTopic == mTopic && ", ""))
# ---------------- bugs: wire
bug('bug-w-int-slot', 'C14', (R, "            integerContent = Get<int>();", "            integerContent = static_cast<int16_t>(Get<int>());"))
bug('bug-w-double-float', 'C14', (R, "            doubleContent = Get<double>();", "            doubleContent = static_cast<float>(Get<double>());"))
bug('bug-w-des-list-order', 'C14', (R, "structure->list_content()->operator[](i)));", "structure->list_content()->operator[](length - 1 - i)));"))
bug('bug-w-des-short', 'C14', (R, "          for(unsigned int i = 0; i < length; ++i)\n          {\n            rawDatagram->Add", "          for(unsigned int i = 0; i + 1 < length; ++i)\n          {\n            rawDatagram->Add"))
bug('bug-w-bool-string', 'C14', (R, "            valueType = schemas::ValueType::ValueType_Boolean;", "            valueType = schemas::ValueType::ValueType_Integer;"))
bug('bug-w-swap', 'C14', (R, "        listContent,\n        dictionaryKeysContent,", "        dictionaryValuesContent,\n        dictionaryKeysContent,"))
bug('bug-w-cstr', 'C14', (R, "builder.CreateString(Get<std::string>());", "builder.CreateString(Get<std::string>().c_str());"))
bug('bug-w-cstr2', 'C14', (R, "structure->string_content()->str() : std::string()", "std::string(structure->string_content()->c_str()) : std::string()"))
bug('bug-w-empty-list', 'C14', (R, "          *rawDatagram = RawDatagram(RawDatagramType::List);\n\n          unsigned int", "          unsigned int"))
bug('bug-w-msg-swap', 'C14', (M, "flatBufferBuilder, sender, topic, serializedDatagram);", "flatBufferBuilder, topic, sender, serializedDatagram);"))
bug('bug-w-msg-size', ['C14'], (M, "flatBufferBuilder.GetBufferPointer(), flatBufferBuilder.GetSize());", "flatBufferBuilder.GetBufferPointer(), flatBufferBuilder.GetSize() & ~3u);"))
bug('bug-w-key', 'C14', (R, "dictionaryKeysContentRaw.push_back(builder.CreateString(dictionaryItem.first));", "dictionaryKeysContentRaw.push_back(builder.CreateString(dictionaryItem.first.c_str()));"))
# ---------------- bugs: untrusted bytes
bug('bug-u-noverify', 'C16', (M, """      if(!schemas::VerifyFBMessageBuffer(verifier))
      {""", """      if(bytesToDeserialize->GetSize() < 1024 && !schemas::VerifyFBMessageBuffer(verifier))
      {"""))
bug('bug-u-size', 'C16', (M, "bytesToDeserialize->GetSize(), MAXIMUM_DEPTH", "bytesToDeserialize->GetSize() + 8, MAXIMUM_DEPTH"))
bug('bug-u-depth', 'C16', (M, "bytesToDeserialize->GetSize(), MAXIMUM_DEPTH, MAXIMUM_TABLES);", "bytesToDeserialize->GetSize());"))
bug('bug-u-nulltopic', 'C16', (M, " || deserializedMessage->topic() == nullptr", ""))
bug('bug-u-liststr', 'C16', (R, "structure->list_content() != nullptr ? structure->list_content()->size() : 0;", "structure->list_content()->size();"))
bug('bug-u-dictlen', 'C16', (R, "length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());", "length = structure->dictionary_keys()->size();"))
bug('bug-u-dictnull', 'C16', (R, "if(structure->dictionary_keys() != nullptr && structure->dictionary_contents() != nullptr)", "if(structure->dictionary_keys() != nullptr || structure->dictionary_contents() != nullptr)"))
bug('bug-u-strnull', 'C16', (R, "structure->string_content() != nullptr ? structure->string_content()->str() : std::string()", "structure->string_content()->str()"))
bug('bug-u-error', 'C16', (M, 'throw exceptions::InvalidOperationException("Bytes do not contain a message.");', "return messages::Message();"))
bug('bug-u-off', 'C16', (R, "          for(unsigned int i = 0; i < length; ++i)\n          {\n            rawDatagram->Add", "          for(unsigned int i = 0; i <= length; ++i)\n          {\n            rawDatagram->Add"))
# ---------------- bugs: JSON
bug('bug-j-len', 'C15', (R, "json.length() + 1);", "json.length());"))
bug('bug-j-double', 'C15', (R, "*root = json_object_get_double(jobj);", "*root = static_cast<double>(json_object_get_int(jobj));"))
bug('bug-j-skipnull', 'C15', (R, "            root->Add(rawChildDatagram);", "            if(rawChildDatagram->GetType() != RawDatagramType::Empty)\n            {\n              root->Add(rawChildDatagram);\n            }"))
bug('bug-j-first', 'C15', (R, "for(size_t i = 0; i < json_object_array_length(jarray); i++)", "for(size_t i = 1; i < json_object_array_length(jarray); i++)"))
bug('bug-j-shared-child', 'C15', (R, """          for(size_t i = 0; i < json_object_array_length(jarray); i++)
          {
            jvalue = json_object_array_get_idx(jarray, i);
            std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
""", """          std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
          for(size_t i = 0; i < json_object_array_length(jarray); i++)
          {
            jvalue = json_object_array_get_idx(jarray, i);
"""))
bug('bug-j-nullmember', 'C15', (R, """            std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
            ParseJsonObject(val, rawChildDatagram);

            root->""", """            if(val == nullptr)
            {
              continue;
            }
            std::shared_ptr<RawDatagram> rawChildDatagram = std::make_shared<RawDatagram>();
            ParseJsonObject(val, rawChildDatagram);

            root->"""))
bug('bug-j-boolint', 'C15', (R, "*root = static_cast<bool>(json_object_get_boolean(jobj));", "*root = static_cast<int>(json_object_get_boolean(jobj));"))
bug('bug-j-strlen', 'C15', (R, "std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));", "std::string(json_object_get_string(jobj));"))
bug('bug-j-tostring', 'C15', (R, "std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));", "std::string(json_object_to_json_string(jobj));"))
bug('bug-j-emptyobj', 'C15', (R, "          *root = RawDatagram(RawDatagramType::Dictionary);\n\n          // Note", "          // Note"))
# ---------------- bugs: bytes
bug('bug-b-size', 'C18', (RB, "        mSize += size;", "        mSize = size;"))
bug('bug-b-alloc', 'C18', (RB, "new char[mSize + size];", "new char[size];"))
bug('bug-b-order', 'C18', (RB, "memcpy(&swapBuffer[mSize], data, size);", "memcpy(swapBuffer, data, size);"))
bug('bug-b-leak', 'C18', (RB, "        delete[] static_cast<char*>(mContent);\n        mContent = swap", "        mContent = swap"))
bug('bug-b-uaf', 'C18', (RB, """        memcpy(swapBuffer, mContent, mSize);
        memcpy(&swapBuffer[mSize], data, size);

        delete[] static_cast<char*>(mContent);""", """        delete[] static_cast<char*>(mContent);
        memcpy(swapBuffer, mContent, mSize);
        memcpy(&swapBuffer[mSize], data, size);
"""))
bug('bug-b-scalar-delete', 'C18', (RB, "        delete[] static_cast<char*>(mContent);\n      }\n    }", "        delete static_cast<char*>(mContent);\n      }\n    }"))
bug('bug-b-nullcheck', 'C18', (RB, """      if(content == nullptr)
      {""", """      if(content == nullptr && size == 0)
      {"""))
bug('bug-b-copyable', 'C18', (RBH, "      RawBytes(const RawBytes&) = delete;\n      RawBytes& operator=(const RawBytes&) = delete;\n", ""))
bug('bug-b-readlink', 'C18', (FS, ", bufferLength - 1);\n\n    if(bytes >= 0)", ", bufferLength);\n\n    if(bytes >= 0)"))
bug('bug-b-readlink-neg', 'C18', (FS, "    if(bytes >= 0) {\n      buffer[bytes]", "    if(bytes != 0) {\n      buffer[bytes]"))
bug('bug-b-getcwd', 'C18', (FS, "getcwd(static_cast<char*>(buffer), bufferLength)", "getcwd(static_cast<char*>(buffer), 4096)"))
bug('bug-b-send', 'C18', (LK, "zmq_msg_init_size(&message, rawBytes->GetSize()) > -1", "zmq_msg_init_size(&message, rawBytes->GetSize() - 1) > -1"))
bug('bug-b-null-after', 'C18', (RB, """      if(content == nullptr)
      {
        throw exceptions::ArgumentNullException("content", "Content may not be null.");
      }

      mContent = static_cast<void*>(new char[size]);
      std::memcpy(mContent, content, size);""", """      mContent = static_cast<void*>(new char[size]);

      if(content == nullptr)
      {
        throw exceptions::ArgumentNullException("content", "Content may not be null.");
      }

      std::memcpy(mContent, content, size);"""))

bug('bug-w-list-cap', 'C14', (R, "structure->list_content() != nullptr ? structure->list_content()->size() : 0;", "structure->list_content() != nullptr ? std::min<unsigned int>(structure->list_content()->size(), 100000) : 0;"))
bug('bug-b-append-loop', 'C18', (RB, """        memcpy(&swapBuffer[mSize], data, size);
""", """        for(std::size_t i = 0; i < size && i < mSize; ++i)
        {
          swapBuffer[mSize + i] = static_cast<const char*>(data)[i];
        }
"""))
