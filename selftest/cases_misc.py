"""Cases about texts of datagrams, identifiers, names and search paths."""
RH = 'include/lamppost/messages/RawDatagram.h'
MH = 'include/lamppost/messages/Message.h'
DH = 'include/lamppost/messages/Data.h'
DGH = 'include/lamppost/messages/Datagram.h'
LST = '''            bool first = true;
            for(const std::shared_ptr<RawDatagram>& listItem : rawDatagram.mList)
            {
              if(first)
              {
                first = false;
              }
              else
              {
                outputStream << ", ";
              }

              outputStream << *listItem;
            }
'''
DCT = '''            bool first = true;
            for(const std::pair<std::string, std::shared_ptr<RawDatagram>>& dictionaryItem : rawDatagram.mDictionary)
            {
              if(first)
              {
                first = false;
              }
              else
              {
                outputStream << ", ";
              }

              outputStream << dictionaryItem.first << ": " << *(dictionaryItem.second);
            }
'''
VAL = '''            bool isString = false;
            if(std::dynamic_pointer_cast<Data<std::string>>(rawDatagram.mValue) != nullptr)
            {
              isString = true;
            }

            outputStream << (isString ? "\\"" : "") << *(rawDatagram.mValue) << (isString ? "\\"" : "");
'''
HEAD = '      friend std::ostream& operator<<(std::ostream& outputStream, const RawDatagram& rawDatagram)\n      {\n'
MSGOUT = 'outputStream << "[" << message.mSender << " to " << message.mTopic << "]: " << message.mDatagram;'
UH = 'include/lamppost/utilities/Uuid.h'
RNG = '        std::random_device rng;\n'
EQ = """        return ((this->mIsEmpty && otherUuid.mIsEmpty) ||
                (!this->mIsEmpty && !otherUuid.mIsEmpty && this->mContent == otherUuid.mContent));
"""
SNP = open('/repo/' + UH).read()
SNP = SNP[SNP.index('        char buffer[128]'):SNP.index('\n\n\n        uuid.mContent')] + '\n'
PMC = 'src/lamppost/plugin/PluginManager.cpp'
LPC = 'src/lamppost/LampPost.cpp'
SMC = 'src/lamppost/settings/SettingsManager.cpp'
MC = 'src/lamppost/messages/Message.cpp'
PMB = open('/repo/' + PMC).read()
PMB = PMB[PMB.index('    std::string executableDirectory ='):PMB.index('  }\n\n  PluginManager::~')]
LPB = open('/repo/' + LPC).read()
LPB = LPB[LPB.index('    for(const std::string& configurationFile'):LPB.index('  }\n\n  LampPost::~')]
WSB = 'return mSender.substr(0, senderName.size() + 1) == senderName + "/";'
RMV = '''      if(mSender.substr(0, senderName.size() + 1) == senderName + "/")
      {
        mSender = mSender.substr(senderName.size() + 1);
      }
'''
CASES = [
    ('x-same-sep', [], [(RH, LST, '''            const char* separator = "";
            for(const auto& listItem : rawDatagram.mList)
            {
              outputStream << separator << *listItem;
              separator = ", ";
            }
'''), (RH, DCT, '''            std::string separator;
            for(const auto& dictionaryItem : rawDatagram.mDictionary)
            {
              outputStream << separator << dictionaryItem.first << ": " << *(dictionaryItem.second);
              separator = ", ";
            }
''')]),
    ('x-same-iter', [], [(RH, LST, '''            for(auto item = rawDatagram.mList.begin(); item != rawDatagram.mList.end(); ++item)
            {
              if(item != rawDatagram.mList.begin())
              {
                outputStream << ", ";
              }
              outputStream << **item;
            }
'''), (RH, DCT, '''            for(auto item = rawDatagram.mDictionary.begin(); item != rawDatagram.mDictionary.end(); ++item)
            {
              if(item != rawDatagram.mDictionary.begin())
              {
                outputStream << ", ";
              }
              outputStream << item->first << ": " << *item->second;
            }
''')]),
    ('x-same-next', [], [(RH, LST, '''            for(auto item = rawDatagram.mList.begin(); item != rawDatagram.mList.end(); ++item)
            {
              outputStream << **item;
              if(std::next(item) != rawDatagram.mList.end())
              {
                outputStream << ", ";
              }
            }
''')]),
    ('x-same-count', [], [(RH, LST, '''            size_t index = 0;
            for(const std::shared_ptr<RawDatagram>& listItem : rawDatagram.mList)
            {
              outputStream << *listItem;
              if(++index < rawDatagram.mList.size())
              {
                outputStream << ", ";
              }
            }
'''), (RH, DCT, '''            size_t remaining = rawDatagram.mDictionary.size();
            for(const std::pair<const std::string, std::shared_ptr<RawDatagram>>& dictionaryItem : rawDatagram.mDictionary)
            {
              outputStream << dictionaryItem.first << ": " << *(dictionaryItem.second);
              --remaining;
              if(remaining != 0)
              {
                outputStream << ", ";
              }
            }
''')]),
    ('x-same-helper', [], [(RH, HEAD, '''      void Print(std::ostream& outputStream) const
      {
        outputStream << *this;
      }

''' + HEAD), (RH, LST, '''            bool first = true;
            for(const std::shared_ptr<RawDatagram>& listItem : rawDatagram.mList)
            {
              if(!first)
              {
                outputStream << ", ";
              }
              first = false;
              listItem->Print(outputStream);
            }
'''), (MH, MSGOUT, '''outputStream << "[" + message.mSender + " to " << message.mTopic << ']' << ": ";
        outputStream << message.mDatagram;''')]),
    ('x-same-value', [], [(RH, VAL, '''            const bool isString = std::dynamic_pointer_cast<Data<std::string>>(rawDatagram.mValue) != nullptr;
            if(isString)
            {
              outputStream << '"';
            }
            rawDatagram.mValue->ToString(outputStream);
            if(isString)
            {
              outputStream << '"';
            }
'''), (RH, LST, '''            bool needsSeparator = false;
            std::for_each(rawDatagram.mList.begin(), rawDatagram.mList.end(), [&](const std::shared_ptr<RawDatagram>& item)
              {
                if(needsSeparator)
                {
                  outputStream << ", ";
                }
                outputStream << *item;
                needsSeparator = true;
              });
'''), (RH, '#include <map>\n', '#include <algorithm>\n#include <map>\n')]),
    ('x-same-split', [], [(RH, HEAD, '''      static void PrintList(std::ostream& outputStream, const RawDatagram& rawDatagram)
      {
        outputStream << "[";
''' + LST + '''        outputStream << "]";
      }

''' + HEAD + '''        if(rawDatagram.mType == RawDatagramType::List)
        {
          PrintList(outputStream, rawDatagram);
          return outputStream;
        }
''')]),
    ('x-bug-sep-once', ['C31'], [(RH, LST, LST.replace('outputStream << ", ";', 'outputStream << ", ";\n                first = true;'))]),
    ('x-bug-ten', ['C31'], [(RH, LST, '''            int index = 0;
            for(const std::shared_ptr<RawDatagram>& listItem : rawDatagram.mList)
            {
              if(index > 0)
              {
                outputStream << ", ";
              }
              if(index < 16)
              {
                outputStream << *listItem;
              }
              else
              {
                outputStream << "...";
              }
              ++index;
            }
''')]),
    ('x-bug-ten-break', ['C31'], [(RH, DCT, DCT.replace('            bool first = true;', '            bool first = true;\n            int shown = 0;').replace('outputStream << dictionaryItem.first', 'if(++shown > 16)\n              {\n                outputStream << "...";\n                break;\n              }\n              outputStream << dictionaryItem.first'))]),
    ('x-bug-only-values', ['C31'], [(RH, DCT, DCT.replace('outputStream << dictionaryItem.first << ": " <<', 'outputStream <<'))]),
    ('x-bug-null-skip', ['C31'], [(RH, DCT, DCT.replace('              if(first)', '              if(dictionaryItem.second->mType == RawDatagramType::Empty)\n              {\n                continue;\n              }\n              if(first)'))]),
    ('x-bug-list-empty', ['C31'], [(RH, '            outputStream << "[";\n', '            if(rawDatagram.mList.empty())\n            {\n              outputStream << "null";\n              break;\n            }\n            outputStream << "[";\n')]),
    ('x-bug-quote', ['C31'], [(RH, '<< *(rawDatagram.mValue) << (isString ? "\\"" : "")', '<< *(rawDatagram.mValue)')]),
    ('x-bug-quote-bool', ['C31'], [(RH, 'if(std::dynamic_pointer_cast<Data<std::string>>(rawDatagram.mValue) != nullptr)\n            {\n              isString', 'if(std::dynamic_pointer_cast<Data<std::string>>(rawDatagram.mValue) != nullptr || std::dynamic_pointer_cast<Data<bool>>(rawDatagram.mValue) != nullptr)\n            {\n              isString')]),
    ('x-bug-sender', ['C31'], [(MH, '<< message.mSender << " to " << message.mTopic <<', '<< message.mTopic << " to " << message.mSender <<')]),
    ('x-bug-std-out', ['C31'], [(RH, 'outputStream << *listItem;', 'std::cout << *listItem;')]),
    ('x-bug-hex', ['C31'], [(DH, 'outputStream << mValue;', 'outputStream << std::hex << mValue;')]),
    ('x-bug-shallow', ['C31'], [(RH, 'outputStream << *listItem;', 'if(listItem->mType == RawDatagramType::List)\n              {\n                outputStream << "[]";\n              }\n              else\n              {\n                outputStream << *listItem;\n              }')]),
    ('u-same-stream', [], [(UH, SNP, """        std::ostringstream text;
        text << std::hex << dist(rng) << dist(rng) << "-" << dist(rng) << "-" << ((dist(rng) & 0x0fff) | 0x4000) << "-"
             << dist(rng) % 0x3fff + 0x8000 << "-" << dist(rng) << dist(rng) << dist(rng);
"""), (UH, 'std::string(buffer)', 'text.str()'), (UH, '#include <random>\n', '#include <random>\n#include <sstream>\n')]),
    ('u-same-lambda', [], [(UH, SNP, SNP.replace('dist(rng)', 'draw()').replace('        char buffer', '        auto draw = [&rng, &dist]() { return dist(rng); };\n        char buffer'))]),
    ('u-same-vars', [], [(UH, SNP, """        unsigned int values[2] = {dist(rng), dist(rng)};
        const unsigned int c = dist(rng);
        const unsigned int d = dist(rng);
        const unsigned int v4 = 0x4000 | (0x0fff & dist(rng));
        char buffer[64];
        snprintf(buffer, sizeof(buffer), "%08x%08x-%08x-%04x-%08x", values[0], values[1], c, v4, d);
""")]),
    ('u-same-seedseq', [], [(UH, RNG, """        std::random_device device;
        std::seed_seq seed{device(), device(), device(), device()};
        std::mt19937 rng(seed);
""")]),
    ('u-same-loop', [], [(UH, SNP, """        std::string text;
        for(int i = 0; i < 8; ++i)
        {
          char buffer[16];
          snprintf(buffer, sizeof(buffer), "%08x", dist(rng));
          text += buffer;
        }
"""), (UH, 'std::string(buffer)', 'text')]),
    ('u-same-digits', [], [(UH, SNP, """        std::uniform_int_distribution<int> digit(0, 15);
        std::string text;
        for(int i = 0; i < 32; ++i)
        {
          if(i == 8 || i == 16)
          {
            text += '-';
          }
          text += "0123456789abcdef"[digit(rng)];
        }
"""), (UH, 'std::string(buffer)', 'text')]),
    ('u-same-direct', [], [(UH, SNP, SNP.replace('dist(rng)', 'rng()')), (UH, '        std::uniform_int_distribution<unsigned int> dist(1, -1);\n', '')]),
    ('u-same-eq', [], [(UH, EQ, """        if(this->mIsEmpty != otherUuid.mIsEmpty)
        {
          return false;
        }
        return this->mIsEmpty || this->mContent.compare(otherUuid.mContent) == 0;
"""), (UH, """        std::string content = uuid.mContent;
        outputStream << content;

        return outputStream;
""", """        return outputStream << uuid.mContent;
""")]),
    ('u-same-nobuf', [], [(UH, "        uuid.mContent = std::string(buffer);\n", "        uuid.mContent = buffer;\n")]),
    ('u-bug-one-seed', ['C25'], [(UH, RNG, "        std::mt19937 rng;\n        rng.seed(std::random_device()());\n")]),
    ('u-bug-mt64', ['C25'], [(UH, RNG, "        std::random_device device;\n        std::mt19937_64 rng(device());\n")]),
    ('u-bug-unseeded', ['C25'], [(UH, RNG, "        static std::mt19937 rng;\n")]),
    ('u-bug-time', ['C25'], [(UH, RNG, "        std::mt19937 rng(time(nullptr));\n")]),
    ('u-bug-room', ['C25'], [(UH, 'snprintf(buffer, 128,', 'snprintf(buffer, 24,')]),
    ('u-bug-byte', ['C25'], [(UH, '"%x%x-%x-%x-%x-%x%x%x"', '"%hhx%hhx-%hhx-%x-%x-%hhx%hhx%hhx"')]),
    ('u-bug-range', ['C25'], [(UH, 'dist(1, -1)', 'dist(0, 0xff)')]),
    ('u-bug-once', ['C25'], [(UH, SNP, SNP.replace('dist(rng)', 'value').replace('        char buffer', '        const unsigned int value = dist(rng);\n        char buffer'))]),
    ('u-bug-static', ['C25'], [(UH, RNG, "        static std::random_device rng;\n        static unsigned int next = rng();\n"), (UH, SNP, SNP.replace('dist(rng)', 'next++'))]),
    ('u-bug-empty', ['C25'], [(UH, '        uuid.mIsEmpty = false;\n', '')]),
    ('u-bug-eq-case', ['C25'], [(UH, EQ, EQ.replace('this->mContent == otherUuid.mContent', 'this->mContent.substr(0, 8) == otherUuid.mContent.substr(0, 8)'))]),
    ('u-bug-eq-empty', ['C25'], [(UH, EQ, '        return this->mContent == otherUuid.mContent && !this->mIsEmpty;\n')]),
    ('u-bug-show', ['C25'], [(UH, 'std::string content = uuid.mContent;', 'std::string content = uuid.mContent.substr(0, 8);')]),
    # C32
    ('w-same-list', [], [(PMC, PMB, """    const std::string executableDirectory = Filesystem::GetBaseDirectory(Filesystem::GetPathOfRunningExecutable());
    const std::string currentWorkingDirectory = Filesystem::GetWorkingDirectory();
    std::list<std::string> paths;
    paths.push_back(executableDirectory);
    if(executableDirectory.compare(currentWorkingDirectory) != 0)
    {
      paths.push_back(currentWorkingDirectory);
    }
    paths.push_back(Filesystem::CombinePaths(currentWorkingDirectory, "lib"));
    for(const std::string& path : paths)
    {
      AddTemplateSearchPath(path);
    }
""")]),
    ('w-same-splice', [], [(PMC, PMB, """    const std::string executableDirectory = Filesystem::GetBaseDirectory(Filesystem::GetPathOfRunningExecutable());
    const std::string currentWorkingDirectory = Filesystem::GetWorkingDirectory();
    std::list<std::string>& paths = mConfiguration.mTemplateSearchPaths;
    paths.insert(paths.end(), executableDirectory);
    if(!(executableDirectory == currentWorkingDirectory))
    {
      paths.emplace_back(currentWorkingDirectory);
    }
    paths.emplace_back(Filesystem::CombinePaths(currentWorkingDirectory, "lib"));
""")]),
    ('w-same-helper', [], [(PMC, PMB, '    AddDefaultPaths();\n'), (PMC, '  PluginManager::~PluginManager()\n', '  void PluginManager::AddDefaultPaths()\n  {\n' + PMB + '  }\n\n  PluginManager::~PluginManager()\n'),
                           ('include/lamppost/plugin/PluginManager.h', '    void AddTemplateSearchPath(', '    void AddDefaultPaths();\n    void AddTemplateSearchPath(')]),
    ('w-same-host', [], [(LPC, LPB, """    const std::list<std::string>& files = mConfiguration.mConfigurationFiles;
    for(auto file = files.begin(); file != files.end(); ++file)
    {
      mSettingsManager.ReadConfigurationFile(*file);
    }

    const std::list<std::string> paths = mSettingsManager.GetPluginTemplateSearchPaths();
    std::for_each(paths.begin(), paths.end(), [this](const std::string& path) { mPluginManager.AddTemplateSearchPath(path); });
"""), (LPC, '#include <lamppost/LampPost.h>\n', '#include <lamppost/LampPost.h>\n#include <algorithm>\n')]),
    ('w-same-settings', [], [(SMC, 'mPluginTemplateSearchPaths.push_back(pluginTemplateSearchPath)', 'mPluginTemplateSearchPaths.emplace_back(std::move(pluginTemplateSearchPath))'),
                             (SMC, 'return mPluginTemplateSearchPaths;', 'std::list<std::string> paths(mPluginTemplateSearchPaths.begin(), mPluginTemplateSearchPaths.end());\n      return paths;')]),
    ('w-same-back', [], [(PMC, 'mConfiguration.mTemplateSearchPaths.push_back(templateSearchPath)', 'mConfiguration.mTemplateSearchPaths.insert(mConfiguration.mTemplateSearchPaths.end(), std::move(templateSearchPath))')]),
    ('w-bug-front', ['C32'], [(PMC, 'mTemplateSearchPaths.push_back', 'mTemplateSearchPaths.push_front')]),
    ('w-bug-nolib', ['C32'], [(PMC, """    std::string libDirectory = Filesystem::CombinePaths(currentWorkingDirectory, "lib");
    AddTemplateSearchPath(libDirectory);
""", """    if(currentWorkingDirectory != executableDirectory)
    {
      AddTemplateSearchPath(Filesystem::CombinePaths(currentWorkingDirectory, "lib"));
    }
""")]),
    ('w-bug-exe', ['C32'], [(PMC, 'if(currentWorkingDirectory != executableDirectory)', 'if(currentWorkingDirectory.find(executableDirectory) != 0)')]),
    ('w-bug-twice', ['C32'], [(PMC, 'if(currentWorkingDirectory != executableDirectory)', 'if(currentWorkingDirectory.size() > 0)')]),
    ('w-bug-libexe', ['C32'], [(PMC, 'CombinePaths(currentWorkingDirectory, "lib")', 'CombinePaths(executableDirectory, "lib")')]),
    ('w-bug-assign', ['C32'], [(PMC, PMB, PMB.replace('AddTemplateSearchPath(executableDirectory);', 'mConfiguration.mTemplateSearchPaths.assign(1, executableDirectory);'))]),
    ('w-bug-unique', ['C32'], [(PMC, 'mConfiguration.mTemplateSearchPaths.push_back(templateSearchPath)', 'if(mConfiguration.mTemplateSearchPaths.size() < 16)\n      mConfiguration.mTemplateSearchPaths.push_back(templateSearchPath)')]),
    ('w-bug-host', ['C32'], [(LPC, LPB, LPB.replace('''      mPluginManager.AddTemplateSearchPath(pluginTemplateSearchPath);
''', '''      if(Filesystem::PathExists(pluginTemplateSearchPath))
      {
        mPluginManager.AddTemplateSearchPath(pluginTemplateSearchPath);
      }
'''))]),
    ('w-bug-hostorder', ['C32'], [(LPC, LPB, LPB[LPB.index('    for(const std::string& pluginT'):] + '\n' + LPB[:LPB.index('    for(const std::string& pluginT')])]),
    ('w-bug-break', ['C32'], [(LPC, 'mSettingsManager.ReadConfigurationFile(configurationFile);', 'mSettingsManager.ReadConfigurationFile(configurationFile);\n      break;')]),
    ('w-bug-settings', ['C32'], [(SMC, 'push_back', 'push_front')]),
    ('w-bug-clear', ['C32'], [(SMC, 'return mPluginTemplateSearchPaths;', 'std::list<std::string> paths;\n      paths.swap(mPluginTemplateSearchPaths);\n      return paths;')]),
    ('w-bug-setbus', ['C32'], [(PMC, 'mConfiguration.mBus = bus;', 'mConfiguration = PluginManagerConfiguration({}, bus);')]),
    # C33
    ('z-same-rfind', [], [(MC, WSB, 'return mSender.rfind(senderName + "/", 0) == 0;'), (MC, RMV, RMV.replace('mSender.substr(0, senderName.size() + 1) == senderName + "/"', 'WasSentBySender(senderName)'))]),
    ('z-same-compare', [], [(MC, WSB, 'const std::string prefix = senderName + "/";\n      return mSender.compare(0, prefix.size(), prefix) == 0;')]),
    ('z-same-find', [], [(MC, WSB, 'return mSender.find(senderName + "/") == 0;'), (MC, RMV, '''      std::string prefix = senderName + "/";
      if(mSender.find(prefix) != 0)
      {
        return;
      }
      mSender = mSender.substr(prefix.size());
''')]),
    ('z-same-erase', [], [(MC, 'mSender = mSender.substr(senderName.size() + 1);', 'mSender.erase(0, senderName.size() + 1);'), (MC, 'mSender = senderName + "/" + mSender;', 'senderName += "/";\n      senderName += mSender;\n      mSender = senderName;')]),
    ('z-same-insert', [], [(MC, 'mSender = senderName + "/" + mSender;', 'mSender.insert(0, senderName + "/");')]),
    ('z-same-insert2', [], [(MC, 'mSender = senderName + "/" + mSender;', "mSender.insert(0, 1, '/');\n      mSender.insert(0, senderName);")]),
    ('z-same-append', [], [(MC, 'mSender = senderName + "/" + mSender;', 'mSender = senderName.append("/").append(mSender);')]),
    ('z-same-chars', [], [(MC, WSB, 'const std::size_t length = senderName.size();\n      return mSender.size() > length && mSender[length] == \'/\' && mSender.compare(0, length, senderName) == 0;')]),
    ('z-same-equal', [], [(MC, WSB, 'const std::string prefix = senderName + "/";\n      return mSender.size() >= prefix.size() && std::equal(prefix.begin(), prefix.end(), mSender.begin());'), (MC, '#include <lamppost/messages/Message.h>\n', '#include <lamppost/messages/Message.h>\n#include <algorithm>\n')]),
    ('z-same-stream', [], [(MC, 'mSender = senderName + "/" + mSender;', 'std::stringstream sts;\n      sts << senderName << "/" << mSender;\n      mSender = sts.str();'), (MC, '#include <lamppost/messages/Message.h>\n', '#include <lamppost/messages/Message.h>\n#include <sstream>\n')]),
    ('z-same-names', [], [('src/lamppost/Identifiable.cpp', ': mIdentifier(identifier)\n  {\n', '{\n    mIdentifier = identifier;\n'), ('src/lamppost/bus/BusParticipant.cpp', ': mTopic(topic)', ': mTopic(std::move(topic))')]),
    ('z-bug-noslash', ['C33'], [(MC, WSB, 'return mSender.compare(0, senderName.size(), senderName) == 0;')]),
    ('z-bug-any', ['C33'], [(MC, WSB, 'return mSender.find(senderName + "/") != std::string::npos;')]),
    ('z-bug-equal', ['C33'], [(MC, WSB, 'return mSender == senderName || mSender.substr(0, senderName.size() + 1) == senderName + "/";')]),
    ('z-bug-empty', ['C33'], [(MC, WSB, 'return !senderName.empty() && mSender.substr(0, senderName.size() + 1) == senderName + "/";')]),
    ('z-bug-first', ['C33'], [(MC, WSB, "return mSender.substr(0, mSender.find('/')) == senderName;")]),
    ('z-bug-rest', ['C33'], [(MC, 'mSender = mSender.substr(senderName.size() + 1);', "mSender = mSender.substr(mSender.find('/') + 1);")]),
    ('z-bug-rest2', ['C33'], [(MC, 'mSender = mSender.substr(senderName.size() + 1);', "mSender = mSender.substr(senderName.size());")]),
    ('z-bug-limit', ['C33'], [(MC, 'mSender = mSender.substr(senderName.size() + 1);', "mSender = mSender.substr(senderName.size() + 1, 255);")]),
    ('z-bug-always', ['C33'], [(MC, 'mSender = senderName + "/" + mSender;', 'if(!WasSentBySender(senderName))\n      {\n        mSender = senderName + "/" + mSender;\n      }')]),
    ('z-bug-while', ['C33'], [(MC, 'if(mSender.substr(0', 'while(mSender.substr(0')]),
    ('z-bug-bare', ['C33'], [(MC, 'mSender = senderName + "/" + mSender;', 'mSender = mSender.empty() ? senderName : senderName + "/" + mSender;')]),
    ('z-bug-topic', ['C33'], [('src/lamppost/bus/ActionConsumer.cpp', 'BusParticipant(std::move(topic))', 'BusParticipant(topic + "/response")')]),
    ('z-bug-ident', ['C33'], [('src/lamppost/Identifiable.cpp', ': mIdentifier(identifier)', ': mIdentifier(identifier.substr(0, 64))')]),
    ('z-bug-template', ['C33'], [('src/lamppost/plugin/PluginTemplate.cpp', 'Identifiable(configuration.mIdentifier)', 'Identifiable(configuration.mIdentifier + "0")')]),
    ('z-bug-sender', ['C33'], [(MC, 'std::string Message::GetSender()\n    {\n      return mSender;', "std::string Message::GetSender()\n    {\n      return mSender.substr(0, mSender.find('\\0'));")]),
    ('z-bug-swap', ['C33'], [(MC, 'mSender(std::move(sender)),\n        mTopic(std::move(topic))', 'mSender(topic),\n        mTopic(sender)')]),
]
