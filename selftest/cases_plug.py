PM='src/lamppost/plugin/PluginManager.cpp'; PMH='include/lamppost/plugin/PluginManager.h'
PT='src/lamppost/plugin/PluginTemplate.cpp'; PI='src/lamppost/plugin/PluginInstance.cpp'
LP='src/lamppost/LampPost.cpp'; SI='src/plugins/sysinfo/SysInfo.cpp'; LK='src/plugins/link/Link.cpp'
PIH='include/lamppost/plugin/PluginInstance.h'
CASES=[]
def bug(n, props, *e): CASES.append((n, props if isinstance(props, list) else [props], list(e)))
def same(n, *e): CASES.append((n, [], list(e)))

# ------------------------------------------------ loading of libraries, same behaviour
GATE = """    if(Filesystem::PathExists(filePath) &&
       Filesystem::GetFileExtension(filePath) == sTemplateFileExtension &&
       Filesystem::GetFilename(filePath).substr(0, sTemplateFilePrefix.length()) == sTemplateFilePrefix)
    {"""
same('same-p-gate-helper', (PM, GATE, """    const std::string fileName = Filesystem::GetFilename(filePath);
    const bool named = fileName.compare(0, sTemplateFilePrefix.length(), sTemplateFilePrefix) == 0;

    if(Filesystem::PathExists(filePath) && Filesystem::GetFileExtension(filePath) == sTemplateFileExtension && named)
    {"""))
same('same-p-gate-find', (PM, GATE, """    if(!Filesystem::PathExists(filePath))
    {
      return false;
    }

    if(Filesystem::GetFileExtension(filePath) != sTemplateFileExtension)
    {
      return false;
    }

    if(Filesystem::GetFilename(filePath).find(sTemplateFilePrefix) == 0)
    {"""))
same('same-p-gate-order', (PM, GATE, """    bool hasPrefix = Filesystem::GetFilename(filePath).substr(0, sTemplateFilePrefix.size()) == sTemplateFilePrefix;
    bool hasExtension = Filesystem::GetFileExtension(filePath) == sTemplateFileExtension;

    if(hasPrefix && hasExtension && Filesystem::PathExists(filePath))
    {"""))
same('same-p-gate-rfind', (PM, GATE, """    if(Filesystem::PathExists(filePath) &&
       Filesystem::GetFileExtension(filePath) == sTemplateFileExtension &&
       Filesystem::GetFilename(filePath).rfind(sTemplateFilePrefix, 0) == 0)
    {"""))
REJ = """            mLog.Error("Identifier missing, empty or already in use", 3);

            ClosePluginLibrary(handle);
          }
        }
        else
        {
          mLog.Error("Info methods missing", 3);

          ClosePluginLibrary(handle);
        }"""
CRE = """              mLog.Error("Creation methods missing", 3);

              ClosePluginLibrary(handle);"""
same('same-p-close-at-end', (PM, CRE, """              mLog.Error("Creation methods missing", 3);"""),
     (PM, REJ, """            mLog.Error("Identifier missing, empty or already in use", 3);
          }
        }
        else
        {
          mLog.Error("Info methods missing", 3);
        }

        if(!loadedSuccessfully)
        {
          ClosePluginLibrary(handle);
        }"""))
same('same-p-count', (PM, "mTemplates.find(info->mIdentifier) == mTemplates.end())", "mTemplates.count(info->mIdentifier) == 0)"))
same('same-p-emplace', (PM, "mTemplates[info->mIdentifier] = pluginTemplateDescription;", "mTemplates.emplace(info->mIdentifier, pluginTemplateDescription);"))
same('same-p-insert', (PM, "mTemplates[info->mIdentifier] = pluginTemplateDescription;", "mTemplates.insert(std::make_pair(info->mIdentifier, pluginTemplateDescription));"))
same('same-p-id-copy', (PM, """          if(info != nullptr && !info->mIdentifier.empty() && mTemplates.find(info->mIdentifier) == mTemplates.end())
          {""", """          const std::string identifier = info != nullptr ? info->mIdentifier : "";

          if(identifier != "" && mTemplates.find(identifier) == mTemplates.end())
          {"""))
same('same-p-lambda-shared', (PM, "return CreateSharedObject<PluginInstance>(CreateInstance, configuration);", "return std::shared_ptr<PluginInstance>(CreateInstance(configuration));"))
same('same-p-files-iter', (PM, """      for(const std::string& file : filesInPath)
      {
        std::string filePath = Filesystem::CombinePaths(searchPath, file);
        LoadTemplate(filePath);
      }""", """      for(std::list<std::string>::const_iterator it = filesInPath.begin(); it != filesInPath.end(); ++it)
      {
        if(!LoadTemplate(Filesystem::CombinePaths(searchPath, *it)))
        {
          mLog.Info("Not a plugin: " + *it, 2);
        }
      }"""))
same('same-p-inline-open', (PM, "PluginLibraryHandle handle = OpenPluginLibrary(filePath);", "void* handle = dlopen(filePath.c_str(), RTLD_NOW);"))
same('same-p-descr-helper', (PM, """              PluginTemplateDescription pluginTemplateDescription;
              pluginTemplateDescription.mLibraryHandle = handle;
              pluginTemplateDescription.mTemplate = pluginTemplate;

              mTemplates[info->mIdentifier] = pluginTemplateDescription;""", """              PluginTemplateDescription& description = mTemplates[info->mIdentifier];
              description.mLibraryHandle = handle;
              description.mTemplate = pluginTemplate;"""))
# ------------------------------------------------ loading of libraries, bugs
bug('bug-p-no-ext', 'C20', (PM, "       Filesystem::GetFileExtension(filePath) == sTemplateFileExtension &&\n", ""))
bug('bug-p-ext-ne', 'C20', (PM, "Filesystem::GetFileExtension(filePath) == sTemplateFileExtension", "Filesystem::GetFileExtension(filePath) != sTemplateFileExtension"))
bug('bug-p-prefix-anywhere', 'C20', (PM, "Filesystem::GetFilename(filePath).substr(0, sTemplateFilePrefix.length()) == sTemplateFilePrefix", "Filesystem::GetFilename(filePath).find(sTemplateFilePrefix) != std::string::npos"))
bug('bug-p-prefix-path', 'C20', (PM, "Filesystem::GetFilename(filePath).substr(0", "filePath.substr(0"))
bug('bug-p-prefix-short', 'C20', (PM, "substr(0, sTemplateFilePrefix.length()) == sTemplateFilePrefix", "substr(0, 3) == sTemplateFilePrefix.substr(0, 3)"))
bug('bug-p-first-only', 'C20', (PM, "        LoadTemplate(filePath);\n", "        if(LoadTemplate(filePath))\n        {\n          break;\n        }\n"))
bug('bug-p-path-only-first', 'C20', (PM, "      mLog.Info(searchPath, 1);\n\n", "      mLog.Info(searchPath, 1);\n      if(!mTemplates.empty())\n      {\n        continue;\n      }\n\n"))
bug('bug-p-leak-handle', 'C20', (PM, CRE, """              mLog.Error("Creation methods missing", 3);"""))
bug('bug-p-leak-id', 'C20', (PM, """            mLog.Error("Identifier missing, empty or already in use", 3);

            ClosePluginLibrary(handle);""", """            mLog.Error("Identifier missing, empty or already in use", 3);"""))
bug('bug-p-close-taken', 'C20', (PM, """              mLog.Info("Load successful", 3);""", """              mLog.Info("Load successful", 3);
              ClosePluginLibrary(handle);"""))
bug('bug-p-override-id', 'C20', (PM, " && mTemplates.find(info->mIdentifier) == mTemplates.end())", ")"))
bug('bug-p-empty-id', 'C20', (PM, "info != nullptr && !info->mIdentifier.empty() &&", "info != nullptr &&"))
bug('bug-p-null-info', 'C20', (PM, "info != nullptr && !info->mIdentifier.empty() &&", "!info->mIdentifier.empty() &&"))
bug('bug-p-no-create-check', 'C20', (PM, "            if(CreateInstance != nullptr)\n", "            if(CreateInfo != nullptr)\n"))
bug('bug-p-wrong-symbol', 'C20', (PM, '#elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)\n            std::string createInstanceFunctionName = "CreateInstance";', '#elif defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)\n            std::string createInstanceFunctionName = "CreatePlugin";'))
bug('bug-p-version-key', 'C20', (PM, "mTemplates[info->mIdentifier] = pluginTemplateDescription;", "mTemplates[Filesystem::GetFilename(filePath)] = pluginTemplateDescription;"))
bug('bug-p-no-handle', ['C20'], (PM, "pluginTemplateDescription.mLibraryHandle = handle;", "pluginTemplateDescription.mLibraryHandle = nullptr;"))
bug('bug-p-path-front', 'C20', (PM, "mConfiguration.mTemplateSearchPaths.push_back(templateSearchPath);", "mConfiguration.mTemplateSearchPaths.push_front(templateSearchPath);"))
bug('bug-p-only-dirs', 'C20', (PM, "GetDirectoryContents(searchPath, FilesystemObjectType::File)", "GetDirectoryContents(searchPath, FilesystemObjectType::Directory)"))

# ------------------------------------------------ lifecycle, same behaviour
STOP = """    for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
    {
      if(instancePair.second != nullptr)
      {
        instancePair.second->Stop();
      }
    }
"""
DEI = """    for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
    {
      if(instancePair.second != nullptr)
      {
        instancePair.second->Deinitialize();
      }
    }
"""
same('same-p-stop-ref', (PT, STOP, """    for(const auto& instancePair : mInstances)
    {
      std::shared_ptr<PluginInstance> instance = instancePair.second;

      if(!instance)
      {
        continue;
      }

      instance->Stop();
    }
"""))
same('same-p-stop-deinit-one-loop', (PT, """    Stop();
    Deinitialize();""", """    for(auto& instancePair : mInstances)
    {
      if(instancePair.second)
      {
        instancePair.second->Stop();
        instancePair.second->Deinitialize();
      }
    }

    mInstances.clear();

    for(auto& parentPair : mParentBusses)
    {
      parentPair.second->DeleteChildBus(parentPair.first);
    }
    mParentBusses.clear();"""))
same('same-p-stop-iter', (PT, STOP, """    for(std::map<std::string, std::shared_ptr<PluginInstance>>::iterator it = mInstances.begin(); it != mInstances.end(); ++it)
    {
      if(it->second != nullptr)
      {
        it->second->Stop();
      }
    }
"""))
same('same-p-unload-two-loops', (PM, """        templatePair.second.mTemplate->Unload();
        ClosePluginLibrary(templatePair.second.mLibraryHandle);
      }
""", """        templatePair.second.mTemplate->Unload();
      }

      for(const auto& entry : mTemplates)
      {
        ClosePluginLibrary(entry.second.mLibraryHandle);
      }
"""))
same('same-p-unload-noguard', (PM, """    if(!mTemplates.empty())
    {
      mLog.Info("Unloading plugin templates:");
""", """    {
      mLog.Info("Unloading plugin templates:");
"""))
same('same-p-unload-early', (PM, """    if(!mTemplates.empty())
    {
      mLog.Info("Unloading plugin templates:");
""", """    if(mTemplates.size() == 0)
    {
      return;
    }

    {
      mLog.Info("Unloading plugin templates:");
"""))
same('same-p-start-lambda', (PI, """    std::thread workerThread(&PluginInstance::Run, this);
    std::swap(mWorkerThread, workerThread);""", """    mWorkerThread = std::thread([this]() { Run(); });"""))
same('same-p-start-assign', (PI, """    std::thread workerThread(&PluginInstance::Run, this);
    std::swap(mWorkerThread, workerThread);""", """    mWorkerThread = std::thread(&PluginInstance::Run, this);"""))
same('same-p-stop-early', (PI, """    if(mWorkerThread.joinable())
    {
      mWorkerThread.join();
    }""", """    if(!mWorkerThread.joinable())
    {
      return;
    }

    mWorkerThread.join();"""))
same('same-p-stop-store', (PI, "    mShouldRun = false;\n", "    mShouldRun.store(false);\n"), (PI, "    mShouldRun = true;\n", "    mShouldRun.store(true);\n"))
same('same-p-run-load', (SI, "while(mShouldRun)", "while(mShouldRun.load())"))
same('same-p-run-break', (SI, """      while(mShouldRun)
      {
""", """      for(;;)
      {
        if(!mShouldRun)
        {
          break;
        }

"""))
same('same-p-deinit-helper', (SI, """      mSysInfoActionProvider->Reset();
      mSysInfoActionProvider = nullptr;""", """      if(mSysInfoActionProvider != nullptr)
      {
        mSysInfoActionProvider->Reset();
        mSysInfoActionProvider = nullptr;
      }"""))
same('same-p-deinit-order', (SI, """      DeletePublisher(mSysInfoPublisher);
      mSysInfoPublisher = nullptr;

      mSysInfoActionProvider->Reset();
      mSysInfoActionProvider = nullptr;""", """      mSysInfoActionProvider->Reset();
      mSysInfoActionProvider.reset();

      DeletePublisher(mSysInfoPublisher);
      mSysInfoPublisher.reset();"""))
same('same-p-instantiate-bool', (LP, """    if(instance != nullptr)
    {
      mLog.Info("Initialize", 2);""", """    if(instance)
    {
      mLog.Info("Initialize", 2);"""))
same('same-p-instantiate-guard', (LP, """    if(instance != nullptr)
    {
      mLog.Info("Initialize", 2);
      instance->Initialize();

      mLog.Info("Start", 2);
      instance->Start();
    }
    else
    {
      throw exceptions::OperationFailedException("Failed to instantiate plugin: '" + identifier + "'");
    }""", """    if(instance == nullptr)
    {
      throw exceptions::OperationFailedException("Failed to instantiate plugin: '" + identifier + "'");
    }

    mLog.Info("Initialize", 2);
    instance->Initialize();

    mLog.Info("Start", 2);
    instance->Start();"""))
# ------------------------------------------------ lifecycle, bugs
bug('bug-p-deinit-first', 'C21', (PT, "    Stop();\n    Deinitialize();", "    Deinitialize();\n    Stop();"))
bug('bug-p-no-stop', 'C21', (PT, "    Stop();\n    Deinitialize();", "    Deinitialize();"))
bug('bug-p-no-deinit', 'C21', (PT, "        instancePair.second->Deinitialize();", "        instancePair.second->Stop();"))
bug('bug-p-no-clear', 'C21', (PT, "    mInstances.clear();\n", ""))
bug('bug-p-clear-first', 'C21', (PT, "    Stop();\n    Deinitialize();", "    mInstances.clear();\n    Stop();\n    Deinitialize();"))
bug('bug-p-stop-first-only', 'C21', (PT, "        instancePair.second->Stop();\n", "        instancePair.second->Stop();\n        break;\n"))
bug('bug-p-stop-null', 'C21', (PT, STOP, STOP.replace("      if(instancePair.second != nullptr)\n", "      if(instancePair.second == nullptr)\n")))
bug('bug-p-stop-unchecked', 'C21', (PT, STOP, """    for(std::pair<std::string, std::shared_ptr<PluginInstance>> instancePair : mInstances)
    {
      instancePair.second->Stop();
    }
"""))
bug('bug-p-deinit-twice', 'C21', (PT, "        instancePair.second->Deinitialize();", "        instancePair.second->Deinitialize();\n        instancePair.second->Deinitialize();"))
bug('bug-p-dtor-no-unload', 'C21', (PT, """  PluginTemplate::~PluginTemplate()
  {
    Unload();""", """  PluginTemplate::~PluginTemplate()
  {
    mConfiguration.mInstantiateFunction = nullptr;"""))
bug('bug-p-close-before-unload', 'C21', (PM, """        templatePair.second.mTemplate->Unload();
        ClosePluginLibrary(templatePair.second.mLibraryHandle);""", """        ClosePluginLibrary(templatePair.second.mLibraryHandle);
        templatePair.second.mTemplate->Unload();"""))
bug('bug-p-never-closed', 'C21', (PM, """        ClosePluginLibrary(templatePair.second.mLibraryHandle);
""", ""))
bug('bug-p-no-unload', 'C21', (PM, """        templatePair.second.mTemplate->Unload();
""", ""))
bug('bug-p-keeps-templates', 'C21', (PM, "      mTemplates.clear();\n", ""))
bug('bug-p-manager-dtor', 'C21', (PM, """    UnloadTemplates();
    mConfiguration.mBus = nullptr;""", """    mConfiguration.mBus = nullptr;"""))
bug('bug-p-unload-one-left', 'C21', (PM, "    if(!mTemplates.empty())\n", "    if(mTemplates.size() > 1)\n"))
bug('bug-p-flag-late', 'C21', (PI, """    mShouldRun = true;

    std::thread workerThread(&PluginInstance::Run, this);
    std::swap(mWorkerThread, workerThread);""", """    std::thread workerThread(&PluginInstance::Run, this);
    std::swap(mWorkerThread, workerThread);

    mShouldRun = true;"""))
bug('bug-p-detach', 'C21', (PI, "      mWorkerThread.join();", "      mWorkerThread.detach();"))
bug('bug-p-join-first', 'C21', (PI, """    mShouldRun = false;

    if(mWorkerThread.joinable())
    {
      mWorkerThread.join();
    }""", """    if(mWorkerThread.joinable())
    {
      mWorkerThread.join();
    }

    mShouldRun = false;"""))
bug('bug-p-join-if-running', 'C21', (PI, """    mShouldRun = false;

    if(mWorkerThread.joinable())
    {
      mWorkerThread.join();
    }""", """    if(mShouldRun)
    {
      mShouldRun = false;

      if(mWorkerThread.joinable())
      {
        mWorkerThread.join();
      }
    }"""))
bug('bug-p-dtor-no-stop', 'C21', (PI, """    Stop();
    mConfiguration.mBus = nullptr;""", """    mShouldRun = false;
    mConfiguration.mBus = nullptr;"""))
bug('bug-p-thread-lost', 'C21', (PI, "    std::swap(mWorkerThread, workerThread);", "    workerThread.detach();"))
bug('bug-p-run-cached', 'C21', (SI, "      while(mShouldRun)\n", "      const bool shouldRun = mShouldRun;\n\n      while(shouldRun)\n"))
bug('bug-p-run-forever', 'C21', (LK, "      while(mShouldRun)\n", "      while(mZmqContext != nullptr)\n"))
bug('bug-p-run-or', 'C21', (LK, "      while(mShouldRun)\n", "      while(mShouldRun || mZmqContext != nullptr)\n"))
bug('bug-p-si-no-unsub', 'C21', (SI, "      DeleteSubscriber(mSysInfoSubscriber);\n", ""))
bug('bug-p-si-no-unpub', 'C21', (SI, "      DeletePublisher(mSysInfoPublisher);\n", ""))
bug('bug-p-link-no-unsub', 'C21', (LK, "      DeleteSubscriber(mWildcardSubscriber);\n", ""))
bug('bug-p-link-unsub-cond', 'C21', (LK, "      DeleteSubscriber(mWildcardSubscriber);\n", "      if(mZmqContext != nullptr)\n      {\n        DeleteSubscriber(mWildcardSubscriber);\n      }\n"))
bug('bug-p-si-two-subs', 'C21', (SI, """      mSysInfoActionProvider = GetActionProvider(""", """      GetSubscriber("/sysinfo/more", [this](messages::Datagram) { mLog.Info("more"); });
      mSysInfoActionProvider = GetActionProvider("""))
bug('bug-p-start-before-init', ['C21', 'C22'], (LP, """      mLog.Info("Initialize", 2);
      instance->Initialize();

      mLog.Info("Start", 2);
      instance->Start();""", """      mLog.Info("Start", 2);
      instance->Start();

      mLog.Info("Initialize", 2);
      instance->Initialize();"""))
bug('bug-p-not-started', ['C21', 'C22'], (LP, "      instance->Start();\n", ""))
bug('bug-p-null-used', ['C21', 'C22'], (LP, """    if(instance != nullptr)
    {
      mLog.Info("Initialize", 2);""", """    if(!identifier.empty())
    {
      mLog.Info("Initialize", 2);"""))

# ------------------------------------------------ instances and configuration, same behaviour
same('same-p-index-for', (PT, """    int index = 0;

    while(IndexedInstanceExists(index))
    {
      index++;
    }
""", """    int index;

    for(index = 0; IndexedInstanceExists(index); ++index)
    {
    }
"""))
same('same-p-index-inline', (PT, """    int index = 0;

    while(IndexedInstanceExists(index))
    {
      index++;
    }

    configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);""", """    int index = 0;
    std::string identifier = mConfiguration.mIdentifier + std::to_string(index);

    while(mInstances.count(identifier) > 0)
    {
      ++index;
      identifier = mConfiguration.mIdentifier + std::to_string(index);
    }

    configuration.mIdentifier = identifier;"""))
same('same-p-instance-local', (PT, """    mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);

    return mInstances[configuration.mIdentifier];""", """    std::shared_ptr<PluginInstance> instance = mConfiguration.mInstantiateFunction(configuration);
    mInstances.emplace(configuration.mIdentifier, instance);

    return instance;"""))
same('same-p-manager-early', (PM, """    if(mTemplates.find(templateIdentifier) != mTemplates.end())
    {
      mLog.Info("Template found, instantiating", 1);

      returnedInstance = mTemplates[templateIdentifier].mTemplate->Instantiate(configuration, configuration.mBus);
    }
    else
    {
      mLog.Error("Template not found, failed to instantiate.", 1);
    }

    return returnedInstance;""", """    std::map<std::string, PluginTemplateDescription>::iterator it = mTemplates.find(templateIdentifier);

    if(it == mTemplates.end())
    {
      mLog.Error("Template not found, failed to instantiate.", 1);

      return nullptr;
    }

    mLog.Info("Template found, instantiating", 1);

    return it->second.mTemplate->Instantiate(configuration, configuration.mBus);"""))
same('same-p-bus-ternary', (PM, """    if(configuration.mBus == nullptr)
    {
      mLog.Info("Using default bus", 1);

      configuration.mBus = mConfiguration.mBus;
    }
""", """    configuration.mBus = configuration.mBus != nullptr ? configuration.mBus : mConfiguration.mBus;
"""))
same('same-p-entry-local', (LP, """        if(config["plugins"][i].KeyExists("type"))
        {
          std::string pluginType = config["plugins"][i]["type"];

          PluginConfiguration pluginConfiguration;
          pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
""", """        messages::Datagram entry = config["plugins"][i];

        if(entry.KeyExists("type"))
        {
          std::string pluginType = entry["type"];

          PluginConfiguration pluginConfiguration;
          pluginConfiguration.mCustomConfiguration = entry["configuration"];
"""))
same('same-p-entry-continue', (LP, """        if(config["plugins"][i].KeyExists("type"))
        {
""", """        if(!config["plugins"][i].KeyExists("type"))
        {
          continue;
        }

        {
"""))
same('same-p-config-early', (LP, """    if(config.KeyExists("plugins"))
    {
""", """    if(!config.KeyExists("plugins"))
    {
      return;
    }

    {
"""))
same('same-p-files-noguard', (LP, """    if(!mConfiguration.mConfigurationFiles.empty())
    {
      mLog.Info("Reading configuration files:");
""", """    {
      mLog.Info("Reading configuration files:");
"""), (LP, """    else
    {
      mLog.Info("No configuration files set.");
    }
""", ""))
same('same-p-instantiate-returns', (LP, """          try
          {
            InstantiatePlugin(pluginType, pluginConfiguration);
          }
          catch(exceptions::OperationFailedException& operationFailedException)""", """          try
          {
            this->InstantiatePlugin(pluginType, pluginConfiguration);
          }
          catch(const exceptions::OperationFailedException& operationFailedException)"""))
same('same-p-setup-order', (LP, """    mLog.Info("Initializing plugin manager.", 1);
    mPluginManager.SetBus(mRootBus);

    mLog.Info("Loading templates.", 1);
    mPluginManager.LoadTemplates();
""", """    mLog.Info("Loading templates.", 1);
    mPluginManager.LoadTemplates();

    mLog.Info("Initializing plugin manager.", 1);
    mPluginManager.SetBus(mRootBus);
"""))
# ------------------------------------------------ instances and configuration, bugs
bug('bug-p-index-zero', 'C22', (PT, """    while(IndexedInstanceExists(index))
    {
      index++;
    }
""", ""))
same('same-p-index-size', (PT, """    int index = 0;

    while(IndexedInstanceExists(index))
    {
      index++;
    }
""", """    int index = mInstances.size();
"""))
bug('bug-p-parent-bus', 'C22', (PT, "configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);", "configuration.mBus = parentBus;"))
bug('bug-p-child-name', 'C22', (PT, "parentBus->CreateChildBus(configuration.mIdentifier);", "parentBus->CreateChildBus(mConfiguration.mIdentifier);"))
bug('bug-p-not-remembered', 'C22', (PT, """    mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);

    return mInstances[configuration.mIdentifier];""", """    return mConfiguration.mInstantiateFunction(configuration);"""))
bug('bug-p-created-twice', 'C22', (PT, "    return mInstances[configuration.mIdentifier];", "    return mConfiguration.mInstantiateFunction(configuration);"))
bug('bug-p-config-lost', 'C22', (PT, "    int index = 0;\n", "    int index = 0;\n    configuration.mCustomConfiguration = messages::Datagram();\n"))
bug('bug-p-unknown-inserts', 'C22', (PM, "    if(mTemplates.find(templateIdentifier) != mTemplates.end())\n", "    if(mTemplates[templateIdentifier].mTemplate != nullptr)\n"))
bug('bug-p-default-bus-always', 'C22', (PM, "    if(configuration.mBus == nullptr)\n", "    if(mConfiguration.mBus != nullptr)\n"))
bug('bug-p-default-bus-never', 'C22', (PM, "      configuration.mBus = mConfiguration.mBus;\n", ""))
bug('bug-p-bus-mixed', 'C22', (PM, "Instantiate(configuration, configuration.mBus);", "Instantiate(configuration, mConfiguration.mBus);"))
bug('bug-p-setbus-once', 'C22', (PM, "    mConfiguration.mBus = bus;\n", "    if(mConfiguration.mBus == nullptr)\n    {\n      mConfiguration.mBus = bus;\n    }\n"))
bug('bug-p-entries-from-one', 'C22', (LP, "for(int i = 0; i < pluginsCount; ++i)", "for(int i = 1; i < pluginsCount; ++i)"))
bug('bug-p-entries-last', 'C22', (LP, "for(int i = 0; i < pluginsCount; ++i)", "for(int i = 0; i < pluginsCount - 1; ++i)"))
bug('bug-p-first-config', 'C22', (LP, 'pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];', 'pluginConfiguration.mCustomConfiguration = config["plugins"][0]["configuration"];'))
bug('bug-p-shared-config', 'C22', (LP, 'pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];', 'pluginConfiguration.mCustomConfiguration = config["plugins"][i];'))
bug('bug-p-abort-on-unknown', 'C22', (LP, """            mLog.Error("Error while processing configuration file:");""", """            throw;
            mLog.Error("Error while processing configuration file:");"""))
bug('bug-p-break-on-unknown', 'C22', (LP, """            mLog.Error("Plugin configuration: " + configSts.str(), 1);""", """            mLog.Error("Plugin configuration: " + configSts.str(), 1);
            break;"""))
bug('bug-p-other-exception', 'C22', (LP, "          catch(exceptions::OperationFailedException& operationFailedException)", "          catch(exceptions::InvalidOperationException& operationFailedException)"))
bug('bug-p-first-file', 'C22', (LP, """        ReadConfigurationFile(configurationFile);
      }
    }
    else""", """        ReadConfigurationFile(configurationFile);
        break;
      }
    }
    else"""))
bug('bug-p-front-file', 'C22', (LP, """        ReadConfigurationFile(configurationFile);
      }
    }
    else""", """        ReadConfigurationFile(mConfiguration.mConfigurationFiles.front());
      }
    }
    else"""))
bug('bug-p-load-after', 'C22', (LP, """    mLog.Info("Loading templates.", 1);
    mPluginManager.LoadTemplates();
""", ""), (LP, """    mLog.Info("Starting root bus.");
""", """    mPluginManager.LoadTemplates();
    mLog.Info("Starting root bus.");
"""))
bug('bug-p-bus-after', 'C22', (LP, """    mLog.Info("Starting root bus.");
    mRootBus->Start();
""", ""), (LP, """    mLog.Info("Starting instance.");
    Setup();
""", """    mLog.Info("Starting instance.");
    Setup();
    mRootBus->Start();
"""))

same('same-p-index-counter', (PT, """    int index = 0;

    while(IndexedInstanceExists(index))
    {
      index++;
    }
""", """    int index = mNextIndex++;
"""), ('include/lamppost/plugin/PluginTemplate.h', "    bool IndexedInstanceExists(int index);", "    bool IndexedInstanceExists(int index);\n    int mNextIndex = 0;"))
bug('bug-p-index-mod', 'C22', (PT, """    int index = 0;

    while(IndexedInstanceExists(index))
    {
      index++;
    }
""", """    int index = mInstances.size() % 10;
"""))
DCB = """    for(std::pair<std::string, std::shared_ptr<bus::Bus>> parentPair : mParentBusses)
    {
      parentPair.second->DeleteChildBus(parentPair.first);
    }

"""
PTC = 'src/lamppost/plugin/PluginTemplate.cpp'
BCC = 'src/lamppost/bus/Bus.cpp'
CASES += [
    ('same-p-part-in-loop', [], [(PTC, DCB, ''), (PTC, "        instancePair.second->Deinitialize();\n      }\n", "        instancePair.second->Deinitialize();\n      }\n\n      mParentBusses[instancePair.first]->DeleteChildBus(instancePair.first);\n")]),
    ('same-p-part-iter', [], [(PTC, DCB, """    for(auto it = mParentBusses.begin(); it != mParentBusses.end(); ++it)
    {
      std::shared_ptr<bus::Bus> parent = it->second;
      if(parent != nullptr)
      {
        parent->DeleteChildBus(it->first);
      }
    }
""")]),
    ('same-p-part-helper', [], [(PTC, DCB, "    for(auto& parentPair : mParentBusses)\n    {\n      Part(parentPair.second, parentPair.first);\n    }\n"), (PTC, "  void PluginTemplate::Stop()\n", "  static void Part(const std::shared_ptr<bus::Bus>& parent, const std::string& name)\n  {\n    parent->DeleteChildBus(name);\n  }\n\n  void PluginTemplate::Stop()\n")]),
    ('same-p-part-first', [], [(PTC, DCB, ''), (PTC, "    mInstances.clear();\n", DCB + "    mInstances.clear();\n")]),
    ('bug-p-part-none', ['C21'], [(PTC, DCB, '')]),
    ('bug-p-part-one', ['C21'], [(PTC, "      parentPair.second->DeleteChildBus(parentPair.first);\n", "      parentPair.second->DeleteChildBus(parentPair.first);\n      break;\n")]),
    ('bug-p-part-wrong-name', ['C21'], [(PTC, "DeleteChildBus(parentPair.first)", "DeleteChildBus(GetIdentifier())")]),
    ('bug-p-part-created-only', ['C21'], [(PTC, "      parentPair.second->DeleteChildBus(parentPair.first);\n", "      if(mInstances[parentPair.first] != nullptr)\n      {\n        parentPair.second->DeleteChildBus(parentPair.first);\n      }\n")]),
    ('bug-p-part-forgotten', ['C21'], [(PTC, "    mParentBusses[configuration.mIdentifier] = parentBus;\n", "    mParentBusses[mConfiguration.mIdentifier] = parentBus;\n")]),
    ('bug-p-part-itself', ['C21'], [(PTC, "    mParentBusses[configuration.mIdentifier] = parentBus;\n", "    mParentBusses[configuration.mIdentifier] = configuration.mBus;\n")]),
    ('bug-p-part-keeps', ['C21', 'C08'], [(BCC, "\n        mChildBusses.erase(found);\n", "")]),
    ('bug-p-part-all', ['C21', 'C08'], [(BCC, "        mChildBusses.erase(found);\n", "        mChildBusses.clear();\n")]),
    ('bug-p-part-cleared', ['C21'], [(PTC, "    mInstances.clear();\n", "    mInstances.clear();\n    mParentBusses.clear();\n")]),
]
