"""Cases about the host process: signals, shutdown, log lines, errors."""
LG = 'src/lamppost/log/Log.cpp'
LH = 'include/lamppost/log/Log.h'
WS = '''      std::lock_guard<std::mutex> lock(sSynchronizationMutex);

      // Note: Plugin libraries come with a mutex of their own, hence a line goes out in one piece.
      std::cout << line + "\\n" << std::flush;
'''
WR = '''      std::string indentation;

      for(int i = 0; i < indentationLevel; ++i)
      {
        indentation += "  ";
      }

      WriteSynchronized("[" + prefix + "] " + indentation + message);
'''
CASES = [
    ('h-same-fill', [], [(LG, WR, '''      std::string indentation;
      if(indentationLevel > 0)
      {
        indentation = std::string(2 * static_cast<size_t>(indentationLevel), ' ');
      }
      WriteSynchronized("[" + prefix + "] " + indentation + message);
''')]),
    ('h-same-fill2', [], [(LG, WR, '''      std::string line = "[" + prefix + "] ";
      line.append(2 * static_cast<size_t>(std::max(indentationLevel, 0)), ' ');
      line += message;
      WriteSynchronized(line);
'''), (LG, '#include <lamppost/log/Log.h>\n', '#include <lamppost/log/Log.h>\n#include <algorithm>\n')]),
    ('h-same-stream', [], [(LG, WR, '''      std::ostringstream line;
      line << "[" << prefix << "] ";
      for(int i = 0; i < indentationLevel; ++i)
      {
        line << "  ";
      }
      line << message;
      WriteSynchronized(line.str());
'''), (LG, '#include <lamppost/log/Log.h>\n', '#include <lamppost/log/Log.h>\n#include <sstream>\n')]),
    ('h-bug-pieces', ['C28'], [(LG, WR, '''      std::lock_guard<std::mutex> lock(sSynchronizationMutex);
      std::cout << "[" << prefix << "] ";
      for(int i = 0; i < indentationLevel; ++i)
      {
        std::cout << "  ";
      }
      std::cout << message << std::endl;
'''), (LG, WS, '''      std::lock_guard<std::mutex> lock(sSynchronizationMutex);
      std::cout << line + "\\n" << std::flush;
''')]),
    ('h-bug-two-pieces', ['C28'], [(LG, 'std::cout << line + "\\n" << std::flush;', 'std::cout << line << std::endl;')]),
    ('h-same-write', [], [(LG, 'std::cout << line + "\\n" << std::flush;', 'line.push_back(\'\\n\');\n      std::cout.write(line.data(), line.size()).flush();')]),
    ('h-same-sentry', [], [(LG, 'std::cout << line + "\\n" << std::flush;', 'std::stringstream sts;\n      sts << line << std::endl;\n      std::cout << sts.str() << std::flush;'), (LG, '#include <lamppost/log/Log.h>\n', '#include <lamppost/log/Log.h>\n#include <sstream>\n')]),
    ('h-same-newline', [], [(LG, WS, '''      std::unique_lock<std::mutex> lock(sSynchronizationMutex);
      line += "\\n";
      std::cout << line << std::flush;
''')]),
    ('h-same-newline2', [], [(LG, WS, '''      std::unique_lock<std::mutex> lock(sSynchronizationMutex);
      std::cout << line.append(1, '\\n');
      std::cout.flush();
''')]),
    ('h-same-while', [], [(LG, WR, '''      std::string line = "[" + prefix + "] ";
      while(indentationLevel-- > 0)
      {
        line += "  ";
      }
      WriteSynchronized(line + message);
''')]),
    ('h-same-down', [], [(LG, WR, '''      std::string line = message;
      for(int left = indentationLevel; left > 0; --left)
      {
        line = "  " + line;
      }
      WriteSynchronized("[" + prefix + "] " + line);
''')]),
    ('h-same-insert', [], [(LG, WR, '''      for(int i = 0; i < indentationLevel; ++i)
      {
        message.insert(0, "  ");
      }
      message.insert(0, "[" + prefix + "] ");
      WriteSynchronized(message);
''')]),
    ('h-same-helper', [], [(LG, '    void Log::Write(std', '''    static std::string Indented(const std::string& text, int level)
    {
      std::string indentation;
      for(int i = 0; i < level; i++)
      {
        indentation.append("  ");
      }
      return indentation + text;
    }

    void Log::Write(std'''), (LG, WR, '''      WriteSynchronized(std::string("[").append(prefix).append("] ") + Indented(message, indentationLevel));
''')]),
    ('h-same-static-mutex', [], [(LG, WS, '''      static std::mutex outputMutex;
      std::lock_guard<std::mutex> lock(outputMutex);

      std::cout << line + "\\n" << std::flush;
''')]),
    ('h-same-global-mutex', [], [(LG, '''    std::mutex Log::sSynchronizationMutex;
''', '''    static std::mutex gOutput;
'''), (LG, WS, '''      gOutput.lock();
      std::cout << line + "\\n" << std::flush;
      gOutput.unlock();
'''), (LH, '''      static std::mutex sSynchronizationMutex;
''', '')]),
    ('h-same-plain-fill', [], [(LG, WR, '''      WriteSynchronized("[" + prefix + "] " + std::string(indentationLevel * 2, ' ') + message);
''')]),
    ('h-bug-no-lock', ['C28'], [(LG, WS, '''      std::cout << line + "\\n" << std::flush;
''')]),
    ('h-bug-own-mutex', ['C28'], [(LG, WS, '''      std::mutex mutex;
      std::lock_guard<std::mutex> lock(mutex);
      std::cout << line + "\\n" << std::flush;
''')]),
    ('h-bug-two-locks', ['C28'], [(LG, WS, '''      {
        std::lock_guard<std::mutex> lock(sSynchronizationMutex);
        std::cout << line;
      }
      std::lock_guard<std::mutex> lock(sSynchronizationMutex);
      std::cout << std::endl;
''')]),
    ('h-bug-early-unlock', ['C28'], [(LG, WS, '''      std::unique_lock<std::mutex> lock(sSynchronizationMutex);
      std::cout << line;
      lock.unlock();
      std::cout << std::endl;
''')]),
    ('h-bug-try-lock', ['C28'], [(LG, WS, '''      std::unique_lock<std::mutex> lock(sSynchronizationMutex, std::try_to_lock);
      std::cout << line + "\\n" << std::flush;
''')]),
    ('h-bug-try-lock-drops', ['C28'], [(LG, WS, '''      std::unique_lock<std::mutex> lock(sSynchronizationMutex, std::try_to_lock);
      if(lock.owns_lock())
      {
        std::cout << line + "\\n" << std::flush;
      }
''')]),
    ('h-bug-one-space', ['C28'], [(LG, 'indentation += "  ";', 'indentation += " ";')]),
    ('h-bug-one-more', ['C28'], [(LG, 'i < indentationLevel', 'i <= indentationLevel')]),
    ('h-bug-from-one', ['C28'], [(LG, 'int i = 0; i < indentationLevel', 'int i = 1; i < indentationLevel')]),
    ('h-bug-capped', ['C28'], [(LG, 'i < indentationLevel;', 'i < indentationLevel && i < 8;')]),
    ('h-bug-no-newline', ['C28'], [(LG, 'line + "\\n" << std::flush', 'line << std::flush')]),
    ('h-bug-prefix-lost', ['C28'], [(LG, 'Write(mPrefix, message, indentationLevel, LOG_COLOR_WARNING)', 'Write("Warning", message, indentationLevel, LOG_COLOR_WARNING)')]),
    ('h-bug-level-lost', ['C28'], [(LG, 'Write(mPrefix, message, indentationLevel, LOG_COLOR_ERROR)', 'Write(mPrefix, message, LOG_COLOR_ERROR, indentationLevel)')]),
    ('h-bug-empty-dropped', ['C28'], [(LG, '      std::string indentation;\n', '      if(message.empty())\n      {\n        return;\n      }\n\n      std::string indentation;\n')]),
    ('h-bug-indent-first', ['C28'], [(LG, '"[" + prefix + "] " + indentation + message', 'indentation + "[" + prefix + "] " + message')]),
    ('h-bug-bracket', ['C28'], [(LG, '"[" + prefix + "] " +', '"[" + prefix + "]" +')]),
    ('h-bug-repeat-dropped', ['C28'], [(LG, WS, '''      std::lock_guard<std::mutex> lock(sSynchronizationMutex);
      static std::string last;
      if(line != last)
      {
        std::cout << line + "\\n" << std::flush;
      }
      last = line;
''')]),
    ('h-bug-twice', ['C28'], [(LG, '      WriteSynchronized("[" + prefix', '      if(indentationLevel > 3)\n      {\n        WriteSynchronized(message);\n      }\n      WriteSynchronized("[" + prefix')]),
    ('h-bug-elsewhere', ['C28'], [('src/lamppost/plugin/PluginTemplate.cpp', '  void PluginTemplate::Unload()\n  {\n', '  void PluginTemplate::Unload()\n  {\n    std::cout << "[" << GetIdentifier() << "] unload" << std::endl;\n')]),
    ('h-bug-elsewhere2', ['C28'], [('src/plugins/sysinfo/SysInfo.cpp', '    void SysInfo::Deinitialize()\n    {\n', '    void SysInfo::Deinitialize()\n    {\n      printf("bye\\n");\n')]),
]
XN = 'src/lamppost/platformspecific/xnix/Xnix.cpp'
LPC = 'src/lamppost/LampPost.cpp'
EX = 'src/lamppost/exceptions/'
EXH = 'include/lamppost/exceptions/'
BC = 'src/lamppost/bus/Bus.cpp'
MAIN = 'src/main.cpp'
SW = '''  switch(signal)
  {
    case SIGINT:
    case SIGTERM:
      HandleShutdownSignal();
      break;

    default:
      break;
  }
'''
SA = '''  sigaction(SIGTERM, &action, nullptr);
  sigaction(SIGINT, &action, nullptr);
'''
ALL = '''  struct sigaction action = {};
  memset(&action, 0, sizeof(struct sigaction));
  action.sa_handler = signalHandler;
  action.sa_flags = SA_RESTART;
  sigfillset(&action.sa_mask);
''' + SA
ST = '''    if(mRootBus != nullptr)
    {
      mRootBus->Stop();
    }
'''
TD = '''    mRootBus->Detach();
    mPluginManager.UnloadTemplates();
'''
HS = '''  if(lamppost != nullptr)
  {
    lamppost->Stop();
  }
'''
CASES += [
    ('h-same-sig-if', [], [(XN, SW, '  if(signal == SIGINT || signal == SIGTERM)\n  {\n    HandleShutdownSignal();\n  }\n')]),
    ('h-same-sig-loop', [], [(XN, SA, '  for(int number : {SIGTERM, SIGINT})\n  {\n    sigaction(number, &action, nullptr);\n  }\n')]),
    ('h-same-std-signal', [], [(XN, ALL, '  std::signal(SIGTERM, signalHandler);\n  std::signal(SIGINT, signalHandler);\n')]),
    ('h-same-hook-helper', [], [(XN, 'void HookSystemSignals()\n{\n' + ALL, '''static void hook(int number)
{
''' + ALL.replace(SA, '  sigaction(number, &action, nullptr);\n') + '''}


void HookSystemSignals()
{
  hook(SIGINT);
  hook(SIGTERM);
''')]),
    ('h-same-stop-early', [], [(LPC, ST, '    if(!mRootBus)\n    {\n      return;\n    }\n\n    mRootBus->Stop();\n')]),
    ('h-same-stop-copy', [], [(LPC, ST, '    std::shared_ptr<bus::Bus> rootBus = mRootBus;\n    if(rootBus)\n    {\n      rootBus->Stop();\n    }\n')]),
    ('h-same-handle-early', [], [(MAIN, HS, '  if(!lamppost)\n  {\n    return;\n  }\n\n  lamppost->Stop();\n')]),
    ('h-same-main-reset', [], [(MAIN, 'lamppost = std::make_shared<lp::LampPost>(configuration);', 'lamppost.reset(new lp::LampPost(configuration));')]),
    ('h-same-main-copy', [], [(MAIN, '  lamppost = std::make_shared<lp::LampPost>(configuration);', '  std::shared_ptr<lp::LampPost> host = std::make_shared<lp::LampPost>(configuration);\n  lamppost = host;'), (MAIN, '    lamppost->Start();', '    host->Start();')]),
    ('h-same-inline-teardown', [], [(LPC, '    Teardown();\n', '    mLog.Info("Unloading templates", 1);\n' + TD)]),
    ('h-same-stopped-load', [], [(LPC, 'return mRunState == RunState::Stopped;', 'return RunState::Stopped == mRunState.load();')]),
    ('h-same-stopped-if', [], [(LPC, 'return mRunState == RunState::Stopped;', 'if(mRunState != RunState::Stopped)\n    {\n      return false;\n    }\n\n    return true;')]),
    ('h-same-state-store', [], [(LPC, 'mRunState = RunState::Running;', 'mRunState.store(RunState::Running);'), (LPC, 'mRunState = RunState::Stopped;', 'mRunState.store(RunState::Stopped);')]),
    ('h-same-bus-store', [], [(BC, '      mShouldRun = false;\n', '      mShouldRun.store(false);\n')]),
    ('h-bug-no-sigterm', ['C27'], [(XN, '  sigaction(SIGTERM, &action, nullptr);\n', '')]),
    ('h-bug-sighup', ['C27'], [(XN, 'sigaction(SIGTERM', 'sigaction(SIGHUP')]),
    ('h-bug-int-ignored', ['C27'], [(XN, '    case SIGINT:\n', '')]),
    ('h-bug-hook-late', ['C27'], [(MAIN, '  HookSystemSignals();\n\n', '\n'), (MAIN, '    lamppost->Start();\n', '    lamppost->Start();\n    HookSystemSignals();\n')]),
    ('h-bug-cout-handler', ['C27'], [(MAIN, '    lamppost->Stop();\n', '    std::cout << "Stopping." << std::endl;\n    lamppost->Stop();\n')]),
    ('h-bug-printf-handler', ['C27'], [(XN, '      HandleShutdownSignal();\n', '      printf("signal %d\\n", signal);\n      HandleShutdownSignal();\n')]),
    ('h-bug-string-stop', ['C27'], [(LPC, ST, '    mLog.Info("Stop requested.");\n' + ST)]),
    ('h-bug-lock-stop', ['C27'], [(BC, '      mShouldRun = false;\n', '      std::lock_guard<std::mutex> lock(mQueueMutex);\n      mShouldRun = false;\n')]),
    ('h-bug-notify-stop', ['C27'], [(BC, '      mShouldRun = false;\n    }\n\n    bool', '      mShouldRun = false;\n      mNotifier.notify_all();\n    }\n\n    bool')]),
    ('h-bug-once', ['C27'], [(XN, 'action.sa_flags = SA_RESTART;', 'action.sa_flags = SA_RESTART | SA_RESETHAND;')]),
    ('h-bug-other-host', ['C27'], [(MAIN, '  lamppost = std::make_shared<lp::LampPost>(configuration);', '  std::shared_ptr<lp::LampPost> lamppost = std::make_shared<lp::LampPost>(configuration);')]),
    ('h-bug-stopped-early', ['C27'], [(LPC, '    mLog.Info("Shutting down");\n', '    mRunState = RunState::Stopped;\n    mLog.Info("Shutting down");\n')]),
    ('h-bug-stopped-never', ['C27'], [(LPC, '    mRunState = RunState::Stopped;\n', '')]),
    ('h-bug-stopped-first', ['C27'], [(LPC, 'mRunState(RunState::Unknown)', 'mRunState(RunState::Stopped)')]),
    ('h-bug-not-running', ['C27'], [(LPC, 'mRunState == RunState::Stopped', 'mRunState != RunState::Running')]),
    ('h-bug-detach-late', ['C27'], [(LPC, TD, '    mPluginManager.UnloadTemplates();\n    mRootBus->Detach();\n')]),
    ('h-bug-no-detach', ['C27'], [(LPC, '    mRootBus->Detach();\n', '')]),
    ('h-bug-no-unload', ['C27'], [(LPC, '    mPluginManager.UnloadTemplates();\n', '')]),
    ('h-bug-bus-dropped', ['C27'], [(LPC, TD, TD + '    mRootBus.reset();\n')]),
    ('h-bug-stop-if-running', ['C27'], [(LPC, 'if(mRootBus != nullptr)\n', 'if(mRootBus != nullptr && mRunState == RunState::Running)\n')]),
    ('h-bug-stop-says-stopped', ['C27'], [(LPC, '      mRootBus->Stop();\n', '      mRootBus->Stop();\n      mRunState = RunState::Stopped;\n')]),
    ('h-same-move-message', [], [(EX + 'KeyNotFoundException.cpp', ': Exception(message),\n        mKey(key)', ': Exception(std::move(message)),\n        mKey(std::move(key))')]),
    ('h-same-exc-assign', [], [(EX + 'KeyNotFoundException.cpp', ',\n        mKey(key)\n    {\n', '\n    {\n      mKey = key;\n')]),
    ('h-same-require', [], [(BC, '''  namespace bus
  {
''', '''  namespace bus
  {
    namespace
    {
      void RequireName(const std::string& name, const std::string& text)
      {
        if(name.empty())
        {
          throw exceptions::ArgumentNullException("name", text);
        }
      }
    }

'''), (BC, '''      if(name.empty())
      {
        throw exceptions::ArgumentNullException("name", "Child bus name may not be empty.");
      }
''', '''      RequireName(name, "Child bus name may not be empty.");
''')]),
    ('h-same-param-name', [], [(BC, '''CreateChildBus(std::string name)
    {
      if(name.empty())''', '''CreateChildBus(std::string childName)
    {
      const std::string& name = childName;
      if(name.empty())''')]),
    ('h-same-length', [], [(BC, '''CreateChildBus(std::string name)
    {
      if(name.empty())''', '''CreateChildBus(std::string name)
    {
      if(name.length() == 0)''')]),
    ('h-same-final', [], [(EXH + 'KeyNotFoundException.h', 'class KeyNotFoundException :', 'class KeyNotFoundException final :')]),
    ('h-same-index-const', [], [(EXH + 'IndexOutOfBoundsException.h', 'int GetIndex();', 'int GetIndex() const;'), (EX + 'IndexOutOfBoundsException.cpp', 'GetIndex()', 'GetIndex() const')]),
    ('h-bug-dup-swap', ['C29'], [(EX + 'DuplicateKeyException.cpp', ': Exception(message),\n        mKey(key)', ': Exception(key),\n        mKey(message)')]),
    ('h-bug-const-message', ['C29'], [(EX + 'IndexOutOfBoundsException.cpp', 'Exception(message)', 'Exception("Index out of bounds.")')]),
    ('h-bug-index-clamped', ['C29'], [(EX + 'IndexOutOfBoundsException.cpp', 'return mIndex;', 'return mIndex < 0 ? 0 : mIndex;')]),
    ('h-bug-protected-base', ['C29'], [(EXH + 'OperationFailedException.h', ': public Exception', ': protected Exception'), ('src/lamppost/LampPost.cpp', 'mLog.Error(std::string(operationFailedException.what()), 1);', '')]),
    ('h-bug-dup-is-notfound', ['C29'], [(EXH + 'DuplicateKeyException.h', '#include <lamppost/exceptions/Exception.h>', '#include <lamppost/exceptions/KeyNotFoundException.h>'), (EXH + 'DuplicateKeyException.h', ': public Exception', ': public KeyNotFoundException'), (EX + 'DuplicateKeyException.cpp', ': Exception(message)', ': KeyNotFoundException(key, message)')]),
    ('h-bug-std-error', ['C29'], [('src/lamppost/messages/Message.cpp', 'throw exceptions::InvalidOperationException("Message is incomplete.");', 'throw std::runtime_error("Message is incomplete.");')]),
    ('h-bug-wrong-name', ['C29'], [(BC, '"publishMessageFunction", "Bus', '"name", "Bus')]),
    ('h-bug-wrong-name2', ['C29'], [('src/lamppost/bus/ActionConsumer.cpp', '("callback",', '("request",')]),
    ('h-bug-wrong-name3', ['C29'], [('src/lamppost/data/RawBytes.cpp', '("content",', '("size",')]),
]
