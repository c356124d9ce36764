SEEDS = []


def seed(id, prop, needs, breaks, edits, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


B = 'src/lamppost/bus/Bus.cpp'
BH = 'include/lamppost/bus/Bus.h'
PRE = r'''
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <lamppost/bus/Bus.h>
using namespace lp;
static bool eventually(std::function<bool()> f, int ms = 3000)
{
  for(int i = 0; i < ms && !f(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  return f();
}
struct Running
{
  bus::Bus& b; std::thread t;
  Running(bus::Bus& bb) : b(bb), t([this] { b.Start(); }) { std::this_thread::sleep_for(std::chrono::milliseconds(20)); }
  ~Running() { b.Stop(); t.join(); }
};
'''

seed('child-echo', 'C01', 'a message published on a child bus and a subscriber on the same child bus',
     'messages published on a child bus are not handed to the subscribers of that child bus',
     [(B, "            pair.second->Distribute(message);", "            if(pair.first != message.GetSender())\n            {\n              pair.second->Distribute(message);\n            }")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  auto child = root.CreateChildBus("child");
  std::atomic<int> got{0};
  child->CreateSubscriber("/t", [&](messages::Datagram) { got++; });
  auto p = child->CreatePublisher("/t");
  Running r(root);
  p->Publish(messages::Datagram());
  return eventually([&] { return got == 1; }) ? 0 : 1;
}
''')
seed('queue-lifo', 'C01', 'several messages waiting in the queue at once',
     'messages published before the worker takes them are delivered newest first',
     [(B, "mQueuedMessages.push_back(message);", "mQueuedMessages.push_front(message);")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  std::mutex m; std::vector<int> got;
  root.CreateSubscriber("/t", [&](messages::Datagram d) { std::lock_guard<std::mutex> l(m); got.push_back(d.Get<int>("i")); });
  auto p = root.CreatePublisher("/t");
  for(int i = 0; i < 50; i++) { messages::Datagram d; d["i"] = i; p->Publish(d); }
  Running r(root);
  if(!eventually([&] { std::lock_guard<std::mutex> l(m); return got.size() == 50; })) return 1;
  for(int i = 0; i < 50; i++) if(got[i] != i) return 2;
  return 0;
}
''')
seed('wildcard-prefix', 'C02', 'a subscriber to the match-everything pattern and a topic without a leading slash',
     'a subscriber with the match-everything pattern misses topics that do not start with a slash',
     [('src/lamppost/utilities/AntMatcher.cpp', 'if(pattern == "/**/*")', 'if(pattern == "/**/*" && !expression.empty() && expression[0] == \'/\')')],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  std::atomic<int> got{0};
  root.CreateSubscriber("/**/*", [&](messages::Datagram) { got++; });
  auto p = root.CreatePublisher("status");
  auto q = root.CreatePublisher("/status");
  Running r(root);
  p->Publish(messages::Datagram());
  q->Publish(messages::Datagram());
  return eventually([&] { return got == 2; }, 1500) ? 0 : 1;
}
''')
seed('notify-dropped', 'C03', 'a message published while the worker already waits',
     'publishing does not wake the waiting worker, each message waits for the periodic check',
     [(B, "          mNotifier.notify_one();", "          if(!mShouldRun)\n          {\n            mNotifier.notify_one();\n          }")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  std::atomic<int> got{0};
  root.CreateSubscriber("/t", [&](messages::Datagram) { got++; });
  auto p = root.CreatePublisher("/t");
  Running r(root);
  auto t0 = std::chrono::steady_clock::now();
  for(int i = 0; i < 40; i++)
  {
    p->Publish(messages::Datagram());
    if(!eventually([&] { return got == i + 1; })) return 2;
    std::this_thread::sleep_for(std::chrono::milliseconds(3));
  }
  auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
  printf("%ld ms\n", (long)ms);
  return ms < 2000 ? 0 : 1;
}
''')
seed('order-inversion', 'C05', 'a child bus created while the worker hands out a message',
     'handing out locks the subscribers and then the children, creating a child locks them the other way round',
     [(B, '''        {
          std::lock_guard<std::mutex> lock(mSubscribersMutex);
          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
          {
            if(''', '''        std::lock_guard<std::mutex> subscribersLock(mSubscribersMutex);
        {
          for(const std::shared_ptr<Subscriber>& subscriber : mSubscribers)
          {
            if('''),
      (B, "      childBus->Start();\n", "      {\n        std::lock_guard<std::mutex> subscribersLock(mSubscribersMutex);\n        childBus->Start();\n      }\n")],
     PRE + r'''
#include <unistd.h>
int main()
{
  static bus::Bus root("root");
  static std::atomic<int> got{0}, made{0};
  root.CreateSubscriber("/t", [&](messages::Datagram) { got++; });
  auto q = root.CreatePublisher("/t");
  std::thread([&] { root.Start(); }).detach();
  std::thread([&] { for(int i = 0; i < 20000; i++) q->Publish(messages::Datagram()); }).detach();
  std::thread([&] { for(int i = 0; i < 2000; i++) { root.CreateChildBus("c" + std::to_string(i)); made++; std::this_thread::sleep_for(std::chrono::microseconds(100)); } }).detach();
  int lg = -1, lm = -1;
  for(int i = 0; i < 60; i++)
  {
    std::this_thread::sleep_for(std::chrono::seconds(2));
    if(made == 2000) _exit(0);
    if(lg == got && lm == made) _exit(1);
    lg = got; lm = made;
  }
  _exit(0);
}
''', timeout=200)
seed('unlocked-registration', 'C04', 'a subscriber created while another thread creates one or the worker hands out a message',
     'the participant lists are changed without their mutex',
     [(BH, """        std::lock_guard<std::mutex> lock(mutex);
        container.push_back(instance);
""", """        {
          std::lock_guard<std::mutex> lock(mutex);
        }
        container.push_back(instance);
""")],
     PRE + r'''
int main()
{
  for(int round = 0; round < 10; round++)
  {
    bus::Bus root("root");
    std::vector<std::thread> ts;
    std::atomic<int> n{0};
    std::atomic<bool> go{false};
    std::vector<std::vector<std::shared_ptr<bus::Publisher>>> made(8);
    for(int k = 0; k < 8; k++)
      ts.emplace_back([&, k] { while(!go); for(int i = 0; i < 2000; i++) made[k].push_back(root.CreatePublisher("/t")); });
    go = true;
    for(auto& t : ts) t.join();
    for(auto& v : made) for(size_t i = 0; i < v.size(); i += 500) if(!root.ContainsPublisher(v[i])) return 1;
    // every one is listed exactly once: deleting all of them leaves none
    int lost = 0;
    for(auto& v : made) for(size_t i = 0; i < v.size(); i += 97) lost += !root.ContainsPublisher(v[i]);
    if(lost) return 2;
  }
  return 0;
}
''', timeout=200)
seed('delete-keeps-binding', 'C06', 'a publisher that is used after it was deleted, by someone who asked for its deletion twice or after another one',
     'a deleted publisher that is not the last one registered goes on publishing',
     [(BH, """        container.remove(instance);
        instance->Reset();""", """        container.remove(instance);
        if(container.empty())
        {
          instance->Reset();
        }""")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  std::atomic<int> got{0};
  root.CreateSubscriber("/t", [&](messages::Datagram) { got++; });
  auto p = root.CreatePublisher("/t");
  auto q = root.CreatePublisher("/t");
  Running r(root);
  root.DeletePublisher(p);
  p->Publish(messages::Datagram());
  q->Publish(messages::Datagram());
  if(!eventually([&] { return got >= 1; })) return 2;
  std::this_thread::sleep_for(std::chrono::milliseconds(150));
  return got == 1 ? 0 : 1;
}
''')
seed('child-duplicate-silent', 'C08', 'creating a second child bus under a name that is taken by one that was created before',
     'the existing child bus is replaced by the new one although the error is raised',
     [(B, """      if(mChildBusses.find(name) != mChildBusses.end())
      {
        throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
      }
""", """      if(mChildBusses.find(name) != mChildBusses.end())
      {
        mChildBusses.erase(name);
        throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
      }
""")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  auto a = root.CreateChildBus("a");
  bool thrown = false;
  try { root.CreateChildBus("a"); } catch(const exceptions::DuplicateKeyException&) { thrown = true; }
  if(!thrown) return 1;
  try { return root.GetChildBus("a") == a ? 0 : 2; } catch(...) { return 4; }
}
''')
seed('child-not-detached', 'C10', 'a child bus that outlives its parent and is published on afterwards',
     'a child bus below a destroyed bus still publishes into the destroyed queue',
     [(B, """          busPair.second->Stop();
          busPair.second->Detach();
        }

        mChildBusses.clear();""", """          busPair.second->Stop();
        }

        mChildBusses.clear();""")],
     PRE + r'''
#include <csignal>
#include <unistd.h>
int main()
{
  std::shared_ptr<bus::Bus> child;
  alignas(bus::Bus) static char mem[sizeof(bus::Bus)];
  auto* root = new(mem) bus::Bus("root");
  child = root->CreateChildBus("child");
  root->~Bus();
  memset(mem, 0xff, sizeof mem);
  signal(SIGSEGV, [](int) { _exit(1); });
  signal(SIGABRT, [](int) { _exit(1); });
  alarm(5); signal(SIGALRM, [](int) { _exit(1); });
  try { child->Publish(messages::Message("s", "/t", messages::Datagram())); } catch(...) { return 1; }
  return 0;
}
''')
seed('request-id-reused', 'C11', 'two requests of one consumer open at the same time',
     'all requests of a consumer carry the same invocation id, so responses reach the wrong callback or none',
     [('src/lamppost/bus/ActionConsumer.cpp', "utilities::Uuid uuid = utilities::Uuid::CreateUuid();", "static const utilities::Uuid uuid = utilities::Uuid::CreateUuid();")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  std::shared_ptr<bus::ActionProvider> prov = root.CreateActionProvider("/a", [](std::shared_ptr<bus::ActionProvider> p, std::string id, messages::Datagram d) { messages::Datagram r; r = d.Get<int>("request"); p->Respond(id, r); });
  auto cons = root.CreateActionConsumer("/a");
  std::atomic<int> a{0}, b{0};
  messages::Datagram d1, d2; d1 = 1; d2 = 2;
  cons->RequestAsync(d1, [&](messages::Datagram r) { a++; });
  cons->RequestAsync(d2, [&](messages::Datagram r) { b++; });
  Running r(root);
  return eventually([&] { return a == 1 && b == 1; }, 1500) ? 0 : 1;
}
''')

# ---------------------------------------------------------------- data
R = 'src/lamppost/messages/RawDatagram.cpp'
RB = 'src/lamppost/data/RawBytes.cpp'
DPRE = r'''
#include <cmath>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include <lamppost/messages/Message.h>
using namespace lp;
using messages::Datagram; using messages::RawDatagram; using messages::RawDatagramType;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
'''
seed('clear-dictionary', 'C09', 'clearing a datagram that is a dictionary',
     'clearing a dictionary leaves its entries in place',
     [(R, "        case RawDatagramType::Dictionary:\n          mDictionary.clear();", "        case RawDatagramType::Dictionary:\n          mList.clear();")],
     DPRE + r'''
int main()
{
  Datagram d; d["a"] = 1; d["b"] = 2;
  CHECK(d.GetCount() == 2);
  d.Clear();
  CHECK(d.GetCount() == 0 && !d.KeyExists("a"));
  return 0;
}
''')
seed('copy-shares-items', 'C12', 'a copied list whose items are changed through the copy',
     'the copy of a list shares those of its items that are values with the original',
     [(R, "copy->Add(listItem->Copy());", "copy->Add(listItem->GetType() == RawDatagramType::Value ? listItem : listItem->Copy());")],
     DPRE + r'''
int main()
{
  auto list = std::make_shared<RawDatagram>();
  list->Add(std::make_shared<RawDatagram>(1));
  auto copy = list->Copy();
  *(copy->Get(0u)) = 2;
  CHECK(list->Get(0u)->Get<int>() == 1);
  CHECK(copy->Get(0u)->Get<int>() == 2);
  return 0;
}
''')
seed('stale-items', 'C13', 'a datagram that is a list, then a dictionary, then a list again',
     'the items of an earlier list come back when a datagram becomes a list again',
     [(R, "        mType = RawDatagramType::Dictionary;\n        mList.clear();\n", "        mType = RawDatagramType::Dictionary;\n")],
     DPRE + r'''
int main()
{
  RawDatagram d;
  d.Add(std::make_shared<RawDatagram>(1));
  d.Add(std::make_shared<RawDatagram>(2));
  d["k"] = std::make_shared<RawDatagram>(3);
  d.Add(std::make_shared<RawDatagram>(4));
  CHECK(d.GetCount() == 1);
  CHECK(d.Get(0u)->Get<int>() == 4);
  return 0;
}
''')
seed('double-as-float', 'C14', 'a number with more than 24 significant bits',
     'floating-point numbers lose precision when they are serialised',
     [(R, "            doubleContent = Get<double>();", "            doubleContent = static_cast<float>(Get<double>());")],
     DPRE + r'''
int main()
{
  Datagram d; d["x"] = 0.1;
  messages::Message m("s", "/t", d);
  messages::Message b = messages::Message::Deserialize(m.SerializeToBytes());
  CHECK(b.GetDatagram().Get<double>("x") == 0.1);
  return 0;
}
''')
seed('key-ends-at-null', 'C14', 'a dictionary key with a null character in it',
     'the keys of a serialised dictionary end at their first null character',
     [(R, "builder.CreateString(dictionaryItem.first)", "builder.CreateString(dictionaryItem.first.c_str())")],
     DPRE + r'''
int main()
{
  Datagram d; std::string k("a\0b", 3); d[k] = 7;
  messages::Message m("s", "/t", d);
  messages::Message b = messages::Message::Deserialize(m.SerializeToBytes());
  CHECK(b.GetDatagram().KeyExists(k));
  CHECK(b == m);
  return 0;
}
''')
seed('json-null-dropped', 'C15', 'a JSON array with a null in it',
     'nulls in a JSON array are left out, which moves the items behind them',
     [(R, "            root->Add(rawChildDatagram);", "            if(jvalue != nullptr)\n            {\n              root->Add(rawChildDatagram);\n            }")],
     DPRE + r'''
int main()
{
  auto d = RawDatagram::DeserializeFromJson("[1, null, 2]");
  CHECK(d->GetCount() == 3);
  CHECK(d->Get(2u)->Get<int>() == 2);
  return 0;
}
''')
seed('keys-without-contents', 'C16', 'received bytes with more dictionary keys than contents',
     'reading a dictionary trusts the number of keys and reads behind the contents',
     [(R, """          for(unsigned int i = 0; i < length; ++i)
          {
            rawDatagram->operator[](""", """          for(unsigned int i = 0; length > 0 && i < structure->dictionary_keys()->size(); ++i)
          {
            rawDatagram->operator[](""")],
     DPRE + r'''
#include <lamppost/schemas/FBMessage_generated.h>
int main()
{
  flatbuffers::FlatBufferBuilder b;
  auto e = schemas::CreateFBDatagram(b, schemas::DatagramType_Empty);
  std::vector<flatbuffers::Offset<flatbuffers::String>> keys{b.CreateString("a"), b.CreateString("b"), b.CreateString("c"), b.CreateString("d")};
  std::vector<flatbuffers::Offset<schemas::FBDatagram>> vals{e};
  auto kv = b.CreateVector(keys); auto vv = b.CreateVector(vals);
  auto d = schemas::CreateFBDatagram(b, schemas::DatagramType_Dictionary, schemas::ValueType_String, 0, 0, 0.0, false, 0, kv, vv);
  auto s = b.CreateString("s"); auto t = b.CreateString("/t");
  b.Finish(schemas::CreateFBMessage(b, s, t, d));
  auto raw = std::make_shared<data::RawBytes>(b.GetBufferPointer(), b.GetSize());
  messages::Message m = messages::Message::Deserialize(raw);
  CHECK(m.GetDatagram().GetCount() <= 1);
  return 0;
}
''')
seed('dictionary-part-equal', 'C17', 'two dictionaries of which one has all entries of the other and more',
     'a dictionary equals every dictionary that has its entries and more',
     [(R, "            if(rhs.mDictionary.size() == mDictionary.size())", "            if(rhs.mDictionary.size() >= mDictionary.size())")],
     DPRE + r'''
int main()
{
  Datagram a, b;
  a["x"] = 1; b["x"] = 1; b["y"] = 2;
  CHECK(!(a == b));
  CHECK(!(b == a));
  return 0;
}
''')
seed('append-reads-behind', 'C18', 'appending to bytes that lie at the end of their memory',
     'appending copies more bytes than the buffer has',
     [(RB, "        memcpy(swapBuffer, mContent, mSize);", "        memcpy(swapBuffer, mContent, mSize + size);")],
     r'''
#include <cstring>
#include <lamppost/data/RawBytes.h>
#include "/repo/src/lamppost/data/RawBytes.cpp"
int main()
{
  char a[] = "abc", b[] = "defg";
  lp::data::RawBytes r(a, 3);
  r.Append(b, 4);
  return r.GetSize() == 7 && std::memcmp(r.GetContent(), "abcdefg", 7) == 0 ? 0 : 1;
}
''', extra='-fsanitize=address')


# ---------------------------------------------------------------- plugins
PM = 'src/lamppost/plugin/PluginManager.cpp'
PT = 'src/lamppost/plugin/PluginTemplate.cpp'
PLUGPRE = r'''
#include <atomic>
#include <chrono>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include <lamppost/plugin/PluginManager.h>
#include <lamppost/LampPost.h>
using namespace lp;
'''
SOPRE = r'''mkdir -p "$tmp/lib"
so() { g++ -std=gnu++14 -g -O0 -fPIC -shared -DPLUGIN_SO "-DPLUGIN_ID=\"$2\"" -include fstream --coverage -I$R/include -I$R/src -I/usr/include/json-c "$here/demo.cpp" -o "$tmp/lib/$1" \
  $R/_build/lib/libLampPost.a /usr/lib/x86_64-linux-gnu/libflatbuffers.a /usr/lib/x86_64-linux-gnu/libjson-c.so -ldl -lpthread || exit 3; }
'''
seed('prefix-anywhere', 'C20', 'a shared library in a search path whose name contains libplugin_ behind other characters',
     'a library whose name does not start with libplugin_ is opened and becomes a plugin',
     [(PM, "Filesystem::GetFilename(filePath).substr(0, sTemplateFilePrefix.length()) == sTemplateFilePrefix)", "Filesystem::GetFilename(filePath).find(sTemplateFilePrefix) != std::string::npos)")],
     PLUGPRE + r'''
#ifdef PLUGIN_SO
struct P : PluginInstance { using PluginInstance::PluginInstance; void Initialize() override {} void Run() override {} void Deinitialize() override {} };
extern "C" PluginInstance* CreateInstance(PluginConfiguration c) { return new P(c); }
extern "C" PluginTemplateInfo* CreateInfo() { PluginTemplateInfo* i = new PluginTemplateInfo(); i->mIdentifier = PLUGIN_ID; return i; }
#else
int main()
{
  PluginManager m{PluginManagerConfiguration()};
  m.SetBus(std::make_shared<bus::Bus>("root"));
  m.LoadTemplates();
  bool right = m.InstantiateTemplate("Right", PluginConfiguration()) != nullptr;
  bool wrong = m.InstantiateTemplate("Wrong", PluginConfiguration()) != nullptr;
  m.UnloadTemplates();
  return right && !wrong ? 0 : 1;
}
#endif
''', pre=SOPRE + 'so libplugin_right.so Right; so old-libplugin_wrong.so Wrong\n')
seed('deinit-while-running', 'C21', 'a worker that is still running when its template is unloaded',
     'instances are deinitialized before their workers are stopped',
     [(PT, "    Stop();\n    Deinitialize();", "    Deinitialize();\n    Stop();")],
     PLUGPRE + r'''
static std::atomic<bool> running{false}, bad{false};
struct P : PluginInstance
{
  using PluginInstance::PluginInstance;
  ~P() override { Stop(); }
  void Initialize() override {}
  void Run() override { running = true; while(mShouldRun) Sleep(std::chrono::milliseconds(1)); running = false; }
  void Deinitialize() override { if(running) bad = true; }
};
int main()
{
  auto root = std::make_shared<bus::Bus>("root");
  PluginTemplate t(PluginTemplateConfiguration("P", Version(), [](PluginConfiguration c) { return std::make_shared<P>(c); }));
  {
    auto i = t.Instantiate(PluginConfiguration(), root);
    i->Initialize(); i->Start();
  }
  for(int k = 0; k < 3000 && !running; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  t.Unload();
  return running || bad ? 1 : 0;
}
''')
seed('second-instance-fails', 'C22', 'two instances of one plugin on the same bus',
     'the bus of an instance has the name of the template, so a second instance cannot be created',
     [(PT, "configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);", "configuration.mBus = parentBus->CreateChildBus(mConfiguration.mIdentifier);")],
     PLUGPRE + r'''
struct P : PluginInstance { using PluginInstance::PluginInstance; void Initialize() override {} void Run() override {} void Deinitialize() override {} };
int main()
{
  auto root = std::make_shared<bus::Bus>("root");
  PluginTemplate t(PluginTemplateConfiguration("P", Version(), [](PluginConfiguration c) { return std::make_shared<P>(c); }));
  auto a = t.Instantiate(PluginConfiguration(), root);
  auto b = t.Instantiate(PluginConfiguration(), root);
  bool ok = a->GetIdentifier() != b->GetIdentifier() && a->GetBus()->GetIdentifier() == a->GetIdentifier() && b->GetBus()->GetIdentifier() == b->GetIdentifier();
  t.Unload();
  return ok ? 0 : 1;
}
''')
seed('first-configuration', 'C22', 'a configuration with more than one plugin entry',
     'every plugin instance gets the configuration of the first entry',
     [('src/lamppost/LampPost.cpp', 'pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];', 'pluginConfiguration.mCustomConfiguration = config["plugins"][0]["configuration"];')],
     PLUGPRE + r'''
#include <fstream>
#ifdef PLUGIN_SO
struct P : PluginInstance
{
  using PluginInstance::PluginInstance;
  void Initialize() override { std::ofstream("seen", std::ios::app) << GetCustomConfiguration().Get<std::string>("name", "-") << ";"; }
  void Run() override {}
  void Deinitialize() override {}
};
extern "C" PluginInstance* CreateInstance(PluginConfiguration c) { return new P(c); }
extern "C" PluginTemplateInfo* CreateInfo() { PluginTemplateInfo* i = new PluginTemplateInfo(); i->mIdentifier = PLUGIN_ID; return i; }
#else
int main()
{
  std::ofstream("c.cfg") << "{\"plugins\":[{\"type\":\"P\",\"configuration\":{\"name\":\"one\"}},{\"type\":\"P\",\"configuration\":{\"name\":\"two\"}}]}";
  LampPostConfiguration conf(PluginManagerConfiguration(), {"c.cfg"});
  LampPost l(conf);
  std::thread t([&] { l.Start(); });
  std::this_thread::sleep_for(std::chrono::milliseconds(700));
  while(!l.IsStopped()) { l.Stop(); std::this_thread::sleep_for(std::chrono::milliseconds(20)); }
  t.join();
  std::ifstream in("seen"); std::string s; std::getline(in, s);
  return s == "one;two;" ? 0 : 1;
}
#endif
''', pre=SOPRE + 'so libplugin_p.so P\n')


# ---------------------------------------------------------------- linked processes
LK = 'src/plugins/link/Link.cpp'
LINKPRE = PLUGPRE + r'''
#include <zmq.h>
#include <plugins/link/Link.cpp>
struct OwnBus
{
  std::shared_ptr<bus::Bus> root = std::make_shared<bus::Bus>("root");
  std::shared_ptr<bus::Bus> own;
  std::shared_ptr<plugins::Link> link;
  std::shared_ptr<bus::Subscriber> all;
  std::thread t;
  std::mutex m;
  std::vector<messages::Message> seen;
  OwnBus(std::string id, messages::Datagram d)
  {
    own = root->CreateChildBus(id);
    all = root->CreateSubscriber("/**/*");
    all->SetMessageCallback([this](messages::Message x) { std::lock_guard<std::mutex> l(m); seen.push_back(x); });
    PluginConfiguration pc; pc.mIdentifier = id; pc.mBus = own; pc.mCustomConfiguration = d;
    link = std::make_shared<plugins::Link>(pc);
    link->Initialize();
    link->Start();
    t = std::thread([this] { root->Start(); });
    wait(100);
  }
  static void wait(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
  int count(std::string topic) { std::lock_guard<std::mutex> l(m); int n = 0; for(auto& x : seen) n += x.GetTopic() == topic; return n; }
  void end() { root->Stop(); t.join(); link->Stop(); link->Deinitialize(); root->DeleteSubscriber(all); }
};
'''
LX = dict(libs='-lzmq')
seed('link-keeps-last-part', 'C23', 'a message that arrives in more than two parts',
     'every part replaces the parts before it, so only the last one is left and the message is dropped as malformed',
     [(LK, "                bytes->Append(messageData, messageSize);", "                bytes = std::make_shared<data::RawBytes>();\n                bytes->Append(messageData, messageSize);")],
     LINKPRE + r'''
int main()
{
  messages::Datagram d; d["server-role"]["enabled"] = true; d["server-role"]["port-pub"] = 17867; d["server-role"]["port-sub"] = 17868; d["server-role"]["interface"] = std::string("127.0.0.1");
  OwnBus s("Link-1", d);
  void* c = zmq_ctx_new(); void* p = zmq_socket(c, ZMQ_PUB); int z = 0; zmq_setsockopt(p, ZMQ_LINGER, &z, sizeof z);
  zmq_connect(p, "tcp://127.0.0.1:17868");
  auto b = messages::Message("far", "/t", messages::Datagram(std::string(400, 'x'))).SerializeToBytes();
  char* q = (char*)b->GetContent(); size_t n = b->GetSize();
  for(int i = 0; i < 100 && s.count("/t") == 0; i++)
  {
    zmq_send(p, "A", 1, ZMQ_SNDMORE); zmq_send(p, q, n / 2, ZMQ_SNDMORE); zmq_send(p, q + n / 2, n - n / 2, 0);
    OwnBus::wait(50);
  }
  int got = s.count("/t");
  s.end(); zmq_close(p); zmq_ctx_term(c);
  return got > 0 ? 0 : 1;
}
''', **LX)
seed('link-small-messages', 'C23', 'a message of more than 64 KB that comes from another process',
     'the sockets are told to refuse large messages, so such a message, and with it the connection, is dropped',
     [(LK, "      return socket;\n", "      else if(zmqSocketType == ZMQ_SUB)\n      {\n        const int64_t maximumSize = 65536;\n        zmq_setsockopt(socket, ZMQ_MAXMSGSIZE, &maximumSize, sizeof(maximumSize));\n      }\n\n      return socket;\n")],
     LINKPRE + r'''
int main()
{
  messages::Datagram d; d["server-role"]["enabled"] = true; d["server-role"]["port-pub"] = 17887; d["server-role"]["port-sub"] = 17888; d["server-role"]["interface"] = std::string("127.0.0.1");
  OwnBus s("Link-1", d);
  void* c = zmq_ctx_new(); void* p = zmq_socket(c, ZMQ_PUB); int z = 0; zmq_setsockopt(p, ZMQ_LINGER, &z, sizeof z);
  zmq_connect(p, "tcp://127.0.0.1:17888");
  auto b = messages::Message("far", "/t", messages::Datagram(std::string(200000, 'x'))).SerializeToBytes();
  for(int i = 0; i < 100 && s.count("/t") == 0; i++)
  {
    zmq_send(p, "A", 1, ZMQ_SNDMORE); zmq_send(p, b->GetContent(), b->GetSize(), 0);
    OwnBus::wait(50);
  }
  int got = s.count("/t");
  s.end(); zmq_close(p); zmq_ctx_term(c);
  return got > 0 ? 0 : 1;
}
''', **LX)
seed('link-prefix-of-identifier', 'C23', 'two links whose identifiers start alike (Link-1 and Link-10)',
     'a message that came in through Link-10 is taken for one of Link-1 and not passed on',
     [('src/lamppost/messages/Message.cpp', '    {\n      return mSender.substr(0, senderName.size() + 1) == senderName + "/";', '    {\n      return mSender.substr(0, senderName.size()) == senderName;')],
     LINKPRE + r'''
int main()
{
  messages::Datagram d; d["server-role"]["enabled"] = true; d["server-role"]["port-pub"] = 17877; d["server-role"]["port-sub"] = 17878; d["server-role"]["interface"] = std::string("127.0.0.1");
  OwnBus s("Link-1", d);
  void* c = zmq_ctx_new(); void* p = zmq_socket(c, ZMQ_SUB); int z = 0; zmq_setsockopt(p, ZMQ_LINGER, &z, sizeof z);
  zmq_setsockopt(p, ZMQ_SUBSCRIBE, "", 0);
  zmq_connect(p, "tcp://127.0.0.1:17877");
  char buf[4096]; bool own = false, other = false, back = false;
  for(int i = 0; i < 100 && !(own && other); i++)
  {
    s.root->Publish(messages::Message("root", "/own", messages::Datagram(1)));
    s.root->Publish(messages::Message("Link-10/far", "/other", messages::Datagram(1)));
    s.root->Publish(messages::Message("Link-1/far", "/back", messages::Datagram(1)));
    OwnBus::wait(50);
    int n;
    while((n = zmq_recv(p, buf, sizeof buf, ZMQ_DONTWAIT)) >= 0)
    {
      std::string t(buf, n);
      own |= t.find("/own") != std::string::npos; other |= t.find("/other") != std::string::npos; back |= t.find("/back") != std::string::npos;
    }
  }
  s.end(); zmq_close(p); zmq_ctx_term(c);
  return own && other && !back ? 0 : 1;
}
''', **LX)
seed('link-socket-stays-open', 'C24', 'a link with both roles enabled',
     'the sending socket of the client is not closed when the one of the server is open, so ending the link waits for ever',
     [(LK, "        if(mZmqClientPubSocket != nullptr)\n        {\n          zmq_close", "        else if(mZmqClientPubSocket != nullptr)\n        {\n          zmq_close"),
      (LK, """        if(mZmqServerPubSocket != nullptr)
        {
          zmq_close(mZmqServerPubSocket);
          mZmqServerPubSocket = nullptr;
        }

        if(mZmqServerSubSocket != nullptr)
        {
          zmq_close(mZmqServerSubSocket);
          mZmqServerSubSocket = nullptr;
        }
""", """        if(mZmqServerSubSocket != nullptr)
        {
          zmq_close(mZmqServerSubSocket);
          mZmqServerSubSocket = nullptr;
        }

        if(mZmqServerPubSocket != nullptr)
        {
          zmq_close(mZmqServerPubSocket);
          mZmqServerPubSocket = nullptr;
        }
""")],
     LINKPRE + r'''
int main()
{
  messages::Datagram d;
  d["server-role"]["enabled"] = true; d["server-role"]["port-pub"] = 17887; d["server-role"]["port-sub"] = 17888; d["server-role"]["interface"] = std::string("127.0.0.1");
  d["client-role"]["enabled"] = true; d["client-role"]["port-pub"] = 17898; d["client-role"]["port-sub"] = 17897;
  OwnBus s("Link-1", d);
  s.end();
  return 0;
}
''', timeout=15, **LX)
seed('link-one-role', 'C26', 'a link that is server and client at the same time',
     'the client role is ignored when the server role is enabled',
     [(LK, "      if(clientRoleIsEnabled)\n", "      if(clientRoleIsEnabled && !serverRoleIsEnabled)\n")],
     LINKPRE + r'''
int main()
{
  messages::Datagram d, e;
  d["server-role"]["enabled"] = true; d["server-role"]["port-pub"] = 17907; d["server-role"]["port-sub"] = 17908; d["server-role"]["interface"] = std::string("127.0.0.1");
  e["server-role"]["enabled"] = true; e["server-role"]["port-pub"] = 17917; e["server-role"]["port-sub"] = 17918; e["server-role"]["interface"] = std::string("127.0.0.1");
  e["client-role"]["enabled"] = true; e["client-role"]["port-pub"] = 17908; e["client-role"]["port-sub"] = 17907;
  OwnBus a("Link-1", d), b("Link-2", e);
  for(int i = 0; i < 100 && !(b.count("/a") && a.count("/b")); i++)
  {
    a.root->Publish(messages::Message("root", "/a", messages::Datagram(1)));
    b.root->Publish(messages::Message("root", "/b", messages::Datagram(1)));
    OwnBus::wait(50);
  }
  // what a sends on its own bus is seen there too: only what crossed over counts
  int x = b.count("/a"), y = a.count("/b");
  a.end(); b.end();
  return x && y ? 0 : 1;
}
''', **LX)
seed('link-default-ports', 'C26', 'a client and a server without configured ports',
     'the client sends to the port the server sends from, so nothing of the client arrives',
     [(LK, 'Get<int>("client-role/port-pub", 6968)', 'Get<int>("client-role/port-pub", 6967)')],
     LINKPRE + r'''
int main()
{
  messages::Datagram d, e;
  d["server-role"]["enabled"] = true;
  e["client-role"]["enabled"] = true;
  OwnBus a("Link-1", d), b("Link-1", e);
  for(int i = 0; i < 100 && !(b.count("/a") && a.count("/b")); i++)
  {
    a.root->Publish(messages::Message("root", "/a", messages::Datagram(1)));
    b.root->Publish(messages::Message("root", "/b", messages::Datagram(1)));
    OwnBus::wait(50);
  }
  int x = b.count("/a"), y = a.count("/b");
  a.end(); b.end();
  return x && y ? 0 : 1;
}
''', **LX)

SU = 'src/lamppost/bus/Subscriber.cpp'
seed('null-callback-wrapped', 'C07', 'a subscriber whose message callback is set to nothing, and a message for it',
     'a message callback that is set to nothing is wrapped and called all the same, which ends the worker',
     [(SU, "      mCallback = callback;\n", "      mCallback = [callback](messages::Message message)\n        {\n          callback(message);\n        };\n")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  std::atomic<int> got{0};
  auto s = root.CreateSubscriber("/t", [&](messages::Datagram) { got++; });
  auto p = root.CreatePublisher("/t");
  auto t = root.CreateSubscriber("/t", [&](messages::Datagram) { got++; });
  s->SetMessageCallback(nullptr);
  Running r(root);
  p->Publish(messages::Datagram());
  return eventually([&] { return got == 1; }) ? 0 : 1;
}
''')
FSC = 'src/lamppost/Filesystem.cpp'
FSPRE = r'''
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <iterator>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <lamppost/Filesystem.h>
using namespace lp;
'''
seed('directory-stays-open', 'C19', 'a directory in which nothing matches the filter, listed again and again',
     'the handle of a directory is only closed when something was found in it',
     [(FSC, "      closedir(d);\n", "      if(!contents.empty()) {\n        closedir(d);\n      }\n")],
     FSPRE + r'''
static int handles() { int n = 0; DIR* d = opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
int main(int, char** a)
{
  std::string dir = std::string(a[1]) + "/empty";
  mkdir(dir.c_str(), 0700);
  int before = handles();
  for(int i = 0; i < 200; i++) Filesystem::GetDirectoryContents(dir, FilesystemObjectType::File);
  return handles() > before + 5 ? 1 : 0;
}
''')
seed('extension-of-directory', 'C30', 'a path whose directory has a dot in its name while the file has none',
     'the extension of a file without one is taken from the name of its directory',
     [(FSC, "    std::string filename = GetFilename(path);\n    if(", "    std::string filename = path;\n    if(")],
     FSPRE + r'''
int main() { return Filesystem::GetFileExtension("/etc/init.d/cron") == "" && Filesystem::GetFileExtension("/etc/init.d/cron.so") == "so" ? 0 : 1; }
''')
seed('links-not-followed', 'C30', 'a symbolic link to a file or to a directory',
     'a link is neither a file nor a directory and is missing from every listing',
     [(FSC, "    if(stat(path.c_str(), &path_stat) == 0) {\n      isFile =", "    if(lstat(path.c_str(), &path_stat) == 0) {\n      isFile =")],
     FSPRE + r'''
int main(int, char** a)
{
  std::string dir = std::string(a[1]) + "/d";
  mkdir(dir.c_str(), 0700);
  std::ofstream(dir + "/f") << "x";
  if(symlink((dir + "/f").c_str(), (dir + "/l").c_str()) != 0) return 0;
  return Filesystem::IsFile(dir + "/l") && Filesystem::GetDirectoryContents(dir, FilesystemObjectType::File).size() == 2 ? 0 : 1;
}
''')
seed('handler-once', 'C27', 'a second signal while the host is shutting down',
     'only the first signal is handled, the second one kills the process in the middle of its shutdown',
     [('src/lamppost/platformspecific/xnix/Xnix.cpp', "action.sa_flags = SA_RESTART;", "action.sa_flags = SA_RESTART | SA_RESETHAND;")],
     r'''
#include <csignal>
#include <lamppost/LowLevel.h>
static volatile int stops = 0;
void HandleShutdownSignal() { stops++; }
int main()
{
  HookSystemSignals();
  raise(SIGTERM); raise(SIGTERM); raise(SIGINT); raise(SIGINT);
  return stops == 4 ? 0 : 1;
}
''', libs='$R/src/lamppost/platformspecific/xnix/Xnix.cpp')
seed('unload-before-detach', 'C27', 'a plugin that publishes while the host shuts down',
     'plugins are unloaded while their buses are still attached, so what they publish when they end still gets into the queue of the root bus',
     [('src/lamppost/LampPost.cpp', "    mRootBus->Detach();\n    mPluginManager.UnloadTemplates();\n", "    mPluginManager.UnloadTemplates();\n    mRootBus->Detach();\n")],
     PLUGPRE + r'''
#include <fstream>
#include <memory>
#ifdef PLUGIN_SO
struct P : PluginInstance
{
  using PluginInstance::PluginInstance;
  void Initialize() override {}
  void Run() override {}
  void Deinitialize() override
  {
    // the buses are detached by now: a new child bus cannot publish into anything
    bool attached = true;
    try { GetBus()->CreateChildBus("probe"); } catch(exceptions::Exception&) { attached = false; }
    std::ofstream("seen") << (attached ? "attached" : "detached");
  }
};
extern "C" PluginInstance* CreateInstance(PluginConfiguration c) { return new P(c); }
extern "C" PluginTemplateInfo* CreateInfo() { PluginTemplateInfo* i = new PluginTemplateInfo(); i->mIdentifier = PLUGIN_ID; return i; }
#else
int main()
{
  std::ofstream("c.cfg") << "{\"plugins\":[{\"type\":\"P\"}]}";
  LampPostConfiguration conf(PluginManagerConfiguration(), {"c.cfg"});
  LampPost l(conf);
  std::thread t([&] { l.Start(); });
  std::this_thread::sleep_for(std::chrono::milliseconds(700));
  while(!l.IsStopped()) { l.Stop(); std::this_thread::sleep_for(std::chrono::milliseconds(20)); }
  t.join();
  std::ifstream in("seen"); std::string s; std::getline(in, s);
  return s == "detached" ? 0 : 1;
}
#endif
''', pre=SOPRE + 'so libplugin_p.so P\n')
seed('line-break-after-lock', 'C28', 'two threads that log at the same time',
     'the line break is written by itself and after the lock was released, so two lines may end up in one',
     [('src/lamppost/log/Log.cpp', "      std::lock_guard<std::mutex> lock(sSynchronizationMutex);\n", "      std::unique_lock<std::mutex> lock(sSynchronizationMutex);\n"),
      ('src/lamppost/log/Log.cpp', "      std::cout << line + \"\\n\" << std::flush;\n", "      std::cout << line;\n      lock.unlock();\n      std::cout << std::endl;\n")],
     r'''
#include <cstdio>
#include <fstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <lamppost/log/Log.h>
int main(int, char** a)
{
  std::string out = std::string(a[1]) + "/out";
  if(!freopen(out.c_str(), "w", stdout)) return 0;
  auto work = [] { lp::log::Log l("log"); for(int i = 0; i < 20000; i++) l.Info("text"); };
  std::thread t(work), u(work), v(work);
  t.join(); u.join(); v.join();
  fflush(stdout);
  std::ifstream in(out); std::string s; int n = 0;
  while(std::getline(in, s)) { if(s != "[log] text") return 1; n++; }
  return n == 60000 ? 0 : 2;
}
''')
seed('negative-index-lost', 'C29', 'an index error raised for a negative index',
     'an index error does not give back a negative index',
     [('src/lamppost/exceptions/IndexOutOfBoundsException.cpp', "mIndex(index)", "mIndex(index < 0 ? -index : index)")],
     r'''
#include <lamppost/exceptions/IndexOutOfBoundsException.h>
int main()
{
  try { throw lp::exceptions::IndexOutOfBoundsException(-3, "m"); }
  catch(lp::exceptions::IndexOutOfBoundsException& e) { return e.GetIndex() == -3 && std::string(e.what()) == "m" ? 0 : 1; }
}
''')
seed('short-identifiers', 'C25', 'some hundred thousand identifiers',
     'only the first digits of an identifier are kept, so identifiers repeat',
     [('include/lamppost/utilities/Uuid.h', "snprintf(buffer, 128, ", "snprintf(buffer, 8, ")],
     r'''
#include <set>
#include <lamppost/utilities/Uuid.h>
int main()
{
  std::set<std::string> seen;
  for(int i = 0; i < 200000; i++) if(!seen.insert(lp::utilities::Uuid::CreateUuid()).second) return 1;
  return 0;
}
''')
seed('null-entries-hidden', 'C31', 'a dictionary with an empty element',
     'an element that is empty is left out when a dictionary is shown',
     [('include/lamppost/messages/RawDatagram.h', "              outputStream << dictionaryItem.first << \": \" << *(dictionaryItem.second);\n",
       "              if(dictionaryItem.second->mType == RawDatagramType::Empty)\n              {\n                continue;\n              }\n              outputStream << dictionaryItem.first << \": \" << *(dictionaryItem.second);\n")],
     r'''
#include <sstream>
#include <lamppost/messages/Datagram.h>
int main()
{
  lp::messages::Datagram d;
  d["a"] = 1; d["b"] = lp::messages::Datagram(); d["c"] = "x";
  std::stringstream s; s << d;
  return s.str() == "{a: 1, b: null, c: \"x\"}" ? 0 : 1;
}
''')
seed('no-lib-beside-program', 'C32', 'a program started in its own directory, with plugins in lib below it',
     'the lib directory is only searched if the program was not started in its own directory',
     [(PM, "      AddTemplateSearchPath(currentWorkingDirectory);\n    }\n\n    std::string libDirectory = Filesystem::CombinePaths(currentWorkingDirectory, \"lib\");\n    AddTemplateSearchPath(libDirectory);\n",
       "      AddTemplateSearchPath(currentWorkingDirectory);\n      AddTemplateSearchPath(Filesystem::CombinePaths(currentWorkingDirectory, \"lib\"));\n    }\n")],
     PLUGPRE + r'''
#include <unistd.h>
#include <sys/stat.h>
#ifdef PLUGIN_SO
struct P : PluginInstance { using PluginInstance::PluginInstance; void Initialize() override {} void Run() override {} void Deinitialize() override {} };
extern "C" PluginInstance* CreateInstance(PluginConfiguration c) { return new P(c); }
extern "C" PluginTemplateInfo* CreateInfo() { PluginTemplateInfo* i = new PluginTemplateInfo(); i->mIdentifier = PLUGIN_ID; return i; }
#else
int main(int, char** a)
{
  std::string own = Filesystem::GetBaseDirectory(Filesystem::GetPathOfRunningExecutable());
  std::string tmp = a[1];
  if(chdir(own.c_str()) != 0) return 0;
  mkdir("lib", 0700);
  rename((tmp + "/lib/libplugin_p.so").c_str(), "lib/libplugin_p.so");
  PluginManager m{PluginManagerConfiguration()};
  m.SetBus(std::make_shared<bus::Bus>("root"));
  m.LoadTemplates();
  bool found = m.InstantiateTemplate("P", PluginConfiguration()) != nullptr;
  m.UnloadTemplates();
  return found ? 0 : 1;
}
#endif
''', pre=SOPRE + 'so libplugin_p.so P\n')
seed('added-path-first', 'C32', 'two plugins with the same identifier in two search paths',
     'a search path that is added comes first, so another plugin of the same name is loaded',
     [(PM, "mConfiguration.mTemplateSearchPaths.push_back(templateSearchPath);", "mConfiguration.mTemplateSearchPaths.push_front(templateSearchPath);")],
     PLUGPRE + r'''
#include <unistd.h>
#include <sys/stat.h>
#ifdef PLUGIN_SO
struct P : PluginInstance { P(PluginConfiguration c) : PluginInstance(c) { setenv("WHICH", PLUGIN_ID, 1); } void Initialize() override {} void Run() override {} void Deinitialize() override {} };
extern "C" PluginInstance* CreateInstance(PluginConfiguration c) { return new P(c); }
extern "C" PluginTemplateInfo* CreateInfo() { PluginTemplateInfo* i = new PluginTemplateInfo(); i->mIdentifier = "Same"; return i; }
#else
int main(int, char** a)
{
  std::string tmp = a[1];
  mkdir((tmp + "/one").c_str(), 0700); mkdir((tmp + "/two").c_str(), 0700);
  rename((tmp + "/lib/libplugin_one.so").c_str(), (tmp + "/one/libplugin_one.so").c_str());
  rename((tmp + "/lib/libplugin_two.so").c_str(), (tmp + "/two/libplugin_two.so").c_str());
  PluginManager m{PluginManagerConfiguration({tmp + "/one"}, nullptr)};
  m.AddTemplateSearchPath(tmp + "/two");
  m.SetBus(std::make_shared<bus::Bus>("root"));
  m.LoadTemplates();
  m.InstantiateTemplate("Same", PluginConfiguration());
  const char* w = getenv("WHICH");
  bool right = w != nullptr && std::string(w) == "One";
  m.UnloadTemplates();
  return right ? 0 : 1;
}
#endif
''', pre=SOPRE + 'so libplugin_one.so One; so libplugin_two.so Two\n')
seed('name-without-slash', 'C33', 'two links whose names begin alike',
     'a message counts as sent by a name if its sender merely begins with it',
     [('src/lamppost/messages/Message.cpp', "      return mSender.substr(0, senderName.size() + 1) == senderName + \"/\";\n", "      return mSender.substr(0, senderName.size()) == senderName;\n")],
     r'''
#include <lamppost/messages/Message.h>
int main()
{
  lp::messages::Message m("root", "/t", lp::messages::Datagram());
  m.PrependSender("Link10");
  return m.WasSentBySender("Link10") && !m.WasSentBySender("Link1") ? 0 : 1;
}
''')
seed('sender-cut-at-slash', 'C33', 'taking away a name that contains a slash',
     'the sender is cut at its first slash, not behind the name that is taken away',
     [('src/lamppost/messages/Message.cpp', "mSender = mSender.substr(senderName.size() + 1);", "mSender = mSender.substr(mSender.find(\"/\") + 1);")],
     r'''
#include <lamppost/messages/Message.h>
int main()
{
  lp::messages::Message m("root", "/t", lp::messages::Datagram());
  m.PrependSender("site/link");
  m.RemoveSender("site/link");
  return m.GetSender() == "root" ? 0 : 1;
}
''')

# ---------------------------------------------------------------- the system information plugin
SI = 'src/plugins/sysinfo/SysInfo.cpp'
SIPRE = PLUGPRE + r'''
#include <lamppost/bus/ActionConsumer.h>
#include <plugins/sysinfo/SysInfo.cpp>
struct OwnSysInfo
{
  std::shared_ptr<bus::Bus> root = std::make_shared<bus::Bus>("root");
  std::shared_ptr<bus::Bus> own = root->CreateChildBus("SysInfo0");
  std::shared_ptr<plugins::SysInfo> info;
  std::thread t;
  OwnSysInfo(messages::Datagram d = messages::Datagram())
  {
    PluginConfiguration pc; pc.mIdentifier = "SysInfo0"; pc.mBus = own; pc.mCustomConfiguration = d;
    info = std::make_shared<plugins::SysInfo>(pc);
    info->Initialize();
    t = std::thread([this] { root->Start(); });
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
  }
  void end() { root->Stop(); t.join(); info->Deinitialize(); }
};
'''
seed('sysinfo-answers-first', 'C34', 'a second request to the system information plugin',
     'only the first request is answered, every later one waits in vain',
     [(SI, "          provider->Respond(invocationId, response);", "          static std::string answered;\n          if(answered.empty() || answered == invocationId)\n          {\n            answered = invocationId;\n            provider->Respond(invocationId, response);\n          }")],
     SIPRE + r'''
int main()
{
  OwnSysInfo s;
  auto c = s.root->CreateActionConsumer("/sysinfoaction");
  int n = 0;
  for(int i = 0; i < 3; i++) n += !c->Request(messages::Datagram(i), 1500).IsEmpty();
  s.end();
  return n == 3 ? 0 : 1;
}
''')
seed('sysinfo-text-only', 'C34', 'a datagram on /sysinfo that is no text, or an empty or blank one',
     'a datagram on /sysinfo without a text in it ends the program',
     [(SI, 'mLog.Info("Got it: " + message);', 'mLog.Info("Got it: " + message.substr(message.find_first_not_of(" ")));')],
     SIPRE + r'''
int main()
{
  OwnSysInfo s;
  std::atomic<int> got{0};
  s.root->CreateSubscriber("/after", [&](messages::Datagram) { got++; });
  s.root->Publish(messages::Message("root", "/sysinfo", messages::Datagram(17)));
  s.root->Publish(messages::Message("root", "/after", messages::Datagram()));
  for(int i = 0; i < 3000 && got != 1; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  s.end();
  return got == 1 ? 0 : 1;
}
''')
seed('paths-need-bus', 'C32', 'a configuration of the plugin manager with search paths and without a bus',
     'the search paths of a configuration without a bus are lost',
     [('include/lamppost/plugin/PluginManagerConfiguration.h', "      mTemplateSearchPaths = templateSearchPaths;\n", "      if(bus != nullptr)\n      {\n        mTemplateSearchPaths = templateSearchPaths;\n      }\n\n")],
     PLUGPRE + r'''
int main()
{
  PluginManagerConfiguration with({"/a", "/b"}, std::make_shared<bus::Bus>("root")), without({"/a", "/b"}, nullptr);
  return with.mTemplateSearchPaths.size() == 2 && without.mTemplateSearchPaths.size() == 2 && without.mBus == nullptr ? 0 : 1;
}
''')
seed('configuration-gone-after-stop', 'C22', 'an instance that looks at its configuration while it is deinitialized, or that is started again',
     'stopping an instance clears its configuration',
     [('src/lamppost/plugin/PluginInstance.cpp', "    if(mWorkerThread.joinable())\n    {\n      mWorkerThread.join();\n", "    if(mWorkerThread.joinable())\n    {\n      mWorkerThread.join();\n      mConfiguration.mCustomConfiguration = messages::Datagram();\n")],
     PLUGPRE + r'''
static std::string seen;
struct P : PluginInstance
{
  using PluginInstance::PluginInstance;
  ~P() override { Stop(); }
  void Initialize() override {}
  void Run() override {}
  void Deinitialize() override { seen = GetCustomConfiguration().Get<std::string>("name", "-"); }
};
int main()
{
  auto root = std::make_shared<bus::Bus>("root");
  PluginTemplate t(PluginTemplateConfiguration("P", Version(), [](PluginConfiguration c) { return std::make_shared<P>(c); }));
  {
    PluginConfiguration c; c.mCustomConfiguration["name"] = std::string("one");
    auto i = t.Instantiate(c, root);
    i->Initialize(); i->Start();
  }
  t.Unload();
  return seen == "one" ? 0 : 1;
}
''')
seed('root-hands-out-rest', 'C10', 'a stop request while several messages are handed out in one go',
     'a root bus that is stopped by a callback still hands out the rest of the messages it took',
     [(B, "      if(mShouldRun)\n      {\n", "      if(mShouldRun || mIsRootBus)\n      {\n")],
     PRE + r'''
int main()
{
  bus::Bus root("root");
  std::atomic<int> got{0};
  auto s = root.CreateSubscriber("/t", [&](messages::Datagram) { got++; root.Stop(); });
  auto p = root.CreatePublisher("/t");
  for(int i = 0; i < 20; i++) p->Publish(messages::Datagram(i));
  std::thread t([&] { root.Start(); });
  t.join();
  return got == 1 ? 0 : 1;
}
''')
seed('json-short', 'C15', 'an integer in a JSON text that does not fit into sixteen bits',
     'integers of a JSON text are cut to sixteen bits',
     [('src/lamppost/messages/RawDatagram.cpp', "static_cast<int>(json_object_get_int(jobj))", "static_cast<short>(json_object_get_int(jobj))")],
     PRE + r'''
int main()
{
  messages::Datagram d = messages::Datagram::DeserializeFromJson("{\"a\": 7, \"b\": 70000, \"c\": [-70000]}");
  return d.Get<int>("a") == 7 && d.Get<int>("b") == 70000 && d["c"][0].Get<int>() == -70000 ? 0 : 1;
}
''')
