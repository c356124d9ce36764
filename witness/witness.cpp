// Instantiates the header templates of the public API the way the tests and the
// plugins use them, so that the extractor sees resolved bodies for them. Nothing
// here is ever run.
#include <chrono>
#include <functional>
#include <memory>
#include <string>

#include <lamppost/LampPost.h>
#include <lamppost/bus/Bus.h>
#include <lamppost/messages/Datagram.h>
#include <lamppost/messages/Message.h>
#include <lamppost/plugin/PluginInstance.h>
#include <lamppost/utilities/Uuid.h>

using namespace lp;

void witness_bus(bus::Bus& bus, std::string topic, bus::DatagramCallbackType callback,
                 std::function<void(std::shared_ptr<bus::ActionProvider>, std::string, messages::Datagram)> action)
{
  std::shared_ptr<bus::Publisher> publisher = bus.CreatePublisher(topic);
  std::shared_ptr<bus::Subscriber> plain = bus.CreateSubscriber(topic);
  std::shared_ptr<bus::Subscriber> subscriber = bus.CreateSubscriber(topic, callback);
  std::shared_ptr<bus::ActionProvider> provider = bus.CreateActionProvider(topic, action);
  std::shared_ptr<bus::ActionConsumer> consumer = bus.CreateActionConsumer(topic);
  bus.DeleteSubscriber(subscriber);
  bus.DeletePublisher(publisher);
  (void)bus.ContainsSubscriber(plain);
  (void)bus.ContainsPublisher(publisher);
}

void witness_plugin(PluginInstance& plugin, std::string topic, bus::DatagramCallbackType callback)
{
  plugin.GetPublisher(topic);
  plugin.GetSubscriber(topic);
  plugin.GetSubscriber(topic, callback);
  plugin.GetActionConsumer(topic);
}

void witness_datagram(messages::Datagram& datagram, std::string text, unsigned int index)
{
  messages::Datagram fromString(text);
  messages::Datagram fromInt(1);
  messages::Datagram fromDouble(1.0);
  messages::Datagram fromBool(true);
  messages::Datagram empty;
  messages::Datagram copy(datagram);
  messages::Datagram fromLiteral("text");
  datagram = "text";
  datagram = text;
  datagram = 1;
  datagram = 1.0;
  datagram = true;
  datagram = copy;
  datagram[text] = text;
  datagram[index] = 1;
  (void)datagram.Get<std::string>();
  (void)datagram.Get<int>();
  (void)datagram.Get<double>();
  (void)datagram.Get<bool>();
  (void)datagram.Get<std::string>(text, text);
  (void)datagram.Get<int>(text, 1);
  (void)datagram.Get<double>(text, 1.0);
  (void)datagram.Get<bool>(text, true);
  datagram.Remove(index);
  datagram.Remove(text);
  datagram.Add(std::make_shared<messages::RawDatagram>());
  datagram.Add(std::make_shared<messages::RawDatagram>(text));
  (void)(datagram == copy);
}

void witness_message(messages::Message& message)
{
  messages::Message copy(message);
  messages::Message assigned;
  assigned = message;
  (void)(copy == assigned);
  LampPostConfiguration a, b;
  (void)(a == b);
  (void)(a != b);
  PluginManagerConfiguration c, d;
  (void)(c == d);
  utilities::Uuid u = utilities::Uuid::CreateUuid(), v;
  (void)(u == v);
  (void)static_cast<std::string>(u);
}
