// Compiled into the program and into every plugin library.
#include "img.h"
using namespace lp;
static log::Log* new_log(std::string prefix) { return new log::Log(prefix); }
static void log_(log::Log& l, int how, std::string m, int ind) {
  switch (how) { case 0: l.Info(m); break; case 1: l.Info(m, ind); break; case 2: l.Warning(m, ind); break; case 3: l.Error(m, ind); break; }
}
static std::shared_ptr<bus::ActionConsumer> consumer(bus::Bus& b, std::string topic) { return b.CreateActionConsumer(topic); }
static std::shared_ptr<bus::Publisher> publisher(bus::Bus& b, std::string topic) { return b.CreatePublisher(topic); }
static void request_async(bus::ActionConsumer& c, messages::Datagram r, std::function<void(messages::Datagram)> cb) { c.RequestAsync(r, cb); }
static messages::Datagram request(bus::ActionConsumer& c, messages::Datagram r, int timeout) { return c.Request(r, timeout); }
static const ImgApi API = {new_log, log_, consumer, publisher, request_async, request};
extern "C" const ImgApi* IMG_API() { return &API; }
