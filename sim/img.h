// A plugin library is linked with a copy of the core's code and its static data: what plugins call is not
// what the program itself calls. The build keeps these copies apart, as the dynamic linker does.
#pragma once
#include <lamppost/bus/Bus.h>
#include <lamppost/log/Log.h>
struct ImgApi {
  lp::log::Log* (*new_log)(std::string prefix);
  void (*log)(lp::log::Log& log, int how, std::string text, int indentation);   // 0 Info without, 1 Info, 2 Warning, 3 Error
  std::shared_ptr<lp::bus::ActionConsumer> (*consumer)(lp::bus::Bus& bus, std::string topic);
  std::shared_ptr<lp::bus::Publisher> (*publisher)(lp::bus::Bus& bus, std::string topic);
  void (*request_async)(lp::bus::ActionConsumer& consumer, lp::messages::Datagram request, std::function<void(lp::messages::Datagram)> callback);
  lp::messages::Datagram (*request)(lp::bus::ActionConsumer& consumer, lp::messages::Datagram request, int timeoutMs);
};
extern "C" const ImgApi* core_IMG_api();
extern "C" const ImgApi* link_IMG_api();
extern "C" const ImgApi* sysinfo_IMG_api();
inline const ImgApi* image(long i) { return i % 3 == 1 ? link_IMG_api() : i % 3 == 2 ? sysinfo_IMG_api() : core_IMG_api(); }
