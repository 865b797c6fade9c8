// Which scenarios serve which property.
#include "scen.h"
const std::vector<::Use>& uses_of(const std::string& p) {
  static std::map<std::string, std::vector<::Use>> m = {
    {"C01", {{"bus", 8}, {"stop", 1}}}, {"C02", {{"bus", 8}, {"stop", 1}}}, {"C06", {{"stop", 9}, {"bus", 1}}}, {"C03", {{"bus", 1}}}, {"C04", {{"bus", 1}}}, {"C05", {{"bus", 1}}}, {"C07", {{"bus", 6}, {"act", 2}, {"stop", 1}}}, {"C16", {{"host", 1}}}, {"C17", {{"host", 1}}}, {"C18", {{"host", 1}}}, {"C08", {{"act", 1}}}, {"C09", {{"act", 1}}}, {"C10", {{"act", 1}}}, {"C13", {{"link", 1}}}, {"C14", {{"link", 1}}}, {"C15", {{"link", 1}}}, {"C19", {{"main", 1}}}, {"C21", {{"fs", 1}}}, {"C26", {{"mem", 5}, {"link", 1}}}, {"C27", {{"pair", 1}}}, {"C20", {{"log", 1}}}, {"C11", {{"bus", 1}}}, {"C12", {{"bus", 1}}},
  };
  static std::vector<::Use> none = {{"bus", 1}};
  auto it = m.find(p); return it == m.end() ? none : it->second;
}
