// The wire format, written down a second time: an independent reader and writer of messages.
#pragma once
#include "core.h"
#include <string>
#include <vector>
namespace fb {
// 0: no complete well-formed message can be read from these bytes; 1: exactly this one; 2: a message, but the
// format leaves open what its content is (or whether it is acceptable)
int decode(const std::string& bytes, std::string& sender, std::string& topic, std::string& dump);
struct N { int t = 0; int i = 0; double d = 0; bool b = false; std::string s; std::vector<std::pair<std::string, N>> kids; };
// options change what is written: absent fields, unknown kinds, shared children, ...
enum Odd { PLAIN = 0, NO_SENDER = 1, NO_TOPIC = 2, NO_DATAGRAM = 4, BAD_TYPE = 8, BAD_VALUE_TYPE = 16, MISMATCH = 32, NO_STRING = 64, NO_LIST = 128, DUP_KEY = 256, HUGE_VECTOR = 512, NO_NUL = 1024, DANGLING_CHILD = 2048, SELF_REF = 4096, ALL_FIELDS = 8192 };
std::string encode(const std::string& sender, const std::string& topic, const N& n, int odd, sim::Rng& r);
N chain(int depth, int kind, sim::Rng& r);
N tree(int depth, sim::Rng& r);
std::string dump(const N& n);
}
