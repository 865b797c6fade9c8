#include "payload.h"
#include <cstdio>
#include <cstring>
using lp::messages::Datagram;
using lp::messages::RawDatagramType;
using sim::u64;

// shape seed: low byte = class, rest = random
// class 0: plain string "m<id>"; 1: {"id": id}; 2: {"id": id, "b": tree}; 3: ["m<id>", tree...]; 4: deep chain; 5: long string; 6: wide
namespace {
struct N {  // specification tree
  int t = 0;  // 0 empty 1 int 2 double 3 bool 4 string 5 list 6 dict
  int i = 0; double d = 0; bool b = false; std::string s;
  std::vector<std::pair<std::string, N>> kids;
};
N gen(sim::Rng& r, int depth) {
  N n;
  n.t = r.range(0, depth > 0 ? 6 : 4);
  switch (n.t) {
    case 1: { static const int v[] = {0, 1, -1, 2147483647, -2147483647 - 1, 42, 65536}; n.i = v[r.below(7)]; } break;
    case 2: { static const double v[] = {0.0, 1.5, -2.25, 1e300, -1e-300, 3.141592653589793}; n.d = v[r.below(6)]; } break;
    case 3: n.b = r.below(2); break;
    case 4: { static const char* v[] = {"", "x", "text with spaces", "/**/*", "a/b", "\xc3\xa4\xe2\x82\xac"}; n.s = v[r.below(6)]; if (r.below(6) == 0) n.s = std::string("nul\0in", 6); if (r.below(8) == 0) n.s = std::string(40 + r.below(200), 'q'); } break;
    case 5: { int c = r.range(0, 3); for (int k = 0; k < c; ++k) n.kids.push_back({"", gen(r, depth - 1)}); } break;
    case 6: { int c = r.range(0, 3); static const char* keys[] = {"a", "b", "c", "longer key name", "", "a/b", "invocationId"}; for (int k = 0; k < c; ++k) { std::string key = keys[(r.below(7))]; if (r.below(8) == 0) { key += '\0'; if (r.below(2)) key += 'z'; } bool dup = false; for (auto& x : n.kids) if (x.first == key) dup = true; if (!dup) n.kids.push_back({key, gen(r, depth - 1)}); } } break;
  }
  return n;
}
N spec(long id, u64 shape) {
  sim::Rng r(mix2(shape, 17));
  std::string ids = "m" + std::to_string(id);
  N n;
  switch (shape & 7) {
    default: case 0: n.t = 4; n.s = ids; break;
    case 1: { n.t = 6; N k; k.t = 4; k.s = ids; n.kids.push_back({"id", k}); } break;
    case 2: { n.t = 6; N k; k.t = 4; k.s = ids; n.kids.push_back({"b", gen(r, 3)}); n.kids.push_back({"id", k}); } break;
    case 3: { n.t = 5; N k; k.t = 4; k.s = ids; n.kids.push_back({"", k}); int c = r.range(1, 4); for (int i = 0; i < c; ++i) n.kids.push_back({"", gen(r, 2)}); } break;
    case 4: { n.t = 6; N k; k.t = 4; k.s = ids; N in; in.t = 4; in.s = ids; int depth = r.below(16) ? r.range(3, 24) : r.range(25, 150); for (int i = 0; i < depth; ++i) { N o; if (r.below(2)) { o.t = 5; o.kids.push_back({"", in}); } else { o.t = 6; o.kids.push_back({"k", in}); } in = o; } n.kids.push_back({"b", in}); n.kids.push_back({"id", k}); } break;
    case 5: { n.t = 6; N k; k.t = 4; k.s = ids; N v; v.t = 4; static const int big[] = {4000, 8100, 16300, 32700, 65400, 65540, 80000, 131000}; v.s = std::string(r.below(10) ? 500 + r.below(3000) : big[r.below(8)] + r.below(200), 'L'); n.kids.push_back({"b", v}); n.kids.push_back({"id", k}); } break;
    case 6: { n.t = 6; N k; k.t = 4; k.s = ids; N l; int c = r.below(40) ? r.range(5, 30) : r.range(60, 1300); l.t = c % 3 || c < 13 ? 5 : 6; for (int i = 0; i < c; ++i) { N v; v.t = 1; v.i = i * 7 + (int)id; l.kids.push_back({l.t == 6 ? "k" + std::to_string(i) : "", v}); } n.kids.push_back({"b", l}); n.kids.push_back({"id", k}); } break;
    case 7: { n.t = 6; N k; k.t = 4; k.s = ids; n.kids.push_back({"b", gen(r, 5)}); n.kids.push_back({"c", gen(r, 2)}); n.kids.push_back({"id", k}); } break;
  }
  return n;
}
Datagram build(const N& n) {
  switch (n.t) {
    case 1: return Datagram(n.i);
    case 2: return Datagram(n.d);
    case 3: return Datagram(n.b);
    case 4: return Datagram(std::string(n.s));
    case 5: { Datagram d(RawDatagramType::List); for (auto& k : n.kids) { Datagram c = build(k.second); lp::messages::RawDatagramType ty = c.GetType(); (void)ty; d.Add(std::make_shared<lp::messages::RawDatagram>()); d[(unsigned int)(d.GetCount() - 1)] = c; } return d; }
    case 6: { Datagram d(RawDatagramType::Dictionary); for (auto& k : n.kids) d[k.first] = build(k.second); return d; }
    default: return Datagram();
  }
}
std::string diff(Datagram d, const N& n, const std::string& path) {
  RawDatagramType want = n.t == 0 ? RawDatagramType::Empty : n.t <= 4 ? RawDatagramType::Value : n.t == 5 ? RawDatagramType::List : RawDatagramType::Dictionary;
  if (d.GetType() != want) return path + ": type " + std::to_string((int)d.GetType()) + " instead of " + std::to_string((int)want);
  try {
    switch (n.t) {
      case 1: if (d.Get<int>() != n.i) return path + ": other integer"; break;
      case 2: if (d.Get<double>() != n.d) return path + ": other double"; break;
      case 3: if (d.Get<bool>() != n.b) return path + ": other boolean"; break;
      case 4: if (d.Get<std::string>() != n.s) return path + ": other string"; break;
      case 5: {
        if (d.GetCount() != n.kids.size()) return path + ": " + std::to_string(d.GetCount()) + " elements instead of " + std::to_string(n.kids.size());
        for (unsigned i = 0; i < n.kids.size(); ++i) { std::string r = diff(d[i], n.kids[i].second, path + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; }
      } break;
      case 6: {
        if (d.GetCount() != n.kids.size()) return path + ": " + std::to_string(d.GetCount()) + " keys instead of " + std::to_string(n.kids.size());
        for (auto& k : n.kids) {
          if (!d.KeyExists(k.first)) return path + "/" + k.first + ": missing";
          std::string r = diff(d[k.first], k.second, path + "/" + k.first); if (!r.empty()) return r;
        }
      } break;
    }
  } catch (std::exception& e) { return path + ": " + e.what(); }
  return "";
}
}  // namespace

Datagram make_payload(long id, u64 shape) { N n; { sim::Quiet q; n = spec(id, shape); } sim::NoSched ns; return build(n); }

long payload_id(Datagram& d) {
  std::string s;
  try {
    switch (d.GetType()) {
      case RawDatagramType::Value: s = d.Get<std::string>(); break;
      case RawDatagramType::Dictionary: if (!d.KeyExists("id")) return -1; s = d["id"].Get<std::string>(); break;
      case RawDatagramType::List: if (d.GetCount() < 1) return -1; s = d[0u].Get<std::string>(); break;
      default: return -1;
    }
  } catch (std::exception&) { return -1; }
  if (s.size() < 2 || s[0] != 'm') return -1;
  return atol(s.c_str() + 1);
}
std::string payload_diff(Datagram& d, long id, u64 shape) { N n; { sim::Quiet q; n = spec(id, shape); } sim::NoSched ns; return diff(Datagram(d), n, ""); }

// Change every leaf below d in place, following the containers instead of replacing them: a copy that still
// shares any part of the tree with d is changed too.
static void deep(Datagram& d, int depth) {
  if (depth <= 0) return;
  switch (d.GetType()) {
    case RawDatagramType::List: { unsigned n = d.GetCount(); for (unsigned i = 0; i < n; ++i) if (i < 5 || i + 3 >= n || i % 97 == 0) { Datagram&& c = d[i]; deep(c, depth - 1); } } break;
    case RawDatagramType::Dictionary: {
      static const char* keys[] = {"id", "a", "b", "c", "k", "longer key name", "", "a/b", "invocationId"};
      unsigned n = d.GetCount();
      for (auto k : keys) if (d.KeyExists(k)) { Datagram&& c = d[std::string(k)]; deep(c, depth - 1); }
      for (unsigned i = 0; i < n; ++i) if (i < 3 || i + 3 >= n || i % 97 == 0) { std::string k = "k" + std::to_string(i); if (d.KeyExists(k)) { Datagram&& c = d[k]; deep(c, depth - 1); } }
    } break;
    default: d = std::string("scribbled"); break;
  }
}
void scribble(Datagram& d, u64 how) {
  sim::NoSched ns;
  switch (how % 5) {
    case 0: {
      switch (d.GetType()) {
        case RawDatagramType::Dictionary: { static const char* keys[] = {"id", "b", "c"}; for (auto k : keys) if (d.KeyExists(k)) { Datagram sub = d[std::string(k)]; (void)sub; d[std::string(k)] = std::string("scribbled"); } d["new"] = 5; } break;
        case RawDatagramType::List: for (unsigned i = 0; i < d.GetCount(); ++i) d[i] = std::string("scribbled"); { d.Add(std::make_shared<lp::messages::RawDatagram>()); Datagram last = d[(unsigned int)(d.GetCount() - 1)]; last = 7; } break;
        default: d = std::string("scribbled"); break;
      }
    } break;
    case 1: if (d.GetType() == RawDatagramType::Dictionary || d.GetType() == RawDatagramType::List) d.Clear(); else d = 99; break;
    case 2: { if (d.GetType() == RawDatagramType::Dictionary) { for (auto k : {"b", "id"}) if (d.KeyExists(k)) { Datagram s = d[std::string(k)]; if (s.GetType() == RawDatagramType::Dictionary || s.GetType() == RawDatagramType::List) d[std::string(k)].Clear(); else d[std::string(k)] = true; } } else if (d.GetType() == RawDatagramType::List && d.GetCount()) d.Remove(0u); else d = false; } break;
    case 3: { Datagram z(std::string("replaced")); d = z; } break;
    case 4: deep(d, 200); break;
  }
}

// ---- configurations -----------------------------------------------------------------------------
namespace {
N cgen(sim::Rng& r, int depth) {
  N n = gen(r, 0);
  if (n.t == 4) { static const char* v[] = {"", "x", "text with \"quotes\" and \\ and \n", "/a/b", "\xc3\xa4", "true", "0", "two  spaces", " led", "trailed  ", "// no comment", "a, ]b }"}; n.s = v[r.below(12)]; if (r.below(9) == 0) n.s = std::string(300 + r.below(9000), 'z'); }
  if (depth > 0 && r.below(2)) {
    n = N(); n.t = r.below(2) ? 5 : 6; int c = r.range(0, 3); static const char* keys[] = {"a", "b", "enabled", "port-pub", "key with space"};
    for (int k = 0; k < c; ++k) { std::string key = n.t == 6 ? keys[(r.below(5))] : ""; bool dup = false; for (auto& x : n.kids) if (n.t == 6 && x.first == key) dup = true; if (!dup) n.kids.push_back({key, cgen(r, depth - 1)}); }
  }
  return n;
}
bool cspec(u64 shape, long token, N& n) {
  sim::Rng r(mix2(shape, 23));
  N id; id.t = 1; id.i = (int)token;
  switch (shape % 12) {
    case 0: case 1: case 2: n.t = 6; n.kids.push_back({"n", id}); break;
    case 3: case 4: { n.t = 6; n.kids.push_back({"n", id}); n.kids.push_back({"x", cgen(r, 3)}); n.kids.push_back({"y", cgen(r, 1)}); } break;
    case 5: { n.t = 5; n.kids.push_back({"", id}); int c = r.range(0, 3); for (int i = 0; i < c; ++i) n.kids.push_back({"", cgen(r, 2)}); } break;
    case 6: n.t = 6; break;
    case 7: n.t = 5; break;
    case 8: return false;
    case 9: n = cgen(r, 0); break;
    case 10: { n.t = 6; N in = cgen(r, 0); int depth = r.below(4) ? r.range(1, 20) : r.range(20, 150); for (int i = 0; i < depth; ++i) { N o; if (r.below(2)) { o.t = 5; o.kids.push_back({"", in}); } else { o.t = 6; o.kids.push_back({"k", in}); } in = o; } n.kids.push_back({"b", in}); n.kids.push_back({"n", id}); } break;
    case 11: { n.t = 6; n.kids.push_back({"n", id}); N a; a.t = 6; N l; l.t = 5; n.kids.push_back({"e", a}); n.kids.push_back({"l", l}); } break;
  }
  return true;
}
void render(const N& n, std::string& o) {
  char b[64];
  switch (n.t) {
    case 0: o += "null"; break;
    case 1: o += std::to_string(n.i); break;
    case 2: snprintf(b, sizeof b, "%.17g", n.d); o += b; if (!strpbrk(b, ".e")) o += ".0"; break;
    case 3: o += n.b ? "true" : "false"; break;
    case 4: o += '"'; for (char c : n.s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == 0) o += "?"; else o += c; } o += '"'; break;
    case 5: { o += "["; bool f = true; for (auto& k : n.kids) { if (!f) o += ", "; f = false; render(k.second, o); } o += "]"; } break;
    case 6: { o += "{"; bool f = true; for (auto& k : n.kids) { if (!f) o += ","; f = false; o += "\"" + k.first + "\": "; render(k.second, o); } o += "}"; } break;
  }
}
}  // namespace
std::string cfg_json(u64 shape, long token) { sim::Quiet q; N n; if (!cspec(shape, token, n)) return ""; std::string o; render(n, o); return o; }
std::string cfg_diff(Datagram& d, u64 shape, long token) { N n; { sim::Quiet q; if (!cspec(shape, token, n)) n = N(); } sim::NoSched ns; return diff(d, n, "configuration"); }
