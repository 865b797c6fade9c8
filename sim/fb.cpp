#include "fb.h"
#include <cstring>
#include <cmath>
#include <map>
using sim::u64; using sim::u32; using sim::Rng;
namespace fb {
namespace {
typedef uint16_t u16;
struct Bad {};
struct Open {};     // readable, but not for us to judge
struct Rd {
  const std::string& b; bool open = false; int budget = 20000; bool gray = false;
  explicit Rd(const std::string& x) : b(x) {}
  template <class T> T at(u64 p) const { if (p > b.size() || b.size() - p < sizeof(T)) throw Bad(); T v; memcpy(&v, b.data() + p, sizeof v); return v; }
  u64 ref(u64 p) const { u32 o = at<u32>(p); u64 t = p + o; if (t + 4 > b.size()) throw Bad(); return t; }
  // position of field k of the table at t, or 0
  u64 field(u64 t, int k) {
    int32_t so = at<int32_t>(t); int64_t v = (int64_t)t - so; if (v < 0) throw Bad();
    u16 sz = at<u16>((u64)v); if (sz < 4 || (u64)v + sz > b.size()) open = true;
    if (4 + 2 * k + 2 > sz) return 0;
    u16 o = at<u16>((u64)v + 4 + 2 * k);
    return o ? t + o : 0;
  }
  std::string str(u64 fieldpos) const { u64 s = ref(fieldpos); u32 n = at<u32>(s); if (s + 4 + (u64)n > b.size()) throw Bad(); return b.substr(s + 4, n); }
};
std::string dbl(double d) { if (d == 0) d = 0; if (d != d) return "Dnan"; u64 x; memcpy(&x, &d, 8); char t[32]; snprintf(t, sizeof t, "D%llx", (unsigned long long)x); return t; }
std::string sd(const std::string& s) { return "S" + std::to_string(s.size()) + ":" + s; }
std::string dg(Rd& r, u64 t, int depth) {
  if (--r.budget < 0 || depth > 900) throw Open();
  int8_t ty = 0; if (u64 p = r.field(t, 0)) ty = r.at<int8_t>(p);
  switch (ty) {
    case 0: return "E";
    case 1: {
      int8_t vt = 0; if (u64 p = r.field(t, 1)) vt = r.at<int8_t>(p);
      switch (vt) {
        case 0: { u64 p = r.field(t, 2); if (!p) { r.open = true; return "?"; } return sd(r.str(p)); }
        case 1: { u64 p = r.field(t, 3); return "I" + std::to_string(p ? r.at<int32_t>(p) : 0); }
        case 2: { u64 p = r.field(t, 4); return dbl(p ? r.at<double>(p) : 0.0); }
        case 3: { u64 p = r.field(t, 5); uint8_t v = p ? r.at<uint8_t>(p) : 0; if (v > 1) r.open = true; return v ? "B1" : "B0"; }
        default: r.open = true; return "?";
      }
    }
    case 2: {
      u64 p = r.field(t, 6); if (!p) { r.open = true; return "?"; }
      u64 v = r.ref(p); u32 n = r.at<u32>(v); if (v + 4 + 4ull * n > r.b.size()) throw Bad();
      std::string s = "L" + std::to_string(n) + "["; for (u32 i = 0; i < n; ++i) s += dg(r, r.ref(v + 4 + 4ull * i), depth + 1) + ","; return s + "]";
    }
    case 3: {
      u64 pk = r.field(t, 7), pc = r.field(t, 8); if (!pk || !pc) { r.open = true; return "?"; }
      u64 vk = r.ref(pk), vc = r.ref(pc); u32 nk = r.at<u32>(vk), nc = r.at<u32>(vc);
      if (vk + 4 + 4ull * nk > r.b.size() || vc + 4 + 4ull * nc > r.b.size()) throw Bad();
      if (nk != nc) { r.open = true; return "?"; }
      std::map<std::string, std::string> m;
      for (u32 i = 0; i < nk; ++i) { std::string k = r.str(vk + 4 + 4ull * i); std::string c = dg(r, r.ref(vc + 4 + 4ull * i), depth + 1); if (m.count(k)) r.open = true; m[k] = c; }
      std::string s = "M" + std::to_string(m.size()) + "{"; for (auto& x : m) s += sd(x.first) + "=" + x.second + ","; return s + "}";
    }
    default: r.open = true; return "?";
  }
}
}  // namespace
int decode(const std::string& bytes, std::string& sender, std::string& topic, std::string& dump) {
  Rd r(bytes); dump.clear(); sender.clear(); topic.clear();
  try {
    u64 root = r.ref(0);
    u64 s = r.field(root, 0), t = r.field(root, 1), d = r.field(root, 2);
    if (!s || !t || !d) return 0;
    sender = r.str(s); topic = r.str(t);
    dump = dg(r, r.ref(d), 0);
  } catch (Bad&) { return 0; } catch (Open&) { return 2; }
  return r.open ? 2 : 1;
}

std::string dump(const N& n) {
  switch (n.t) {
    case 1: return "I" + std::to_string(n.i);
    case 2: return dbl(n.d);
    case 3: return n.b ? "B1" : "B0";
    case 4: return sd(n.s);
    case 5: { std::string s = "L" + std::to_string(n.kids.size()) + "["; for (auto& k : n.kids) s += dump(k.second) + ","; return s + "]"; }
    case 6: { std::map<std::string, std::string> m; for (auto& k : n.kids) m[k.first] = dump(k.second); std::string s = "M" + std::to_string(m.size()) + "{"; for (auto& x : m) s += sd(x.first) + "=" + x.second + ","; return s + "}"; }
    default: return "E";
  }
}

namespace {
// Written front to back: every reference points forwards, as the format wants it.
struct Wr {
  std::string b; Rng& r; int odd; bool used = false;
  Wr(Rng& r_, int o) : r(r_), odd(o) {}
  bool take(int o) { if (!(odd & o) || r.below(2)) return false; used = true; return true; }
  void align(size_t n) { while (b.size() % n) b += '\0'; }
  template <class T> void put(u64 p, T v) { memcpy(&b[p], &v, sizeof v); }
  template <class T> u64 add(T v) { align(sizeof v); u64 p = b.size(); b.append((const char*)&v, sizeof v); return p; }
  void point(u64 p) { put<u32>(p, (u32)(b.size() - p)); }
  // a table with the given fields; size 0: absent, 1, 4, 8 bytes; returns positions of the fields
  std::vector<u64> table(u64 from, const std::vector<std::pair<int, int>>& f, int nf, u64* self = nullptr) {
    align(2); u64 vt = b.size(); b.append(4 + 2 * (size_t)nf, '\0');
    align(8); if (f.size() && 0) {} u64 t = b.size(); point(from); if (self) *self = t;
    b.append(4, '\0'); put<int32_t>(t, (int32_t)(t - vt));
    std::vector<u64> pos((size_t)nf, 0);
    for (auto& x : f) { align((size_t)x.second); pos[(size_t)x.first] = b.size(); b.append((size_t)x.second, '\0'); put<u16>(vt + 4 + 2 * (u64)x.first, (u16)(pos[(size_t)x.first] - t)); }
    put<u16>(vt, (u16)(4 + 2 * nf)); put<u16>(vt + 2, (u16)(b.size() - t));
    return pos;
  }
  void str(u64 from, const std::string& s) { align(4); point(from); add<u32>((u32)s.size()); b += s; if (!take(NO_NUL)) b += '\0'; else if (r.below(2)) b += 'Z'; }
  u64 vec(u64 from, u32 n) { align(4); point(from); u32 shown = n; if (take(HUGE_VECTOR)) { static const u32 v[] = {0xffffffffu, 0x7fffffffu, 0x40000000u, 0x3fffffffu, 1000000, 0x80000000u}; shown = v[r.below(6)]; } add<u32>(shown); u64 p = b.size(); b.append(4ull * n, '\0'); return p; }
  void dg(u64 from, const N& n) {
    std::vector<std::pair<int, int>> f; int ty = n.t == 0 ? 0 : n.t <= 4 ? 1 : n.t == 5 ? 2 : 3, vt = n.t == 1 ? 1 : n.t == 2 ? 2 : n.t == 3 ? 3 : 0;
    bool all = odd & ALL_FIELDS;
    if (ty || all) f.push_back({0, 1});
    if (vt || all) f.push_back({1, 1});
    bool ns = n.t == 4 && !take(NO_STRING), nl = n.t == 5 && !take(NO_LIST), nd = n.t == 6 && !take(NO_LIST);
    if (ns) f.push_back({2, 4});
    if ((n.t == 1 && n.i) || all) f.push_back({3, 4});
    if ((n.t == 2 && n.d) || all) f.push_back({4, 8});
    if ((n.t == 3 && n.b) || all) f.push_back({5, 1});
    if (nl) f.push_back({6, 4});
    if (nd) { f.push_back({7, 4}); f.push_back({8, 4}); }
    u64 self = 0; auto p = table(from, f, 9, &self);
    if (p[0]) put<int8_t>(p[0], (int8_t)(take(BAD_TYPE) ? 4 + (int)r.below(200) : ty));
    if (p[1]) put<int8_t>(p[1], (int8_t)(take(BAD_VALUE_TYPE) ? 4 + (int)r.below(200) : vt));
    if (p[3]) put<int32_t>(p[3], n.i);
    if (p[4]) put<double>(p[4], n.d);
    if (p[5]) put<uint8_t>(p[5], take(BAD_VALUE_TYPE) ? 77 : n.b);
    if (ns) str(p[2], n.s);
    if (nl) { u32 c = (u32)n.kids.size(); u64 v = vec(p[6], c); for (u32 i = 0; i < c; ++i) child(v + 4 * i, n.kids[i].second, self); }
    if (nd) {
      u32 c = (u32)n.kids.size(), ck = c, cc = c; if (c && take(MISMATCH)) (r.below(2) ? ck : cc) = (u32)r.below(c);
      u64 v = vec(p[7], ck); for (u32 i = 0; i < ck; ++i) str(v + 4 * i, i && take(DUP_KEY) ? n.kids[0].first : n.kids[i].first);
      v = vec(p[8], cc); for (u32 i = 0; i < cc; ++i) child(v + 4 * i, n.kids[i].second, self);
    }
  }
  void child(u64 at, const N& n, u64 self) {
    if (take(DANGLING_CHILD)) { static const u32 v[] = {0, 4, 0xffffffffu, 0x7ffffffcu, 0x10000, 0x80000000u}; put<u32>(at, v[r.below(6)]); return; }
    if (take(SELF_REF)) { put<u32>(at, (u32)(self - at)); return; }   // wraps around: a reference backwards
    dg(at, n);
  }
};
}
std::string encode(const std::string& sender, const std::string& topic, const N& n, int odd, Rng& r) {
  Wr w(r, odd); w.b.append(4, '\0');
  std::vector<std::pair<int, int>> f; bool a = !(odd & NO_SENDER), b = !(odd & NO_TOPIC), c = !(odd & NO_DATAGRAM);
  if (a) f.push_back({0, 4}); if (b) f.push_back({1, 4}); if (c) f.push_back({2, 4});
  auto p = w.table(0, f, 3);
  if (a) w.str(p[0], sender); if (b) w.str(p[1], topic); if (c) w.dg(p[2], n);
  return w.b;
}
N chain(int depth, int kind, Rng& r) { N n; n.t = 4; n.s = "end"; for (int i = 0; i < depth; ++i) { N o; bool l = kind == 0 || (kind == 2 && r.below(2)); o.t = l ? 5 : 6; o.kids.push_back({l ? "" : "k", N()}); std::swap(o.kids[0].second, n); n = std::move(o); } return n; }
N tree(int depth, Rng& r) {
  N n; n.t = r.range(0, depth > 0 ? 6 : 4); n.i = (int)r.next(); n.d = (double)r.below(1000) / 8; n.b = r.below(2); n.s = std::string(r.below(9), 'v');
  if (n.t == 5) for (int k = r.range(0, 3); k > 0; --k) n.kids.push_back({"", tree(depth - 1, r)});
  if (n.t == 6) for (int k = r.range(0, 3); k > 0; --k) n.kids.push_back({"k" + std::to_string(k), tree(depth - 1, r)});
  return n;
}
}  // namespace fb
