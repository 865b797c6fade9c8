// json-c: the real library, with its parsers and values counted.
#include "stubs.h"
using namespace sim;
extern "C" {
struct json_object; struct json_tokener;
json_tokener* json_tokener_new(void); json_tokener* json_tokener_new_ex(int); void json_tokener_free(json_tokener*);
json_object* json_tokener_parse(const char*); json_object* json_tokener_parse_verbose(const char*, int*); json_object* json_tokener_parse_ex(json_tokener*, const char*, int);
int json_object_put(json_object*); json_object* json_object_get(json_object*);
}
namespace js { long tokeners = 0, objects = 0; static long used = 0; long uses() { return used; } }
extern "C" {
json_tokener* sim_json_tokener_new(void) { Quiet q; json_tokener* t = json_tokener_new(); if (t) js::tokeners++; return t; }
json_tokener* sim_json_tokener_new_ex(int d) { Quiet q; json_tokener* t = json_tokener_new_ex(d); if (t) js::tokeners++; return t; }
void sim_json_tokener_free(json_tokener* t) { Quiet q; if (t) js::tokeners--; json_tokener_free(t); }
json_object* sim_json_tokener_parse(const char* s) { Quiet q; js::used++; json_object* o = json_tokener_parse(s); if (o) js::objects++; return o; }
json_object* sim_json_tokener_parse_verbose(const char* s, int* e) { Quiet q; js::used++; json_object* o = json_tokener_parse_verbose(s, e); if (o) js::objects++; return o; }
json_object* sim_json_tokener_parse_ex(json_tokener* t, const char* s, int n) { Quiet q; js::used++; json_object* o = json_tokener_parse_ex(t, s, n); if (o) js::objects++; return o; }
int sim_json_object_put(json_object* o) { Quiet q; if (o) js::objects--; return json_object_put(o); }
json_object* sim_json_object_get(json_object* o) { Quiet q; if (o) js::objects++; return json_object_get(o); }
}
