// Singletons under the explorer: one instance whoever comes first, destroyed once at the end.
#include <lightspeed/base/memory/singleton.h>
#include <lightspeed/mt/thread.h>
#include "vsworker.h"
using namespace LightSpeed;
static int fails = 0;
template<int N> struct Sing { int a, b; 
	Sing() { vs::evraw("\"e\":\"ctor\"," + vs::kv("t", vs::self()) + "," + vs::kv("o", N)); a = 1; vs::point(); if (N == 3 && fails > 0) { fails--; vs::evraw("\"e\":\"failed\"," + vs::kv("t", vs::self()) + "," + vs::kv("o", N)); throw 1; } b = 2; }
	~Sing() { vs::evraw("\"e\":\"dtor\"," + vs::kv("o", N)); a = b = 0; } };
template<int N> static void get() {
	vs::call("get", vs::kv("o", N)); bool ok = false;
	try { Sing<N> &s = Singleton<Sing<N> >::getInstance(); ok = s.a == 1 && s.b == 2 && &s == &Singleton<Sing<N> >::getInstance(); if (!ok) vs::evraw("\"e\":\"bad\""); } catch (int) {}
	vs::ret("get", rb(ok));
}
static void run(const std::string &p) { for (char c : p) switch (c) { case 'a': get<1>(); break; case 'b': get<2>(); break; case 'f': get<3>(); break; } }
void vs::registerScenarios() {
	std::vector<Progs> ps = { {"a","a"}, {"a","b"}, {"a","a","a"}, {"ab","ba"}, {"f","f"}, {"ff","f"}, {"fa","af"}, {"a","b","f"}, {"aba","b","a"} };
	for (int n = 0; n < 3; n++) for (auto &p : ps) { if (n && join(p).find('f') == std::string::npos) continue;
		vs::add("Once" + std::to_string(n) + join(p), "{\"n\":0}", [p, n]() {
			fails = n; vs::emitBlock(false);
			for (auto &x : p) vs::spawn(worker([x]() { run(x); }));
			vs::go();
			_intr::SingletonChunkBase::SingletonAtExit(); vs::evraw("\"e\":\"end\"");
		});
	}
}
