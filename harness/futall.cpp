// Future && Future under the explorer: the pair is delivered once both parts are there.
#include <lightspeed/base/containers/variant.h>
#include <lightspeed/base/actions/promise.h>
#include <lightspeed/base/actions/promise.tcc>
#include <lightspeed/base/sync/synchronize.h>
#include <lightspeed/base/exceptions/errorMessageException.h>
#include <lightspeed/mt/exceptions/timeoutException.h>
#include <lightspeed/base/text/toString.h>
#include "vsworker.h"
using namespace LightSpeed;
class CodeEx : public ErrorMessageException { public: LIGHTSPEED_EXCEPTIONFINAL;
	long code; CodeEx(const ProgramLocation &l, long c):ErrorMessageException(l, String("code")), code(c) {} };
struct St { Future<int> f[2]; Promise<int> *p[2]; Future<VariantPair> r; bool comb; };
// r/s resolve first/second, e/f reject first/second, w wait for the pair, t timed wait, c combine
static void run(St *s, const std::string &p) {
	Future<VariantPair> r(null);
	for (char c : p) switch (c) {
		case 'r': case 's': { int i = c == 's'; vs::call("res", vs::kv("i", i) + "," + vs::kv("v", 10 + i)); s->p[i]->resolve(10 + i); vs::ret("res"); } break;
		case 'e': case 'f': { int i = c == 'f'; vs::call("res", vs::kv("i", i) + "," + vs::kv("v", -10 - i)); s->p[i]->reject(CodeEx(THISLOCATION, -10 - i)); vs::ret("res"); } break;
		case 'c': r = s->f[0] && s->f[1]; break;
		case 'w': case 't': { const char *n = c == 'w' ? "wait" : "waitTm"; vs::call(n); long a = 0, b = 0;
			try { VariantPair x = (r == null ? s->r : r).wait(c == 'w' ? Timeout() : Timeout(50)); a = *x.first.template getPtr<int>(); b = *x.second.template getPtr<int>(); }
			catch (const TimeoutException &) {} catch (const Exception &e) { const CodeEx *q = dynamic_cast<const CodeEx *>(&e); a = b = q ? q->code : -999; }
			vs::ret(n, vs::kv("a", a) + "," + vs::kv("b", b)); } break;
	}
}
void vs::registerScenarios() {
	std::vector<Progs> ps = { {"r","s","w"}, {"r","s","cw"}, {"rs","w"}, {"sr","w"}, {"e","s","w"}, {"r","f","w"}, {"e","f","w"}, {"r","w"}, {"s","ct"}, {"rs","cw"}, {"r","s","t"}, {"r","s","w","w"}, {"ef","cw"} };
	for (int d = 0; d < 2; d++) for (auto &p : ps) {
		if (d && p.size() > 2) continue;
		vs::add(std::string(d ? "AllD" : "All") + join(p), "{\"n\":0}", [p, d]() {
			St *s = new St; for (int i = 0; i < 2; i++) s->p[i] = new Promise<int>(s->f[i].getPromise());
			s->r = s->f[0] && s->f[1];
			vs::emitBlock(true);
			for (size_t i = 0; i < p.size(); i++) { std::string x = p[i]; auto f = [s, x]() { run(s, x); }; vs::spawn(d ? workerD(f) : worker(f)); }
			vs::go();
		});
	}
}
