// Script scenario (H06): HttpHandlerQtScript and HttpHandlerQtScriptFile in a stack, over a script file that changes.
#include "hlib.h"
#include "HttpHandlerQtScript.h"
#include <QtScript/QScriptEngine>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim; using namespace hc;
namespace {
struct Version { int n = 0; enum K { Good, NoFunction, Syntax, ThrowsError, ThrowsString, NotAFunction, Empty, Changes, LateThrow } k = Good; std::string text; bool broken() const { return k != Good && k != Changes; } };
struct Outcome { enum K { Declined, Answered, Error, Cut } k = Declined; int version = 0, count = 0, status = 200; std::string what; };
struct Truth { Outcome exp; bool handled = false, late = false; };
struct FileModel { Pillow::HttpHandlerQtScriptFile* h = 0; std::string file, function; bool valid = false, autoReload = true; i64 mtime = 0; Version* loaded = 0; std::string loadedFunction; int count = 0; };
struct World { std::string root; QObject* server = 0; Pillow::HttpHandlerStack* stack = 0; QScriptEngine* engine = 0; Pillow::HttpHandlerQtScript* func = 0; Version* funcVersion = 0; int funcCount = 0; FileModel fm; bool useFunc = false, useFile = false; std::vector<std::unique_ptr<Version>> versions; std::map<std::string, Version*> onDisk; std::vector<std::unique_ptr<HClient>> clients; std::map<int, Truth> truth; std::map<Pillow::HttpConnection*, int> current; std::set<Pillow::HttpConnection*> watched; int next = 1; u32 slow = 0, eio = 0, defer = 0, gc = 0; std::set<Session*> cuts; Version* pendingChange = 0; i64 pendingMtime = 0; i64 clock = 1500000000; bool loadedNow = false; };
static World* W;
static std::string body(int version) { return fmt(
	"	var what = request.requestQueryParams['do'], id = request.requestHeaders['X-Id'];\n"
	"	if (what == 'decline') return false;\n"
	"	if (what == 'error') throw new Error('script error of ' + id);\n"
	"	if (what == 'undefined') return noSuchFunction(request);\n"
	"	if (what == 'member') return request.noSuchMember.thing;\n"
	"	if (what == 'string') throw 'a string of ' + id;\n"
	"	if (what == 'empty') throw '';\n"
	"	if (what == 'zero') throw 0;\n"
	"	if (what == 'number') throw 42;\n"
	"	if (what == 'true') throw true;\n"
	"	if (what == 'null') throw null;\n"
	"	if (what == 'undef') throw undefined;\n"
	"	if (what == 'object') throw { reason: 'an object of ' + id };\n"
	"	if (what == 'nasty') throw { toString: function() { throw new Error('again'); }, get x() { throw 'more'; } };\n"
	"	if (what == 'returned') return new Error('returned, not thrown');\n"
	"	if (what == 'caught') { try { throw new Error('inner'); } catch (e) { } }\n"
	"	var n = ++count, out = ['v%d', n, id, request.requestMethod, request.requestPath, request.requestContent, request.requestQueryParams['x']].join('|');\n"
	"	var headers = {'X-Script': 'v%d', 'X-Reply': id};\n"
	"	if (what == 'cut') { headers['Content-Length'] = '10'; request.nativeRequest.writeHeaders(200, headers); throw new Error('after the headers'); }\n"
	"	if (what == 'bare') { headers['Content-Length'] = '0'; request.nativeRequest.writeHeaders(200, headers); }\n"
	"	else request.nativeRequest.writeResponseString(what == 'created' ? 201 : 200, headers, out);\n"
	"	collect(); count += 0;\n"
	"	if (what == 'after-error') throw new Error('after the answer');\n"
	"	if (what == 'after-string') throw 'after the answer';\n"
	"	return true;\n", version, version); }
static Version* newVersion(Version::K k, const std::string& function)
{
	World& w = *W; Version* v = new Version; w.versions.emplace_back(v); v->n = w.next++; v->k = k; std::string f = "var count = 0;\nfunction " + function + "(request) {\n" + body(v->n) + "}\n";
	switch (k) {
	case Version::Good: v->text = f; break;
	case Version::Changes: v->text = "changeFile();\n" + f; break;
	case Version::NoFunction: v->text = "var count = 0;\nfunction somethingElse() { }\n"; break;
	case Version::Syntax: v->text = f + "function (((\n"; break;
	case Version::ThrowsError: v->text = f + "throw new Error('at load');\n"; break;
	case Version::ThrowsString: v->text = f + "throw 'at load';\n"; break;
	case Version::NotAFunction: v->text = "var count = 0;\nvar " + function + " = 'text';\n"; break;
	case Version::Empty: v->text = ""; break;
	case Version::LateThrow: v->text = f + "count = 5; undefinedThing.member = 1;\ncount = 6;\n"; break;
	}
	return v;
}
static void put(const std::string& file, Version* v, i64 mtime)
{
	std::string t = file + ".new"; writeFile(t, v->text); setMtime(t, mtime); ::rename(t.c_str(), file.c_str()); W->onDisk[file] = v; logf("%s becomes version %d (kind %d), time %lld", file.c_str() + W->root.size(), v->n, (int)v->k, (long long)mtime);
}
static i64 mtimeOf(const std::string& f) { struct stat st; return stat(f.c_str(), &st) ? -1 : (i64)st.st_mtime; }
static QScriptValue changeFile(QScriptContext*, QScriptEngine* e) { World& w = *W; if (w.pendingChange) { fault("file-changes-while-loading"); Version* v = w.pendingChange; w.pendingChange = 0; put(w.fm.file, v, w.pendingMtime); } return e->undefinedValue(); }
static std::string param(const HReq& r, const std::string& n) { size_t k = r.uri.find("?"); if (k == std::string::npos) return ""; std::string s = "&" + r.uri.substr(k + 1) + "&"; size_t p = s.find("&" + n + "="); if (p == std::string::npos) return ""; p += n.size() + 2; return s.substr(p, s.find('&', p) - p); }
static bool wantsError(const std::string& w) { static const char* e[] = {"error", "undefined", "member", "string", "empty", "zero", "number", "true", "null", "undef", "object", "nasty", "returned"}; for (const char* x : e) if (w == x) return true; return false; }
// the outcome of calling a loaded script
static void called(const HReq& r, Version* v, int& count, Outcome& o)
{
	std::string what = param(r, "do"); o.version = v->n; if (what == "decline") { o.k = Outcome::Declined; return; }
	if (wantsError(what)) { o.k = Outcome::Error; probe("script-throws"); return; }
	o.k = what == "cut" ? Outcome::Cut : Outcome::Answered; o.count = ++count; o.status = what == "created" ? 201 : 200;
}
static Outcome evalFile(const HReq& r)
{
	World& w = *W; FileModel& m = w.fm; Outcome o; i64 mt = mtimeOf(m.file); bool gone = mt < 0, denied = openDenied.count(m.file) > 0;
	if (!m.valid || (m.autoReload && !gone && mt > m.mtime))
	{
		if (gone || denied) { o.k = Outcome::Error; o.what = gone ? "the script file is missing" : "the script file is not readable"; probe("script-unreadable"); return o; }
		if (chance(w.eio, 100)) { fileFault.eio = 100; o.k = Outcome::Error; o.what = "the script file cannot be read"; probe("script-read-error"); return o; }
		Version* v = w.onDisk[m.file]; bool fits = v->text.find("function " + m.function + "(") != std::string::npos;
		if (v->broken() || !fits) { o.k = Outcome::Error; o.what = fmt("version %d of the script is broken", v->n); probe("script-broken"); if (v->k == Version::Changes) { } return o; }
		if (m.valid) probe("script-reloaded"); m.valid = true; m.mtime = mt; m.loaded = v; m.loadedFunction = m.function; m.count = 0;
	}
	called(r, m.loaded, m.count, o); o.what = fmt("version %d of the script file", m.loaded->n);
	return o;
}
static std::string expected(const HReq& r, const Outcome& o) { std::string p = r.uri.substr(0, r.uri.find('?')); return fmt("v%d|%d|%d|%s|%s|%s|%s", o.version, o.count, r.id, r.method.c_str(), srv::refPercentDecode(p).c_str(), r.body.c_str(), param(r, "x").c_str()); }
static void watch(Pillow::HttpConnection* c)
{
	if (!W->watched.insert(c).second) return;
	QObject::connect(c, &Pillow::HttpConnection::requestCompleted, [](Pillow::HttpConnection* c) { W->current.erase(c); });
	QObject::connect(c, &Pillow::HttpConnection::closed, [](Pillow::HttpConnection* c) { W->current.erase(c); });
}
static void handle(Pillow::HttpConnection* c, HReq* r)
{
	World& w = *W; Truth& t = w.truth[r->id]; Outcome o; fileFault.eio = 0;
	if (w.func && w.funcVersion) { called(*r, w.funcVersion, w.funcCount, o); o.what = fmt("script function %d", w.funcVersion->n); }
	if (o.k == Outcome::Declined && w.fm.h) o = evalFile(*r);
	t.exp = o; int id = r->id; static const char* names[] = {"declined", "answered", "an error", "cut"}; logf("request %d %s: expected to be %s by %s", id, quote(r->uri, 120).c_str(), names[o.k], o.what.c_str());
	if (o.k == Outcome::Cut) w.cuts.insert(r->session);
	if (chance(w.gc, 100)) w.engine->collectGarbage();
	bool h = w.stack->handleRequest(c); fileFault.eio = 0;
	if (!h) violate("H06", "unhandled", fmt("%s was handled by nobody", describe(*r).c_str()));
}
static void onReady(Pillow::HttpConnection* c)
{
	World& w = *W; HReq* r = reqOf(c); if (!r) { violate("*", "harness", "unknown request announced"); return; }
	watch(c); int id = r->id; w.current[c] = id; w.truth[id].handled = true; if (res) res->nontrivial |= 1;
	if (chance(w.defer, 100)) { probe("handled-later"); appLater(draw(50000) * us, [c, r, id]() { if (W && W->current.count(c) && W->current[c] == id) handle(c, r); }); } else handle(c, r);
}
struct Last : Pillow::HttpHandler {
	bool handleRequest(Pillow::HttpConnection* c) override
	{
		World& w = *W; HReq* r = reqOf(c); Truth& t = w.truth[r->id]; int id = r->id; t.late = true; logf("request %d was declined by the scripts", id);
		auto answer = [c, id]() { if (W->current.count(c) && W->current[c] == id) c->writeResponse(404, Pillow::HttpHeaderCollection() << Pillow::HttpHeader("X-Declined", qb(num(id))), "declined"); };
		if (chance(w.slow, 100)) appLater(draw(100000) * us, answer); else answer(); return true;
	}
};
static void onAnswer(HReq& r)
{
	World& w = *W; Truth& t = w.truth[r.id]; Outcome& o = t.exp; if (!t.handled) { violate("H06", "phantom", fmt("%s was answered without having been announced", describe(r).c_str())); return; }
	std::string d = fmt("%s, to be answered by %s, ", describe(r).c_str(), o.k == Outcome::Declined ? "the handler behind the scripts" : o.what.c_str()); int s = r.resp.status; const std::string* v = findHeader(r.resp.headers, "X-Script"), *rp = findHeader(r.resp.headers, "X-Reply"), *dec = findHeader(r.resp.headers, "X-Declined");
	switch (o.k) {
	case Outcome::Declined: if (!dec || *dec != num(r.id)) violate("H06", "wrong-response", d + fmt("was answered %d%s%s", s, v ? " by the script " : "", v ? v->c_str() : "")); break;
	case Outcome::Error: if (s != 500 || v || dec) violate("H06", "wrong-error", d + fmt("failed, and was answered %d%s%s instead of 500", s, v ? " by the script " : "", v ? v->c_str() : "")); break;
	case Outcome::Cut: if (!r.head()) violate("H06", "wrong-error", d + "failed after the headers, and was complete"); break;
	case Outcome::Answered:
		if (s != o.status || !v || *v != fmt("v%d", o.version)) { violate("H06", "wrong-script", d + fmt("was answered %d by %s, not %d by v%d: %s", s, v ? v->c_str() : "no script", o.status, o.version, quote(r.resp.body, 200).c_str())); break; }
		if (!rp || *rp != num(r.id)) violate("H06", "wrong-response", d + "got the answer of another request");
		if (!r.head() && r.resp.body != (param(r, "do") == "bare" ? "" : expected(r, o))) violate("H06", "wrong-content", d + "got " + quote(r.resp.body, 200) + " instead of " + quote(expected(r, o), 200));
		break;
	}
}
static void changeScript()
{
	World& w = *W; FileModel& m = w.fm; if (!m.h) return; i64 mt;
	switch (wpick({5, 1, 1})) { case 0: mt = ++w.clock; break; case 1: mt = w.clock; break; default: mt = w.clock - 1 - draw(1000); fault("file-time-goes-back"); break; }
	if (chance(1, 10)) { w.clock += draw(100000); mt = w.clock; }
	switch (wpick({6, 5, 2, 2, 2, 1, 1, 1})) {
	case 0: { Version* v = newVersion(Version::Good, m.function); put(m.file, v, mt); break; }
	case 1: { static const Version::K ks[] = {Version::NoFunction, Version::Syntax, Version::ThrowsError, Version::ThrowsString, Version::NotAFunction, Version::Empty, Version::LateThrow}; fault("script-broken"); put(m.file, newVersion(ks[draw(7)], m.function), mt); break; }
	case 2: ::unlink(m.file.c_str()); fault("script-deleted"); logf("script file deleted"); break;
	case 3: if (openDenied.count(m.file)) { openDenied.erase(m.file); logf("script file is readable again"); } else { openDenied.insert(m.file); fault("open-denied"); logf("script file is not readable"); } break;
	case 4: { w.pendingChange = newVersion(Version::Good, m.function); i64 first = ++w.clock; w.pendingMtime = chance(3, 4) ? ++w.clock : w.clock; put(m.file, newVersion(Version::Changes, m.function), first); break; }
	case 5: m.autoReload = !m.autoReload; m.h->setAutoReload(m.autoReload); logf("automatic reload %s", m.autoReload ? "on" : "off"); break;
	case 6: { std::string f = w.root + (chance(1, 2) ? "/b.js" : "/a.js"); if (!W->onDisk.count(f) || mtimeOf(f) < 0) put(f, newVersion(Version::Good, m.function), mt); if (f != m.file) m.valid = false; m.file = f; m.h->setFileName(QString::fromStdString(f)); w.pendingChange = 0; logf("script file name: %s", f.c_str() + w.root.size()); probe("file-name-changed"); break; }
	case 7: { std::string f = chance(1, 2) ? "handleRequest" : "serve"; if (f != m.function) m.valid = false; m.function = f; m.h->setFunctionName(QString::fromStdString(f)); logf("script function name: %s", f.c_str()); put(m.file, newVersion(Version::Good, f), mt); probe("function-name-changed"); break; }
	}
}
static QScriptValue makeFunction(Version* v) { return W->engine->evaluate(QString::fromStdString("(function() { var count = 0; return function(request) {\n" + body(v->n) + "}; })()")); }
static void run(const std::string& prop)
{
	World w; W = &w; bool faults = chance(3, 4); net = randomNet(faults); w.root = makeScratch(); w.slow = chance(1, 3) ? 0 : draw(90); if (chance(1, 2)) w.gc = 1 + draw(50); if (chance(1, 3)) w.defer = 1 + draw(60); if (faults && chance(1, 3)) w.eio = 1 + draw(50); if (faults && chance(1, 4)) { fileFault.shortRead = 1 + draw(50); fileFault.eintr = draw(30); }
	w.server = listenVia(drawVia(), 8080, onReady); w.stack = new Pillow::HttpHandlerStack; w.engine = new QScriptEngine; w.engine->globalObject().setProperty("changeFile", w.engine->newFunction(changeFile)); w.engine->globalObject().setProperty("collect", w.engine->newFunction([](QScriptContext*, QScriptEngine* e) -> QScriptValue { if (chance(W->gc, 100)) e->collectGarbage(); return e->undefinedValue(); }));
	int shape = (int)wpick({4, 2, 2}); bool noFile = false; // file, function, both
	if (shape != 0)
	{
		w.funcVersion = newVersion(Version::Good, "f"); QScriptValue f = makeFunction(w.funcVersion);
		if (chance(1, 2)) w.func = new Pillow::HttpHandlerQtScript(f, w.stack); else { w.func = new Pillow::HttpHandlerQtScript(w.stack); if (chance(1, 4)) w.funcVersion = 0; else w.func->setScriptFunction(f); }
	}
	if (shape != 1)
	{
		FileModel& m = w.fm; m.file = w.root + "/a.js"; m.function = chance(1, 3) ? "serve" : "handleRequest"; m.autoReload = chance(3, 4); noFile = chance(1, 8);
		if (!noFile) put(m.file, newVersion(chance(1, 6) ? Version::Syntax : Version::Good, m.function), w.clock);
		m.h = new Pillow::HttpHandlerQtScriptFile(w.engine, QString::fromStdString(m.file), QString::fromStdString(m.function), m.autoReload, w.stack);
	}
	(new Last)->setParent(w.stack);
	u32 nc = 1 + draw(4); size_t total = 0;
	for (u32 i = 0; i < nc; ++i)
	{
		std::unique_ptr<HClient> cp(new HClient); HClient* c = cp.get(); c->id = (int)i; w.clients.push_back(std::move(cp)); c->pipeline = chance(1, 2) ? 1 + draw(6) : 1; c->splitSend = 20; slowClient(*c, 20000);
		u32 n = 1 + sizeDraw(16);
		for (u32 k = 0; k < n; ++k)
		{
			static const char* ms_[] = {"GET", "POST", "HEAD", "PUT"}; std::string m = ms_[wpick({6, 3, 1, 1})]; HReq* r = c->add(m, "/"); std::string p = "/s" + num(r->id); if (chance(1, 6)) p += "/%41b%20c"; 
			static const char* dos[] = {"ok", "bare", "created", "decline", "error", "undefined", "member", "string", "empty", "zero", "number", "true", "null", "undef", "object", "nasty", "returned", "caught", "after-error", "after-string", "cut"};
			std::string what = dos[chance(1, 2) ? draw(4) : draw(21)]; r->uri = p + "?do=" + what + "&x=q" + num(r->id);
			if (chance(1, 8)) { r->version = "HTTP/1.0"; if (chance(1, 2)) r->headers.push_back({"Connection", "keep-alive"}); } else if (chance(1, 15)) r->headers.push_back({"Connection", "close"});
			if (m == "POST" || m == "PUT") { r->body = "body" + num(r->id) + std::string(sizeDraw(2000), 'y'); }
			r->thinkBefore = chance(1, 3) ? (u64)draw(1000) * ms : 0;
			if (chance(6, 100)) { r->abortKind = 1 + draw(2); if (chance(1, 2)) r->abortAfterBytes = sizeDraw(3000); else r->abortDelay = 1 + draw(30000) * us; }
			total += 1;
		}
		c->onDone = onAnswer; c->onOver = [](HReq& r) { if (!r.aborted && W->truth[r.id].handled && !W->cuts.count(r.session)) violate("H06", "not-answered", fmt("%s: the connection ended without a response", describe(r).c_str())); };
		at((u64)draw(1000) * ms, "client-start", [c]() { c->start(); });
	}
	u32 changes = shape != 1 ? draw(14) : 0, gcs = draw(4), noise = chance(1, 3) ? draw(4) : 0;
	for (u32 i = 0; i < changes; ++i) at((u64)draw(5000) * ms, "script-change", changeScript);
	for (u32 i = 0; i < gcs; ++i) at((u64)draw(5000) * ms, "collect", []() { appLater(0, []() { if (W) W->engine->collectGarbage(); }); });
	for (u32 i = 0; i < noise; ++i) at((u64)draw(5000) * ms, "app-script", []() { appLater(0, []() { if (W) { W->engine->evaluate("throw 'of the application'"); fault("exception-left-in-engine"); } }); });
	if (w.func && chance(1, 2)) at((u64)draw(3000) * ms, "set-function", []() { appLater(0, []() { World& w = *W; if (chance(1, 4)) { w.func->setScriptFunction(QScriptValue(42)); w.funcVersion = 0; } else { w.funcVersion = newVersion(Version::Good, "f"); w.funcCount = 0; w.func->setScriptFunction(makeFunction(w.funcVersion)); } logf("script function set"); }); });
	summary(fmt("script shape=%d%s clients=%u requests=%zu changes=%u seg=%d%s", shape, w.fm.autoReload ? " auto" : "", nc, total, changes, net.segMode, noFile ? " no-file" : ""));
	if (!pumpUntilQuiescent()) return;
	for (auto& c : w.clients) for (auto& r : c->reqs) if (!r->over) { if (!r->sent && r->idx > 0 && !c->reqs[r->idx - 1]->over) continue; violate("H06", "left-waiting", fmt("%s, to be answered by %s, was never answered", describe(*r).c_str(), w.truth[r->id].exp.what.c_str())); }
	for (auto& c : w.clients) { c->stopped = true; for (Session* s : c->sessions) if (!s->finished) { s->finished = true; s->wire->fin(); } }
	pumpUntilQuiescent();
	delete w.server; pumpFor(ms); delete w.stack; delete w.engine; W = 0; pumpFor(ms); noObjectsLeft("H06", "after everything was deleted");
}
SCENARIO(script, run);
}
