// Access log scenario (H04): HttpHandlerLog in a handler stack behind HttpServer.
#include "hlib.h"
#include <QtCore/QBuffer>
using namespace sim; using namespace hc;
namespace {
enum Kind { Begin, End, Close };
static const char* kindName[] = {"begin", "completed", "close"};
struct Entry { Kind kind; bool plain = false; std::string text, address, date, method, uri, version, status, length, elapsed; int sink = 0; bool parsed = false; };
struct Want { Kind kind; bool plain = false; int id = 0; std::string date; u64 elapsed = 0; int status = 0; i64 length = -1, sent = 0; int sink = 0; std::string address; };
struct LogUnderTest { Pillow::HttpHandlerLog* log = 0; bool trace = false; int sink = 0; std::vector<Entry> got; std::vector<Want> want; std::map<Pillow::HttpConnection*, int> last; }; // last: request logged last on the connection's current client
struct Truth { u64 handledAt = 0; bool handled = false, logged = false, skipped = false, finished = false, completed = false, closed = false, headersWritten = false; int status = 0; i64 length = -1, sent = 0; bool head = false, chunked = false; std::string body; Pillow::HttpConnection* c = 0; std::string address; };
struct Sink;
struct World { QObject* server = 0; Pillow::HttpHandlerStack* stack = 0; std::vector<std::unique_ptr<LogUnderTest>> logs; std::vector<std::unique_ptr<HClient>> clients; std::map<int, Truth> truth; std::map<Pillow::HttpConnection*, int> current; std::set<Pillow::HttpConnection*> watched; std::vector<Sink*> sinks; std::map<Pillow::HttpConnection*, Session*> owner; u32 slow = 0; bool odd = false; };
static World* W;
static std::string wall() { return sb(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss").toUtf8()); }
static Entry parseEntry(const std::string& line)
{
	Entry e; e.text = line; e.kind = End; e.plain = true; size_t p = 0;
	if (!line.compare(0, 8, "[BEGIN] ")) { e.kind = Begin; p = 8; e.plain = false; } else if (!line.compare(0, 8, "[ END ] ")) { p = 8; e.plain = false; } else if (!line.compare(0, 8, "[CLOSE] ")) { e.kind = Close; p = 8; e.plain = false; }
	size_t q = line.find(" - - [", p); if (q == std::string::npos) return e; e.address = line.substr(p, q - p); p = q + 6;
	q = line.find("] \"", p); if (q == std::string::npos) return e; e.date = line.substr(p, q - p); p = q + 3;
	q = line.rfind("\" "); if (q == std::string::npos || q < p) return e; std::string rl = line.substr(p, q - p), rest = line.substr(q + 2);
	size_t a = rl.find(' '), b = rl.rfind(' '); if (a == std::string::npos || a == b) return e; e.method = rl.substr(0, a); e.uri = rl.substr(a + 1, b - a - 1); e.version = rl.substr(b + 1);
	a = rest.find(' '); b = rest.rfind(' '); if (a == std::string::npos || a == b) return e; e.status = rest.substr(0, a); e.length = rest.substr(a + 1, b - a - 1); e.elapsed = rest.substr(b + 1); e.parsed = true; return e;
}
// where log entries go; one sink may serve several logs one after the other, a sink belongs to one log at a time
struct Sink : QIODevice {
	int n; std::string pending; LogUnderTest* l = 0; bool failing = false;
	Sink(int n) : n(n) { open(QIODevice::WriteOnly | QIODevice::Unbuffered); }
	qint64 readData(char*, qint64) override { return -1; }
	qint64 writeData(const char* d, qint64 len) override { pending.append(d, (size_t)len); size_t k; while ((k = pending.find('\n')) != std::string::npos) { line(pending.substr(0, k)); pending.erase(0, k + 1); } return len; }
	void line(const std::string& s) { Entry e = parseEntry(s); e.sink = n; logf("log line (sink %d): %s", n, quote(s, 300).c_str()); if (!e.parsed) violate("H04", "malformed-entry", "the log contains a line that is no entry: " + quote(s, 300)); if (l) l->got.push_back(e); }
};
// ---- the application behind the log
static void noteBegin(Pillow::HttpConnection* c, HReq* r)
{
	World& w = *W; Truth& t = w.truth[r->id]; t.logged = true;
	for (auto& l : w.logs) { if (!l->log) continue; l->last[c] = r->id; if (l->trace) { Want x; x.kind = Begin; x.id = r->id; x.date = wall(); x.sink = l->sink; x.address = t.address; l->want.push_back(x); } }
}
static void onCompleted(Pillow::HttpConnection* c)
{
	World& w = *W; auto i = w.current.find(c); if (i == w.current.end()) return; int id = i->second; Truth& t = w.truth[id]; w.current.erase(i); t.completed = true; logf("request %d completed", id); if (!t.logged) { if (res && !t.skipped) violate("*", "harness", "completed a request that was not handled"); return; }
	if (!t.finished) violate("H04", "completed-early", fmt("request %d was completed before the application finished its response", id));
	for (auto& l : w.logs) { if (!l->log || !l->last.count(c)) continue; Want x; x.kind = End; x.plain = !l->trace; x.id = id; x.date = wall(); x.elapsed = now - t.handledAt; x.status = t.status; x.length = t.length; x.sent = t.sent; x.sink = l->sink; x.address = t.address; l->want.push_back(x); }
}
static void onClosed(Pillow::HttpConnection* c)
{
	World& w = *W; auto i = w.current.find(c); if (i != w.current.end()) { Truth& t = w.truth[i->second]; t.closed = true; t.c = 0; logf("request %d lost its connection", i->second); w.current.erase(i); }
	for (auto& l : w.logs) { auto k = l->last.find(c); if (k == l->last.end()) continue; int id = k->second; l->last.erase(k); if (!l->log || !l->trace) continue; Want x; x.kind = Close; x.id = id; x.date = wall(); x.sink = l->sink; Truth& t = w.truth[id]; x.address = t.address; x.status = t.headersWritten ? t.status : 0; x.length = t.headersWritten ? t.length : -1; x.sent = t.sent; l->want.push_back(x); }
}
static void watch(Pillow::HttpConnection* c)
{
	if (!W->watched.insert(c).second) return;
	QObject::connect(c, &Pillow::HttpConnection::requestCompleted, onCompleted); QObject::connect(c, &Pillow::HttpConnection::closed, onClosed);
	QObject::connect(c, &QObject::destroyed, [c]() { if (W) { onClosed(c); W->watched.erase(c); } });
}
static void step(int id, int plan, size_t off)
{
	World& w = *W; Truth& t = w.truth[id]; if (t.closed || t.completed || !t.c) return; Pillow::HttpConnection* c = t.c; HReq* r = reqById(id);
	size_t left = t.body.size() - off, n = t.length >= 0 ? std::min<size_t>(left, 1 + draw((u32)left + 1)) : std::min<size_t>(left, 1 + draw((u32)left + 1));
	if (!off && !t.headersWritten)
	{
		Pillow::HttpHeaderCollection h; static const int st[] = {200, 200, 404, 302, 500, 201, 304, 403}; int s = st[draw(8)]; if (W->odd && chance(1, 6)) { static const int odd[] = {999, 299, 0, 418, -1}; s = odd[draw(5)]; } if (s == 304) { t.body.clear(); plan = 0; }
		t.status = srv::statusOf(s); t.headersWritten = true;
		switch (plan) {
		case 0: t.length = (i64)t.body.size(); t.sent = t.head ? 0 : t.length; t.finished = true; logf("app answers %d: %d, %zu bytes", id, s, t.body.size()); c->writeResponse(s, h, qb(t.body)); return;
		case 1: t.length = (i64)t.body.size(); h << Pillow::HttpHeader("Content-Length", qb(num(t.length))); break;
		case 2: if (r->version == "HTTP/1.1") { h << Pillow::HttpHeader("Transfer-Encoding", "chunked"); t.chunked = true; } break;
		case 3: break;
		}
		if (t.head || t.length == 0) t.finished = true;
		logf("app writes the headers of %d: %d, length %lld", id, s, (long long)t.length); c->writeHeaders(s, h); if (t.finished) return;
	}
	else if (left) { std::string piece = t.body.substr(off, n); off += n; t.sent = (i64)off; if (t.length >= 0 && off == t.body.size()) t.finished = true; logf("app writes %zu bytes of %d", piece.size(), id); c->writeContent(qb(piece)); if (t.finished) return; }
	else { t.finished = true; logf("app ends %d", id); c->endContent(); return; }
	if (t.closed || t.completed) return;
	if (chance(1, 30)) { logf("app closes during %d", id); fault("app-close"); c->close(); return; }
	if (chance(1, 3)) appLater(draw(chance(1, 8) ? 5000000 : 30000) * us, [id, plan, off]() { step(id, plan, off); }); else step(id, plan, off);
}
static void answer(Pillow::HttpConnection* c, HReq* r)
{
	World& w = *W; Truth& t = w.truth[r->id]; t.head = r->head(); t.body = blob((u32)r->id, chance(1, 4) ? 0 : sizeDraw(chance(1, 6) ? 30000 : 300)); int plan = (int)wpick({6, 2, 2, 1}); int id = r->id; (void)c;
	if (chance(w.slow, 100)) { u64 d = chance(1, 3) ? (u64)draw(5000) * ms : (u64)draw(60000) * us; if (chance(1, 40)) { logf("app never answers %d", id); if (!r->abortKind) { r->abortKind = 1 + draw(2); Session* s = r->session; sim::at(draw(20) * sec, "client-gives-up", [r, s]() { if (!r->over && r->session == s) s->abort(r); }); } return; } appLater(d, [id, plan]() { step(id, plan, 0); }); }
	else if (chance(1, 25)) { fault("app-close"); logf("app closes instead of answering %d", id); c->close(); }
	else step(id, plan, 0);
}
struct First : Pillow::HttpHandler { // in front of the log: what it handles is none of the log's business
	First(QObject* p) : Pillow::HttpHandler(p) {}
	bool handleRequest(Pillow::HttpConnection* c) override
	{
		World& w = *W; HReq* r = reqOf(c); if (!r) { violate("*", "harness", "unknown request announced"); return true; }
		watch(c); w.current[c] = r->id; Truth& t = w.truth[r->id]; t.handled = true; t.handledAt = now; t.c = c; u32 ip = 0x0a000000 + (u32)r->session->wire->connId(); t.address = currentVia == Local ? std::string() : fmt("%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255);
		logf("app gets request %d", r->id); if (res) res->nontrivial |= 1;
		if (r->uri.compare(0, 5, "/skip")) return false;
		t.skipped = true; probe("not-logged-request"); answer(c, r); return true;
	}
};
struct Last : Pillow::HttpHandler {
	Last(QObject* p) : Pillow::HttpHandler(p) {}
	bool handleRequest(Pillow::HttpConnection* c) override { HReq* r = reqOf(c); noteBegin(c, r); answer(c, r); return true; }
};
static void give(LogUnderTest* l, int sink) { if (l->sink >= 0 && W->sinks[l->sink]) W->sinks[l->sink]->l = 0; l->sink = sink; if (sink >= 0) W->sinks[sink]->l = l; }
static std::string utf(const std::string& s) { return sb(QString::fromUtf8(s.data(), (int)s.size()).toUtf8()); }
static void compare()
{
	World& w = *W;
	for (auto& lp : w.logs)
	{
		LogUnderTest& l = *lp; size_t n = std::max(l.got.size(), l.want.size());
		for (size_t i = 0; i < n; ++i)
		{
			if (i >= l.got.size()) { Want& x = l.want[i]; violate("H04", "missing-entry", fmt("no %s entry for %s (entry %zu of the log)", kindName[x.kind], describe(*reqById(x.id)).c_str(), i)); return; }
			Entry& e = l.got[i];
			if (i >= l.want.size()) { violate("H04", "extra-entry", fmt("the log has an entry for which there is no reason: %s", quote(e.text, 300).c_str())); return; }
			Want& x = l.want[i]; HReq& r = *reqById(x.id); std::string what = fmt("entry %zu, %s, should be the %s entry of %s: ", i, quote(e.text, 300).c_str(), kindName[x.kind], describe(r).c_str());
			if (e.kind != x.kind || e.plain != x.plain) { violate("H04", "wrong-entry", what + "it is of another kind"); return; }
			if (e.method != r.method || e.uri != utf(r.uri) || e.version != r.version) { violate("H04", "wrong-request", what + "request line " + quote(r.method + " " + r.uri + " " + r.version, 200)); return; }
			if (e.address != x.address && !(e.address.empty() && r.session->aborted)) { violate("H04", "wrong-address", what + "address " + x.address); return; }
			if (e.date != x.date) { violate("H04", "wrong-date", what + "date " + x.date); return; }
			if (e.sink != x.sink) { violate("H04", "wrong-device", what + fmt("on device %d, not %d", x.sink, e.sink)); return; }
			if (x.kind == Begin) { if (e.status != "-" || e.length != "-" || e.elapsed != "-") violate("H04", "wrong-begin", what + "nothing is known of the response yet"); continue; }
			if (x.kind == Close && !x.status) { if (e.status != "0" && e.status != "-") violate("H04", "wrong-status", what + "there was no response, so no status"); if (e.length != "-1" && e.length != "-" && e.length != "0") violate("H04", "wrong-length", what + "there was no response, so no length"); }
			else { if (e.status != num(x.status)) violate("H04", "wrong-status", what + fmt("status %d", x.status)); if (e.length != num(x.length) && !(x.length < 0 && (e.length == num(x.sent) || e.length == "-"))) violate("H04", "wrong-length", what + fmt("length %lld", (long long)x.length)); }
			char* endp = 0; double el = strtod(e.elapsed.c_str(), &endp); if (*endp || endp == e.elapsed.c_str() || el < 0) { violate("H04", "wrong-elapsed", what + "elapsed time"); continue; }
			if (x.kind == End) { double d = el - x.elapsed / 1e9; if (d > 0.0015 || d < -0.0015) violate("H04", "wrong-elapsed", what + fmt("elapsed %.4f", x.elapsed / 1e9)); }
		}
	}
}
static void run(const std::string& prop)
{
	World w; W = &w; bool faults = chance(3, 4); net = randomNet(faults); makeScratch();
	w.server = listenVia(drawVia(), 8080, 0); w.stack = new Pillow::HttpHandlerStack; w.slow = chance(1, 4) ? 0 : 5 + draw(80); w.odd = chance(1, 3);
	for (int i = 0; i < 4; ++i) w.sinks.push_back(new Sink(i));
	new First(w.stack); u32 nl = chance(1, 4) ? 2 : 1;
	for (u32 i = 0; i < nl; ++i)
	{
		LogUnderTest* l = new LogUnderTest; w.logs.emplace_back(l); l->trace = chance(1, 2); l->sink = -1; bool nodev = i == 0 && chance(1, 8); int s = nodev ? -1 : (int)i * 2;
		switch (draw(3)) {
		case 0: l->log = new Pillow::HttpHandlerLog(l->trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests, nodev ? 0 : w.sinks[s], w.stack); break;
		case 1: l->log = new Pillow::HttpHandlerLog(nodev ? 0 : w.sinks[s], w.stack); if (l->trace) l->log->setMode(Pillow::HttpHandlerLog::TraceRequests); break;
		case 2: l->log = new Pillow::HttpHandlerLog(w.stack); if (!nodev) l->log->setDevice(w.sinks[s]); if (l->trace) l->log->setMode(Pillow::HttpHandlerLog::TraceRequests); break; }
		give(l, s);
	}
	new Last(w.stack);
	// without a device entries go to Qt's debug output
	onQtMessage = [&w](const QString& m) { for (auto& l : w.logs) if (l->log && l->sink < 0) { std::string s = sb(m.toUtf8()); while (!s.empty() && s.back() == ' ') s.pop_back(); Entry e = parseEntry(s); e.sink = -1; if (e.parsed) { logf("log line (debug output): %s", quote(s, 300).c_str()); l->got.push_back(e); } } };
	QObject::connect(w.server, SIGNAL(requestReady(Pillow::HttpConnection*)), w.stack, SLOT(handleRequest(Pillow::HttpConnection*)));
	bool skips = chance(1, 2), pct = chance(1, 2); u32 nc = 1 + draw(5); size_t total = 0;
	for (u32 i = 0; i < nc; ++i)
	{
		std::unique_ptr<HClient> cp(new HClient); HClient* c = cp.get(); c->id = (int)i; w.clients.push_back(std::move(cp)); c->pipeline = chance(1, 3) ? 1 + draw(5) : 1; c->splitSend = 20; slowClient(*c, 60000);
		u32 n = 1 + sizeDraw(14);
		for (u32 k = 0; k < n; ++k)
		{
			static const char* ms_[] = {"GET", "GET", "POST", "HEAD", "PUT", "OPTIONS"}; std::string m = ms_[draw(6)]; HReq* r = c->add(m, "/");
			std::string u = (skips && chance(1, 3) ? "/skip" : "/l") + num(r->id);
			if (pct) { u32 np = draw(5); for (u32 q = 0; q < np; ++q) switch (draw(5)) { case 0: u += fmt("%%%02X", 1 + draw(255)); break; case 1: u += fmt("%%%u", 1 + draw(9)); u += "abcdefABC"[draw(9)]; break; case 2: u += "/x"; break; case 3: u += chance(1, 2) ? "\"q\"" : "[%L1]"; break; case 4: u += "?a=%31&b=-"; break; } if (chance(1, 6)) u += "\xc3\xa9"; }
			if (chance(1, 30)) u += "/" + blob((u32)r->id, 2000, 2);
			r->uri = u;
			if (chance(1, 6)) { r->version = "HTTP/1.0"; if (chance(1, 2)) r->headers.push_back({"Connection", "keep-alive"}); } else if (chance(1, 10)) r->headers.push_back({"Connection", "close"});
			if (m == "POST" || m == "PUT") { r->body = blob(r->id, 1 + sizeDraw(chance(1, 10) ? 60000 : 300)); if (chance(1, 6) && r->version == "HTTP/1.1") r->headers.push_back({"Expect", "100-continue"}); }
			if (chance(1, 40)) { r->headers.push_back({"Content-Length", "-5"}); r->body.clear(); probe("bad-request"); } // answered by the server itself
			r->thinkBefore = chance(1, 3) ? (u64)draw(chance(1, 5) ? 20000 : 300) * ms : 0;
			if (chance(8, 100)) { r->abortKind = 1 + draw(2); if (chance(1, 2)) r->abortAfterBytes = sizeDraw(30000); else r->abortDelay = 1 + draw(chance(1, 3) ? 3000000 : 30000) * us; }
			total += 1;
		}
		c->onDone = [](HReq& r) { World& w = *W; Truth& t = w.truth[r.id]; if (t.skipped || !t.handled) return; if (!t.completed && r.resp.framing != Parsed::UntilClose) violate("H04", "completed-unsignalled", fmt("%s was answered completely, but not reported complete", describe(r).c_str())); if (t.status != r.resp.status) violate("H04", "wrong-status", fmt("%s: the client got status %d, expected %d", describe(r).c_str(), r.resp.status, t.status)); };
		at((u64)draw(200) * ms, "client-start", [c]() { c->start(); });
	}
	u32 changes = chance(1, 3) ? draw(6) : 0;
	for (u32 i = 0; i < changes; ++i) at((u64)draw(8000) * ms, "log-change", []() { appLater(0, []() { World& w = *W; LogUnderTest& l = *w.logs[draw((u32)w.logs.size())]; if (!l.log) return; int base = &l == w.logs[0].get() ? 0 : 2;
		switch (draw(5)) {
		case 0: case 1: l.trace = !l.trace; l.log->setMode(l.trace ? Pillow::HttpHandlerLog::TraceRequests : Pillow::HttpHandlerLog::LogCompletedRequests); logf("log mode: %s", l.trace ? "trace" : "completed"); break;
		case 2: { int s = base + (int)draw(2); if (!w.sinks[s]) break; give(&l, s); l.log->setDevice(w.sinks[s]); logf("log device: %d", s); break; }
		case 3: if (l.sink >= 0 && base == 0) { int s = l.sink; logf("log device %d deleted", s); give(&l, -1); delete w.sinks[s]; w.sinks[s] = 0; fault("log-device-deleted"); } break;
		case 4: if (w.logs.size() > 1 && base == 2) { logf("log handler deleted"); delete l.log; l.log = 0; fault("log-deleted"); } break;
		} }); });
	u32 skews = faults && chance(1, 3) ? 1 + draw(4) : 0;
	for (u32 i = 0; i < skews; ++i) at((u64)draw(8000) * ms, "clock-jump", []() { i64 d = (i64)draw(7200) * (i64)sec - 3600 * (i64)sec; wallSkew += d; fault("wall-clock-jump"); logf("wall clock jumps by %lld s", (long long)(d / (i64)sec)); });
	summary(fmt("log logs=%u%s clients=%u requests=%zu slow=%u changes=%u jumps=%u seg=%d%s%s", nl, w.logs[0]->trace ? " trace" : "", nc, total, w.slow, changes, skews, net.segMode, skips ? " unlogged-requests" : "", pct ? " percent" : ""));
	if (!pumpUntilQuiescent()) return;
	compare();
	for (auto& c : w.clients) { c->stopped = true; for (Session* s : c->sessions) if (!s->finished) { s->finished = true; s->wire->fin(); } }
	pumpUntilQuiescent();
	compare();
	for (auto& l : w.logs) if (l->log && !l->last.empty()) violate("H04", "not-closed", "a logged connection was never closed although its client has gone");
	for (auto& p : w.truth) if (p.second.logged && p.second.completed) for (auto& l : w.logs) { if (!l->log) continue; size_t n = 0; for (auto& x : l->want) n += x.kind == End && x.id == p.first; if (n > 1) violate("H04", "completed-twice", fmt("request %d was completed %zu times", p.first, n)); }
	onQtMessage = nullptr; delete w.server; pumpFor(ms); delete w.stack; for (Sink* s : w.sinks) delete s; W = 0; pumpFor(ms); noObjectsLeft("H04", "after everything was deleted");
}
SCENARIO(log, run);
}
