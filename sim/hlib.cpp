#include "hlib.h"
namespace hc {
int nextReqId = 1; static std::map<int, HReq*> byId; static int nextSession = 0;
const char* viaName[] = {"tcp", "tls", "local"}; Via currentVia = Tcp; Via drawVia(u32 tcp) { return (Via)wpick({tcp, 1, 1}); } static const std::string localName = "/tmp/pillow-sim-local";
QObject* listenVia(Via v, u16 port, void (*ready)(Pillow::HttpConnection*))
{
	currentVia = v; probe(v == Tls ? "via-tls" : v == Local ? "via-local-socket" : "via-tcp");
	if (v == Local) { Pillow::HttpLocalServer* s = new Pillow::HttpLocalServer(QString::fromStdString(localName)); if (ready) QObject::connect(s, &Pillow::HttpLocalServer::requestReady, ready); return s; }
	Pillow::HttpServer* s = v == Tls ? new Pillow::HttpsServer(srv::tlsCert(), srv::tlsKey(), QHostAddress("127.0.0.1"), port) : new Pillow::HttpServer(QHostAddress("127.0.0.1"), port); if (ready) QObject::connect(s, &Pillow::HttpServer::requestReady, ready); return s;
}
HReq* reqById(int id) { auto i = byId.find(id); return i == byId.end() ? 0 : i->second; }
HReq* reqOf(Pillow::HttpConnection* c) { return reqById(c->requestHeaderValue("X-Id").toInt()); }
std::string describe(const HReq& r) { return fmt("request %d (client %d: %s %s)", r.id, r.client->id, r.method.c_str(), quote(r.uri, 80).c_str()); }
Pillow::HttpHeaderCollection toPillow(const Headers& h) { Pillow::HttpHeaderCollection c; for (auto& p : h) c << Pillow::HttpHeader(qb(p.first), qb(p.second)); return c; }
std::string HReq::wire() const
{
	std::string s = method + " " + uri + " " + version + "\r\nX-Id: " + num(id) + "\r\n"; for (auto& h : headers) s += h.first + ": " + h.second + "\r\n";
	if (!body.empty()) s += "Content-Length: " + num((i64)body.size()) + "\r\n"; return s + "\r\n" + body;
}
bool keepAnnounced(const HReq& r) { const std::string* c = findHeader(r.resp.headers, "connection"); return r.resp.version == "HTTP/1.1" ? !(c && ieq(*c, "close")) : (c && ieq(*c, "keep-alive")); }
void slowClient(HClient& c, u32 maxResponse)
{
	if (chance(1, 3)) { c.chunk = 1 + sizeDraw(5000); if (maxResponse / c.chunk > 2000) c.chunk = maxResponse / 2000 + 1; c.delay = chance(1, 2) ? draw(50) * ms : 0; }
	if (chance(1, 6)) { c.pausePeriod = 1 + draw(30000); c.pauseEach = chance(1, 2); }
}
HReq* HClient::add(const std::string& m, const std::string& u) { auto r = std::make_shared<HReq>(); r->id = nextReqId++; byId[r->id] = r.get(); r->client = this; r->idx = (int)reqs.size(); r->method = m; r->uri = u; reqs.push_back(r); return r.get(); }
void HClient::start()
{
	if (stopped || next >= reqs.size()) return;
	Session* s = new Session; s->c = this; s->n = nextSession++; cur = s; sessions.push_back(s); s->wire = via == Tls ? srv::tlsWire(s, chunk, delay, srv::TlsOpts()) : srv::rawWire(s, chunk, delay); if (via == Local) srv::connectLocal(s->wire, localName); else srv::connectRaw(s->wire, port);
}
void HClient::more()
{
	Session* s = cur; if (!s || s->finished || !s->up || s->ended || !s->lastKeep) return;
	while (next < reqs.size() && s->waiting.size() < pipeline)
	{
		HReq* r = reqs[next].get();
		if (r->thinkBefore) { u64 d = r->thinkBefore; r->thinkBefore = 0; at(d, "client-think", [this]() { more(); }); return; }
		++next; send(r); if (s->finished) return;
	}
}
void HClient::send(HReq* r)
{
	Session* s = cur; r->session = s; r->sent = true; r->sentAt = now; s->waiting.push_back(r); if (beforeSend) beforeSend(*r);
	std::string w = r->wire(); logf("client %d sends request %d", id, r->id);
	if (splitSend && pipeline == 1 && chance(splitSend, 100) && w.size() > 1) { size_t k = 1 + draw((u32)w.size() - 1); s->wire->send(w.substr(0, k)); std::string rest = w.substr(k); at(draw(20000) * us, "client-rest", [s, rest]() { if (!s->finished) s->wire->send(rest); }); }
	else s->wire->send(w);
	if (r->abortKind && r->abortDelay) at(r->abortDelay, "client-abort", [s, r]() { if (!r->over) s->abort(r); });
	else if (r->abortKind && r->abortAfterBytes < 0) s->abort(r);
	if (pausePeriod && (pauseEach || r->idx == 0)) { s->wire->pause(true); srv::Wire* wr = s->wire; at((u64)pausePeriod * ms, "client-resume", [wr]() { wr->pause(false); }); }
}
void Session::onUp() { c->more(); }
void Session::onFail() { finished = true; for (HReq* r : waiting) r->over = true; waiting.clear(); HClient* k = c; if (++k->fails < 50) at(100 * ms, "client-retry", [k]() { k->start(); }); }
void Session::onBytes()
{
	if (finished) return;
	if (!waiting.empty()) { HReq* r = waiting.front(); if (r->abortKind && r->abortAfterBytes >= 0 && (i64)(in.size() - off) >= r->abortAfterBytes) { check(); if (!finished && !waiting.empty() && waiting.front() == r) { abort(r); return; } } }
	if (!checkQueued) { checkQueued = true; at(ms / 4, "client-check", [this]() { checkQueued = false; check(); }); }
}
void Session::check()
{
	if (finished) return;
	while (!waiting.empty())
	{
		HReq* r = waiting.front(); r->got = in.size() - off;
		if (!ended && r->resp.headersDone && !r->head() && r->respOff == off && in.size() < r->parsedAt * 5 / 4 && (r->resp.framing == Parsed::Length ? in.size() - off < r->resp.headerBytes + (size_t)r->resp.length : r->resp.framing == Parsed::UntilClose || (r->resp.framing == Parsed::Chunked && in.find("\r\n\r\n", r->parsedAt - 3) == std::string::npos))) break; // not worth parsing again yet
		r->parsedAt = in.size(); r->respOff = off;
		Parsed p = parseResponse(in, off, r->head(), ended);
		if (p.headersDone && !p.bad && p.status == 100) { off += p.headerBytes; continue; }
		r->resp = p;
		if (c->onPartial && r->got) c->onPartial(*r);
		if (p.bad || !p.complete) break;
		off = p.consumed; waiting.pop_front(); r->done = r->over = true; r->doneAt = now; lastDone = r; r->wasReset = wasReset; logf("client %d response %d complete: %d, %zu bytes", c->id, r->id, p.status, p.body.size());
		if (p.framing == Parsed::UntilClose || !keepAnnounced(*r)) lastKeep = false;
		if (c->onDone) c->onDone(*r);
		if (finished) return;
		if (!lastKeep) break;
		c->more();
	}
	if (off > 4 << 20) { in.erase(0, off); off = 0; }
}
void Session::finishAll() { if (finished) return; finished = true; std::deque<HReq*> w; w.swap(waiting); for (HReq* r : w) { r->over = true; r->ended = ended; r->wasReset = wasReset; r->doneAt = now; if (c->onOver) c->onOver(*r); } }
void Session::abort(HReq* r) { if (finished) return; fault(r->abortKind == 2 ? "client-reset" : "client-close"); logf("client %d aborts during request %d", c->id, r->id); aborted = true; check(); if (finished) return; for (HReq* q : waiting) q->aborted = true; if (r->abortKind == 2) wire->reset(); else wire->fin(); finishAll(); HClient* k = c; at(draw(5000) * us, "client-again", [k]() { k->start(); }); }
void Session::onEnd()
{
	if (finished) return;
	logf("client %d connection ended%s", c->id, wasReset ? " (reset)" : "");
	check(); if (finished) return;
	if (off < in.size() && waiting.empty()) stray = in.substr(off);
	finishAll(); wire->fin(); HClient* k = c; at(draw(5000) * us, "client-again", [k]() { k->start(); });
}
}
