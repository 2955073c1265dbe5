// Server scenario (S01-S10): simulated clients against HttpServer / HttpsServer / HttpLocalServer /
// HttpConnection on a plain device, with an application that answers in every legal (and some illegal) way.
#include "srvlib.h"
#include <memory>
using namespace sim; using namespace srv;
namespace {
enum Kind { Tcp, Tls, Local, Device };
static const char* kindName[] = {"tcp", "tls", "local", "device"};

// ------------------------------------------------------------------ a plain bidirectional device
struct SimDevice : QIODevice {
	QByteArray inbuf; std::string outbuf; bool sync; std::function<void(const std::string&)> onOut; std::function<void()> onClosed; bool draining = false;
	SimDevice(bool s) : sync(s) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const override { return true; }
	qint64 bytesAvailable() const override { return inbuf.size() + QIODevice::bytesAvailable(); }
	qint64 bytesToWrite() const override { return (qint64)outbuf.size(); }
	qint64 readData(char* d, qint64 n) override { n = std::min<qint64>(n, inbuf.size()); memcpy(d, inbuf.constData(), n); inbuf.remove(0, (int)n); return n; }
	qint64 writeData(const char* d, qint64 n) override
	{
		if (sync) { onOut(std::string(d, n)); return n; }
		outbuf.append(d, n); logf("device write %lld", (long long)n); schedule(); return n;
	}
	void schedule() { if (draining || outbuf.empty()) return; draining = true; QPointer<SimDevice> self(this); appLater(us * (10 + draw(3000)), [self]() { if (self) { self->draining = false; self->drainSome(); } }); }
	void drainSome() { if (!isOpen()) return; size_t n = net.segMode == 0 ? outbuf.size() : 1 + draw((u32)std::min<size_t>(outbuf.size(), 100000)); n = std::min(n, outbuf.size()); std::string s = outbuf.substr(0, n); outbuf.erase(0, n); onOut(s); QPointer<SimDevice> self(this); emit bytesWritten((qint64)n); if (self && self->isOpen()) self->schedule(); }
	void feed(const std::string& s) { if (!isOpen()) return; inbuf.append(s.data(), (int)s.size()); emit readyRead(); }
	void close() override { bool was = isOpen(); QIODevice::close(); if (was && onClosed) onClosed(); }
};
struct DeviceWire : Wire {
	QPointer<SimDevice> dev, dev2; std::string queue; bool scheduled = false, paused = false, finQ = false; std::string held; bool heldEnd = false;
	void send(const std::string& s) override { if (!dev) return; queue += s; sched(); }
	void sched() { if (scheduled) return; scheduled = true; appLater(us * (10 + draw(2000)), [this]() { scheduled = false; pump(); }); }
	void pump() { if (!dev || !dev->isOpen()) return; if (!queue.empty()) { size_t n = net.segMode == 0 ? queue.size() : net.segMode == 3 && queue.size() < 300 ? 1 : 1 + draw((u32)std::min<size_t>(queue.size(), 50000)); std::string s = queue.substr(0, n); queue.erase(0, n); logf("device feed %zu", n); dev->feed(s); } if (!queue.empty()) sched(); else if (finQ && dev && dev->isOpen()) { finQ = false; dev->close(); } }
	void out(const std::string& s) { if (paused) { held += s; return; } logic->in += s; logic->onBytes(); }
	void devClosed() { if (logic->ended) return; if (paused) { heldEnd = true; return; } logic->ended = true; logic->onEnd(); }
	void fin() override { logic->closedByUs = true; finQ = true; sched(); }
	void reset() override { logic->closedByUs = true; queue.clear(); finQ = true; sched(); }
	void pause(bool on) override { paused = on; if (!on) { std::string h; h.swap(held); if (!h.empty()) { logic->in += h; logic->onBytes(); } if (heldEnd) { heldEnd = false; devClosed(); } } }
	bool dead() override { return !dev || !dev->isOpen(); }
};

struct Client;
struct ConnTrack { int client = -1; bool open = false; Req* cur = 0; u64 sessions = 0, closed = 0; };
struct Op { enum K { Write, WriteString, Headers, Content, End, Close, Pause, Flush, EchoWrite, EchoContent, Misuse, CloseOther, Verify, Param, Nested } k; int status = 200; sim::Headers h; std::string c; u64 delay = 0; int arg = 0; };
struct Plan { std::vector<Op> ops; bool deferred = false; bool closeInCompleted = false, closeInClosed = false; u64 nestInCompleted = 0, nestInClosed = 0; };

struct World;
struct Client : Logic {
	World* w = 0; int id = 0; std::vector<std::shared_ptr<Req>> reqs; std::vector<Plan> plans; std::shared_ptr<Req> cut;
	int mode = 0; size_t pos = 0, total = 0; std::string stream; size_t nextIdx = 0; bool waitContinue = false; bool sentHead = false; bool checkScheduled = false; u64 pieceDelay = 0;
	u64 startAt = 0; int abortKind = 0; i64 abortSent = -1, abortRecv = -1; u64 abortAt = 0; bool aborted = false; bool stall = false; bool closeAtEnd = true; bool tlsCut = false; bool connected = false; int announcedNext = 0; Kind kind = Tcp; u32 pausePeriod = 0; bool probeClient = false;
	size_t doneOff = 0; size_t doneCount = 0; // lock step parsing
	size_t seenOff = (size_t)-1, seenNeed = 0, seenAt = 0; int seenFraming = -1; // what is known about the incomplete response at seenOff
	void onUp() override; void onBytes() override; void onEnd() override; void onFail() override { logf("client %d connect failed", id); }
	void sendUpTo(size_t n); void pieces(); void lockstep(); void check(); void doAbort();
};
static std::string shortReq(const Req& r) { return fmt("request %d (client %d #%d %s%s)", r.id, r.client, r.idx, r.method.substr(0, 12).c_str(), r.valid ? "" : (" bad: " + r.badness).c_str()); }

struct World { std::vector<QString> paramNames = {"injected", "a"};
	std::string prop; std::vector<std::unique_ptr<Client>> clients; std::map<int, std::pair<Client*, int>> byId; int nextId = 1;
	Kind kind = Tcp; QObject* server = 0; u16 port = 8080; std::string localName; int initialChildren = 0; std::vector<QObject*> fresh; 
	std::map<Pillow::HttpConnection*, ConnTrack> track; u64 closedSignals = 0, announcedCount = 0, deviceConns = 0; std::vector<Pillow::HttpConnection*> devPool; bool finishing = false; u64 appClosed = 0;
	bool tornDown = false; bool ownStack = false; // whether only the application's own timer (and no socket) is below on the call stack
	void nest(u64 d) { if (!ownStack) return; ownStack = false; nestedLoop(d); ownStack = true; }

	Req* req(int id) { auto it = byId.find(id); return it == byId.end() ? 0 : it->second.first->reqs[it->second.second].get(); }
	Plan& plan(Req* r) { auto& p = byId[r->id]; return p.first->plans[p.second]; }
	void wireSignals(Pillow::HttpConnection* c);
	void ready(Pillow::HttpConnection* c); void completed(Pillow::HttpConnection* c); void closed(Pillow::HttpConnection* c);
	void verify(Pillow::HttpConnection* c, Req& r, bool params, const char* when);
	void runOps(Req* r, Pillow::HttpConnection* c, u64 session, size_t i);
	bool alive(Req* r, Pillow::HttpConnection* c, u64 session) { auto it = track.find(c); return it != track.end() && it->second.open && it->second.sessions == session && it->second.cur == r; }
	void connect(Client* c);
	Pillow::HttpConnection* devConnection();
	void checkClient(Client& c, bool final);
};
static World* W = 0;

// ------------------------------------------------------------------ clients
void Client::sendUpTo(size_t n)
{
	if (stall && n > total / 2) n = std::max(pos, total / 2);
	if (n > total) n = total; if (n <= pos) return;
	if (abortSent >= 0 && (i64)n >= abortSent) { size_t k = std::max<i64>(pos, abortSent); std::string s = stream.substr(pos, k - pos); pos = k; wire->send(s); doAbort(); return; }
	std::string s = stream.substr(pos, n - pos); pos = n; wire->send(s);
}
void Client::doAbort() { if (aborted) return; aborted = true; if (abortKind == 2) { fault("client-reset"); wire->reset(); } else { fault("client-close"); wire->fin(); } logf("client %d aborts (%d)", id, abortKind); }
void Client::pieces() { if (aborted || ended) return; sendUpTo(pos + 1 + sizeDraw(total / 2 + 10)); if (pos < total && !aborted && !stall) { at(draw(2) ? draw(3000) * us : pieceDelay, "client-piece", [this]() { pieces(); }); } }
void Client::lockstep()
{
	if (aborted || ended) return;
	while (nextIdx < reqs.size())
	{
		Req& r = *reqs[nextIdx];
		if (doneCount < nextIdx) return; // previous not answered yet
		size_t off = 0; for (size_t i = 0; i < nextIdx; ++i) off += reqs[i]->head.size() + reqs[i]->body.size();
		if (waitContinue && r.expect100 && !r.body.empty()) {
			if (!sentHead) { sentHead = true; sendUpTo(off + r.head.size()); return; }
			Parsed p = parseResponse(in, doneOff, false, ended);
			if (!(p.headersDone && !p.bad && (p.status == 100 || p.consumed))) return;
			probe("client-waited-for-100");
			if (p.status == 100) doneOff += p.headerBytes;
		}
		sendUpTo(off + r.head.size() + r.body.size()); sentHead = false; ++nextIdx; if (aborted) return;
	}
}
void Client::check()
{
	checkScheduled = false;
	if (mode != 2) return;
	for (;;)
	{
		if (doneCount >= nextIdx) break;
		Req& r = *reqs[doneCount];
		if (!ended && seenOff == doneOff && (seenFraming == Parsed::Length ? in.size() < seenNeed : seenFraming == Parsed::UntilClose || (seenFraming == Parsed::Chunked && in.find("\r\n\r\n", seenAt - 3) == std::string::npos))) break; // can not be complete
		Parsed p = parseResponse(in, doneOff, r.method == "HEAD", ended);
		if (p.bad || !p.complete) { if (p.headersDone && !p.bad) { seenOff = doneOff; seenAt = in.size(); seenFraming = p.framing; seenNeed = doneOff + p.headerBytes + (size_t)p.length; } break; }
		doneOff += p.consumed - doneOff; if (p.status != 100) ++doneCount;
	}
	lockstep();
}
void Client::onUp()
{
	connected = true; if (closedByUs) return;
	logf("client %d up", id);
	if (abortKind && abortAt) at(abortAt, "client-abort", [this]() { if (!ended) doAbort(); });
	if (pausePeriod) { wire->pause(true); at((u64)pausePeriod * ms, "client-resume", [this]() { wire->pause(false); }); }
	if (mode == 0) sendUpTo(total); else if (mode == 1) pieces(); else lockstep();
}
void Client::onBytes()
{
	if (abortRecv >= 0 && (i64)in.size() >= abortRecv && !aborted) { doAbort(); return; }
	if (mode == 2 && !checkScheduled) { checkScheduled = true; at(ms / 4, "client-check", [this]() { check(); }); }
}
void Client::onEnd() { logf("client %d end%s after %zu bytes", id, wasReset ? " (reset)" : "", in.size()); if (!closedByUs && closeAtEnd) wire->fin(); if (mode == 2) check(); }

// ------------------------------------------------------------------ application
void World::wireSignals(Pillow::HttpConnection* c)
{
	if (track.count(c)) return;
	track[c] = ConnTrack();
	QObject::connect(c, &Pillow::HttpConnection::requestCompleted, [this](Pillow::HttpConnection* c) { completed(c); });
	QObject::connect(c, &Pillow::HttpConnection::closed, [this](Pillow::HttpConnection* c) { closed(c); });
	QObject::connect(c, &QObject::destroyed, [this, c]() { track.erase(c); });
}
struct ChildFilter : QObject { World* w; bool eventFilter(QObject*, QEvent* e) override { if (e->type() == QEvent::ChildAdded) w->fresh.push_back(static_cast<QChildEvent*>(e)->child()); else if (e->type() == QEvent::ChildRemoved) { auto& f = w->fresh; f.erase(std::remove(f.begin(), f.end(), static_cast<QChildEvent*>(e)->child()), f.end()); } return false; } };
static void scan(World* w) { if (w->tornDown) return; std::vector<QObject*> f; f.swap(w->fresh); for (QObject* o : f) if (Pillow::HttpConnection* c = qobject_cast<Pillow::HttpConnection*>(o)) w->wireSignals(c); }

static std::string b2s(const QByteArray& b) { return std::string(b.constData(), (size_t)b.size()); }
static void cmp(const Req& r, const char* when, const char* what, const std::string& got, const std::string& want) { if (got != want) violate("S01|S08|S10", "request-data", fmt("%s, %s: %s is %s, sent %s", shortReq(r).c_str(), when, what, quote(got, 120).c_str(), quote(want, 120).c_str())); }
static void cmpq(const Req& r, const char* when, const char* what, const QString& got, const QString& want) { if (got != want) cmp(r, when, what, sb(got.toUtf8()), sb(want.toUtf8())); }
void World::verify(Pillow::HttpConnection* c, Req& r, bool params, const char* when)
{
	cmp(r, when, "method", b2s(c->requestMethod()), r.method); cmp(r, when, "uri", b2s(c->requestUri()), r.uri);
	if (r.checkPath) { cmp(r, when, "path", b2s(c->requestPath()), r.path); cmp(r, when, "query", b2s(c->requestQueryString()), r.query); }
	cmp(r, when, "fragment", b2s(c->requestFragment()), r.fragment); cmp(r, when, "version", b2s(c->requestHttpVersion()), r.version);
	cmp(r, when, "content", b2s(c->requestContent()), r.body);
	const Pillow::HttpHeaderCollection& h = c->requestHeaders();
	if (h.size() != (int)r.headers.size()) violate("S01|S08|S10", "request-data", fmt("%s, %s: %d headers, %zu sent", shortReq(r).c_str(), when, h.size(), r.headers.size()));
	else for (int i = 0; i < h.size(); ++i) { cmp(r, when, "header name", b2s(h.at(i).first), r.headers[i].first); cmp(r, when, "header value", b2s(h.at(i).second), r.headers[i].second); }
	{ static const char* names[] = {"X-Absent", "Cookie", "Content-Length", "Expect", "X-A", "Connection", "X-Id"}; std::string n = names[draw(7)]; const std::string* e = findHeader(r.headers, n); cmp(r, when, "looked up header", b2s(c->requestHeaderValue(qb(n))), e ? *e : ""); }
	if (!r.headers.empty() && chance(1, 3))
	{
		std::string n = r.headers[draw((u32)r.headers.size())].first; std::vector<std::string> e; for (auto& x : r.headers) if (ieq(x.first, n)) e.push_back(x.second); if (chance(1, 2)) for (char& ch : n) ch = draw(2) ? (char)toupper((unsigned char)ch) : (char)tolower((unsigned char)ch); QVector<QByteArray> v = h.getFieldValues(qb(n));
		bool same = v.size() == (int)e.size(); for (int i = 0; same && i < v.size(); ++i) same = sb(v[i]) == e[i]; if (!same) violate("S01|S08", "request-data", fmt("%s, %s: %d values of %s are found, %zu were sent", shortReq(r).c_str(), when, v.size(), n.c_str(), e.size()));
		std::string want = e[draw((u32)e.size())]; bool is = chance(1, 2); if (!is) want += "x"; bool exp = false; for (auto& x : e) exp |= ieq(x, want); if (h.testFieldValue(qb(n), qb(want)) != exp) violate("S01|S08", "request-data", fmt("%s, %s: the test whether %s is %s is wrong", shortReq(r).c_str(), when, n.c_str(), quote(want, 100).c_str()));
	}
	if (!r.headers.empty()) { const std::string& n = r.headers[draw((u32)r.headers.size())].first; cmp(r, when, "looked up header", b2s(c->requestHeaderValue(qb(chance(1, 2) ? n : lower(n)))), *findHeader(r.headers, n)); }
	if (chance(1, 2)) { if (r.checkPath) { cmpq(r, when, "decoded path", c->requestPathDecoded(), refDecoded(r.path)); cmpq(r, when, "decoded query", c->requestQueryStringDecoded(), refDecoded(r.query)); } cmpq(r, when, "decoded fragment", c->requestFragmentDecoded(), refDecoded(r.fragment)); cmpq(r, when, "decoded uri", c->requestUriDecoded(), refDecoded(r.uri)); }
	if (params && r.checkPath)
	{
		std::vector<std::pair<QString, QString>> want; size_t p = 0; const std::string& q = r.query;
		while (p < q.size()) { size_t e = q.find('&', p); if (e == std::string::npos) e = q.size(); std::string it = q.substr(p, e - p); size_t k = it.find('='); want.push_back(k == std::string::npos ? std::make_pair(refDecoded(it), QString()) : std::make_pair(refDecoded(it.substr(0, k)), refDecoded(it.substr(k + 1)))); p = e + 1; }
		const Pillow::HttpParamCollection& got = c->requestParams();
		if (got.size() != (int)want.size()) violate("S01|S08|S10", "request-params", fmt("%s, %s: %d parameters, %zu sent in %s", shortReq(r).c_str(), when, got.size(), want.size(), quote(q, 100).c_str()));
		else for (size_t i = 0; i < want.size(); ++i) { cmpq(r, when, "parameter name", got.at((int)i).first, want[i].first); cmpq(r, when, "parameter value", got.at((int)i).second, want[i].second); }
		// by name: its own ones, ones of other requests, ones nobody sent
		for (auto& x : want) if (paramNames.size() < 64) paramNames.push_back(x.first);
		u32 looks = paramNames.empty() ? 0 : draw(3); for (u32 i = 0; i < looks; ++i) { QString n = chance(1, 4) ? QString("none-%1").arg(i) : paramNames[draw((u32)paramNames.size())], e; if (chance(1, 4)) n = n.toUpper(); for (auto& x : want) if (!x.first.compare(n, Qt::CaseInsensitive)) { e = x.second; break; } cmpq(r, when, "looked up parameter", c->requestParamValue(n), e); }
	}
	if (kind == Tcp || kind == Tls) { QHostAddress a = c->remoteAddress(); Client* cl = byId[r.id].first; u32 want = 0x0a000000 + cl->wire->connId(); if (a.toIPv4Address() != want && !(a.isNull() && cl->aborted)) violate("S08|S01|H04", "remote-address", fmt("%s: remote address %s", shortReq(r).c_str(), a.toString().toUtf8().constData())); }
}
void World::ready(Pillow::HttpConnection* c)
{
	scan(this); if (!track.count(c)) wireSignals(c);
	ConnTrack& t = track[c];
	if (finishing) {}
	std::string id = b2s(c->requestHeaderValue("X-Id")); int n = -1;
	if (!id.empty()) n = atoi(id.c_str());
	else { std::string p = b2s(c->requestUri()); size_t k = p.find("/r"); if (k != std::string::npos) n = atoi(p.c_str() + k + 2); }
	Req* r = req(n);
	logf("app request %d on conn", n);
	++announcedCount;
	if (!r) { violate("S01|S05|S08|S10", "phantom-request", fmt("a request that nobody sent was announced: %s %s", quote(b2s(c->requestMethod())).c_str(), quote(b2s(c->requestUri())).c_str())); return; }
	if (!r->valid) { violate("S05|S01|S10", "bad-request-announced", fmt("%s was announced to the application", shortReq(*r).c_str())); return; }
	if (r->announced) { violate("S01|S07|S10", "announced-twice", fmt("%s was announced twice", shortReq(*r).c_str())); return; }
	Client* cl = byId[r->id].first;
	if (r->idx != cl->announcedNext) { violate("S01|S10", "out-of-order", fmt("%s announced, expected #%d of that client", shortReq(*r).c_str(), cl->announcedNext)); return; }
	if (r->idx > 0) { Req& q = *cl->reqs[r->idx - 1]; if (!q.valid || (q.m.complete && !q.m.keep) || q.m.cut) { violate(!q.valid ? "S05|S01" : "S04|S07|S10", "announced-after-end", fmt("%s announced although the connection had to end at %s", shortReq(*r).c_str(), shortReq(q).c_str())); return; } }
	r->announced = true; r->announcedAt = now; cl->announcedNext = r->idx + 1; r->conn = c;
	if (!t.open) { t.open = true; t.sessions++; t.client = cl->id; t.cur = 0; }
	if (t.client != cl->id) violate("S07|S08|S09", "session-mixup", fmt("%s announced on the connection of client %d", shortReq(*r).c_str(), t.client));
	if (t.cur) violate("S07|S01", "overlapping-requests", fmt("%s announced while %s is not completed", shortReq(*r).c_str(), shortReq(*t.cur).c_str()));
	t.cur = r; if (res) res->nontrivial |= 1;
	verify(c, *r, chance(1, 2), "when announced");
	runOps(r, c, t.sessions, 0);
}
void World::completed(Pillow::HttpConnection* c)
{
	ConnTrack& t = track[c]; Req* r = t.cur;
	logf("app completed %d", r ? r->id : -1);
	if (!t.open) { violate("S07", "completed-after-close", "requestCompleted was emitted for a connection that is closed"); return; }
	if (!r) { violate("S07", "completed-without-request", "requestCompleted was emitted with no request outstanding"); return; }
	if (!r->m.complete) violate("S07|S03", "completed-early", fmt("%s reported completed but its response is not fully written", shortReq(*r).c_str()));
	if (r->completedSignal) violate("S07", "completed-twice", fmt("%s reported completed twice", shortReq(*r).c_str()));
	r->completedSignal = true; t.cur = 0;
	if (r->valid) verify(c, *r, false, "when completed");
	Plan& p = plan(r); if (p.closeInCompleted) { probe("app-close-in-completed"); r->m.cut = true; appClosed++; c->close(); }
	if (p.nestInCompleted) { u64 d = p.nestInCompleted; p.nestInCompleted = 0; nest(d); }
}
void World::closed(Pillow::HttpConnection* c)
{
	scan(this); ++closedSignals; ConnTrack& t = track[c]; logf("app closed client %d", t.client);
	u64 nest = 0;
	if (t.open) { t.open = false; t.closed++; if (t.cur) { Plan& p = plan(t.cur); nest = p.nestInClosed; if (p.closeInClosed) { probe("app-close-in-closed"); c->close(); } if (!t.cur->m.complete) t.cur->m.cut = true; else if (!t.cur->completedSignal) {} t.cur = 0; } }
	if (nest) { bool own = ownStack; ownStack = false; nestedLoop(nest); ownStack = own; }
}
static const std::vector<std::pair<std::pair<std::string, std::string>, Pillow::HttpHeader>>& rawHeaders() // written as one string
{
	static const std::vector<std::pair<std::pair<std::string, std::string>, Pillow::HttpHeader>> t = {{{"X-Raw", "a: b, c"}, Pillow::HttpHeader("X-Raw: a: b, c")}, {{"X-Raw", ""}, Pillow::HttpHeader("X-Raw:")}, {{"X-Raw", "tight"}, Pillow::HttpHeader("X-Raw:tight")}, {{"X-Raw", "far  away "}, Pillow::HttpHeader("X-Raw:    far  away ")}, {{"Content-Type", "text/x-raw"}, Pillow::HttpHeader("Content-Type: text/x-raw")}, {{"X", "1"}, Pillow::HttpHeader("X: 1")}};
	return t;
}
static Pillow::HttpHeaderCollection toPillow(const sim::Headers& h)
{
	Pillow::HttpHeaderCollection c, d; size_t i = 0, k = chance(1, 3) ? draw((u32)h.size() + 1) : h.size();
	for (auto& p : h) { Pillow::HttpHeaderCollection& t = i++ < k ? c : d; bool raw = false; for (auto& x : rawHeaders()) if (x.first == p) { t << x.second; raw = true; break; } if (raw) continue; if (chance(1, 2)) t << Pillow::HttpHeader(qb(p.first), qb(p.second)); else t << qMakePair(qb(p.first), qb(p.second)); }
	if (!d.isEmpty()) c += d; return c;
}
void World::runOps(Req* r, Pillow::HttpConnection* c, u64 session, size_t i)
{
	Plan& p = plan(r);
	for (; i < p.ops.size(); ++i)
	{
		if (!alive(r, c, session)) { logf("app request %d: connection gone", r->id); return; }
		Op& o = p.ops[i];
		switch (o.k) {
		case Op::Pause: { size_t k = i + 1; at(o.delay, "app-answer", [=]() { }); appLater(o.delay, [this, r, c, session, k]() { bool own = ownStack; ownStack = true; runOps(r, c, session, k); ownStack = own; }); return; }
		case Op::Write: modelHeaders(*r, o.status, o.h, (i64)o.c.size()); modelContent(*r, o.c); logf("app writeResponse %d %zu", o.status, o.c.size()); c->writeResponse(o.status, toPillow(o.h), qb(o.c)); break;
		case Op::WriteString: { QString s = QString::fromUtf8(o.c.data(), (int)o.c.size()); std::string u = sb(s.toUtf8()); modelHeaders(*r, o.status, o.h, (i64)u.size()); modelContent(*r, u); logf("app writeResponseString"); c->writeResponseString(o.status, toPillow(o.h), s); break; }
		case Op::Headers: modelHeaders(*r, o.status, o.h, -1); logf("app writeHeaders %d", o.status); c->writeHeaders(o.status, toPillow(o.h)); break;
		case Op::Content: modelContent(*r, o.c); logf("app writeContent %zu", o.c.size()); c->writeContent(qb(o.c)); break;
		case Op::EchoWrite: modelHeaders(*r, o.status, o.h, (i64)r->body.size()); modelContent(*r, r->body); logf("app echo %zu", r->body.size()); c->writeResponse(o.status, toPillow(o.h), c->requestContent()); break;
		case Op::EchoContent: modelContent(*r, r->body); logf("app echoContent"); c->writeContent(c->requestContent()); break;
		case Op::End: modelEnd(*r); logf("app endContent"); c->endContent(); break;
		case Op::Flush: c->flush(); break;
		case Op::Close: if (!r->m.complete) r->m.cut = true; probe("app-close"); appClosed++; logf("app close"); c->close(); break;
		case Op::CloseOther: { // close somebody else's connection from inside this notification
			for (auto& t : track) if (t.first != c && t.second.open && t.second.cur && t.second.client != (int)byId[r->id].first->id) { Req* q = t.second.cur; if (!q->m.complete) q->m.cut = true; byId[q->id].first->aborted = true; probe("app-close-other"); t.first->close(); break; } break; }
		case Op::Verify: if (!r->m.complete) verify(c, *r, false, "before answering"); break;
		case Op::Nested: nest(o.delay); break;
		case Op::Param: { c->setRequestParam("injected", QString("p%1").arg(r->id)); c->setRequestParam("a", "changed"); if (c->requestParamValue("INJECTED") != QString("p%1").arg(r->id) || c->requestParamValue("A") != "changed") violate("S08|S01", "set-param", "setRequestParam did not take effect"); break; }
		case Op::Misuse: // a call that does not fit the current state
			probe("misuse"); switch (o.arg) {
			case 0: if (!r->m.started) { logf("misuse writeContent before headers"); c->writeContent("STRAY-CONTENT"); } break;
			case 1: if (!r->m.started) { logf("misuse endContent before headers"); c->endContent(); } break;
			case 2: if (r->m.started && !r->m.complete) { logf("misuse second writeHeaders"); c->writeHeaders(200, Pillow::HttpHeaderCollection() << Pillow::HttpHeader("X-Stray", "1")); } break;
			case 3: if (r->m.started && !r->m.complete) { logf("misuse second writeResponse"); c->writeResponse(200, Pillow::HttpHeaderCollection(), "STRAY-RESPONSE"); } break;
			case 4: if (r->m.started && !r->m.complete && r->m.length >= 0) { std::string big = blob(r->id, (size_t)std::min<i64>(r->m.length - r->m.sent, 100000) + 1 + draw(100), 0); if ((i64)big.size() > r->m.length - r->m.sent) { logf("misuse too much content"); c->writeContent(qb(big)); } } break;
			case 5: if (r->m.started && !r->m.complete && r->m.length >= 0) { logf("misuse endContent with length"); c->endContent(); } break;
			case 6: if (r->m.started && !r->m.complete) { c->writeContent(QByteArray()); } break;
			} break;
		}
	}
}
Pillow::HttpConnection* World::devConnection()
{
	Pillow::HttpConnection* c;
	if (!devPool.empty() && chance(3, 4)) { c = devPool.back(); devPool.pop_back(); probe("device-connection-recycled"); }
	else { c = new Pillow::HttpConnection(server); wireSignals(c); QObject::connect(c, &Pillow::HttpConnection::requestReady, [this](Pillow::HttpConnection* c) { ready(c); }); QObject::connect(c, &Pillow::HttpConnection::closed, [this](Pillow::HttpConnection* c) { if (c->inputDevice()) c->inputDevice()->deleteLater(); if (c->outputDevice() && c->outputDevice() != c->inputDevice()) c->outputDevice()->deleteLater(); QPointer<Pillow::HttpConnection> p(c); appLater(0, [this, p]() { if (p) devPool.push_back(p); }); }); }
	return c;
}
void World::connect(Client* c)
{
	c->kind = kind;
	switch (kind) {
	case Tcp: case Tls: connectRaw(c->wire, port); break;
	case Local: connectLocal(c->wire, localName); break;
	case Device: {
		DeviceWire* w = static_cast<DeviceWire*>(c->wire); bool sync = chance(1, 2); bool two = chance(1, 3);
		appLater(0, [this, c, w, sync, two]() {
			SimDevice* d = new SimDevice(sync); SimDevice* d2 = two ? new SimDevice(sync) : d; w->dev = d; w->dev2 = d2; if (two) probe("two-devices");
			d2->onOut = [w](const std::string& s) { w->out(s); }; d2->onClosed = [w]() { w->devClosed(); };
			deviceConns++; c->up = true; bool early = chance(1, 3);
			Pillow::HttpConnection* hc = devConnection();
			if (early) { c->onUp(); if (!w->queue.empty() && !w->finQ) { probe("input-before-connection"); w->pump(); } }
			hc->initialize(d, d2); if (!early) c->onUp(); });
		break; }
	}
}

// ------------------------------------------------------------------ the oracle over a client's received stream
void World::checkClient(Client& c, bool final)
{
	if (c.tlsCut) return;
	const char* P = "S02|S03|S09|S10";
	const std::string& in = c.in; size_t off = 0, streamOff = 0; bool mustEnd = false, over = false; bool refused = c.wire->notAccepted() && c.wasReset, tolerant = c.aborted || c.failed || refused; bool refusedBad = false, anyCut = false; for (auto& rp : c.reqs) if (rp->m.cut) anyCut = true;
	for (auto& rp : c.reqs)
	{
		Req& r = *rp; size_t start = streamOff; streamOff += r.head.size() + r.body.size(); bool delivered = streamOff <= c.pos; (void)start;
		if (over) break;
		if (!r.valid)
		{
			over = refusedBad = true;
			bool headSent = start + r.head.size() <= c.pos;
			if (off >= in.size()) { if (headSent && !tolerant && final) violate("S05|S09|S10", "bad-request-unanswered", fmt("%s got no answer", shortReq(r).c_str())); break; }
			Parsed p = parseResponse(in, off, false, c.ended);
			if (p.bad || (!p.headersDone && !tolerant)) { violate("S05|S10", "bad-error-response", fmt("%s: answer is not a valid response: %s", shortReq(r).c_str(), quote(in.substr(off, 120)).c_str())); break; }
			if (!p.headersDone) { off = in.size(); break; }
			if (!r.errStatus.count(p.status)) violate(p.status == 100 ? "S06|S05" : "S05|S10", "wrong-error-status", fmt("%s was answered %d", shortReq(r).c_str(), p.status));
			off = p.consumed; mustEnd = true;
			const std::string* conn = findHeader(p.headers, "connection"); if (p.version == "HTTP/1.1" && !(conn && ieq(*conn, "close"))) violate("S05|S04", "error-without-close", fmt("%s: error response does not announce the close", shortReq(r).c_str()));
			break;
		}
		// interim response
		int interim = 0; Parsed p; const Req::Model& m0 = r.m;
		for (;;)
		{
			p = parseResponse(in, off, r.method == "HEAD", c.ended);
			if (p.headersDone && !p.bad && p.status == 100) { ++interim; off += p.headerBytes; if (interim > (r.expect100 ? 1 : 0)) { violate("S06|S02", "unexpected-100", fmt("%s: %d interim responses", shortReq(r).c_str(), interim)); return; } continue; }
			break;
		}
		if (r.expect100 && interim == 0 && ((r.announced && !tolerant && final && !anyCut) || (p.headersDone && !p.bad))) violate("S06", "missing-100", fmt("%s: no 100 Continue before the response", shortReq(r).c_str()));
		bool soft = tolerant || anyCut;
		if (!m0.started && soft && r.expect100 && !interim && !p.headersDone && off < in.size() && std::string("HTTP/1.1 100 Continue\r\n\r\n").compare(0, in.size() - off, in, off, std::string::npos) == 0) { off = in.size(); over = true; mustEnd = anyCut; break; } // the interim response was cut
		if (!r.announced)
		{
			if (delivered && !tolerant && final) violate("S01|S04|S09|S10", "request-lost", fmt("%s was sent completely but never announced", shortReq(r).c_str()));
			over = true; break;
		}
		Req::Model& m = r.m; // the application may close while earlier responses are still on their way
		if (!m.started) { over = true; if (m.cut) mustEnd = true; if (!m.cut && !tolerant && final) violate("S02", "harness", "unanswered request"); break; }
		if (off >= in.size() && soft) { over = true; mustEnd = anyCut; break; }
		if (!p.headersDone) { if (!soft && final) { violate(P, "response-missing", fmt("%s: response (%d) not received%s; got %s", shortReq(r).c_str(), m.status, c.ended ? ", connection ended" : "", quote(in.substr(off, 80)).c_str())); return; } off = in.size(); over = true; mustEnd = anyCut; break; }
		if (p.bad) { violate("S02|S03|S10", "malformed-response", fmt("%s: %s", shortReq(r).c_str(), p.err.c_str())); return; }
		// head
		if (p.status == m.status && p.reason != reasonOf(m.status)) violate("S02|S03|S08|S10", "wrong-status", fmt("%s: %d %s is sent for status %d", shortReq(r).c_str(), p.status, quote(p.reason).c_str(), m.status));
		if (p.status != m.status) { violate("S02|S03|S08|S10", "wrong-status", fmt("%s: status %d, application sent %d", shortReq(r).c_str(), p.status, m.status)); return; }
		if (p.version != r.version) violate("S02|S10", "wrong-version", fmt("%s: answered with %s", shortReq(r).c_str(), p.version.c_str()));
		sim::Headers rest; for (auto& h : p.headers) { if (ieq(h.first, "content-length") || ieq(h.first, "content-type") || ieq(h.first, "connection") || ieq(h.first, "transfer-encoding")) continue; if ((ieq(h.first, "date") || ieq(h.first, "server")) && !findHeader(m.custom, h.first)) continue; rest.push_back(h); }
		bool same = rest.size() == m.custom.size(); if (same) for (size_t i = 0; i < rest.size(); ++i) { std::string v = m.custom[i].second; while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); size_t b = 0; while (b < v.size() && (v[b] == ' ' || v[b] == '\t')) ++b; v = v.substr(b); if (rest[i].first != m.custom[i].first || rest[i].second != v) same = false; }
		if (!same) { violate("S02|S03|S08|S10", "wrong-headers", fmt("%s: response headers differ from what the application sent: %s", shortReq(r).c_str(), quote(in.substr(off, p.headerBytes), 300).c_str())); return; }
		if (countHeader(p.headers, "content-type") > 1 || countHeader(p.headers, "connection") > 1) violate("S02|S03|S04", "repeated-header", fmt("%s: repeated header in %s", shortReq(r).c_str(), quote(in.substr(off, p.headerBytes), 300).c_str()));
		const std::string* ct = findHeader(p.headers, "content-type"); if (m.hasCT && (!ct || *ct != m.contentType)) violate("S02|S08|S10", "wrong-content-type", fmt("%s: content type %s", shortReq(r).c_str(), ct ? quote(*ct).c_str() : "missing"));
		const std::string* clh = findHeader(p.headers, "content-length"); const std::string* te = findHeader(p.headers, "transfer-encoding");
		if (m.length >= 0 ? (!clh || *clh != num(m.length)) : clh != 0) violate("S03|S02|S10", "wrong-content-length", fmt("%s: Content-Length %s, application declared %lld", shortReq(r).c_str(), clh ? quote(*clh).c_str() : "missing", (long long)m.length));
		if (m.chunked ? !(te && ieq(*te, "chunked")) : (te && ieq(*te, "chunked"))) violate("S03|S02|S10", "wrong-transfer-encoding", fmt("%s: chunked encoding is %s", shortReq(r).c_str(), te ? "announced" : "not announced"));
		// persistence
		const std::string* cn = findHeader(p.headers, "connection"); bool saysClose = cn && ieq(*cn, "close"), saysKeep = cn && ieq(*cn, "keep-alive");
		bool clientThinksKeep = r.http11 ? !saysClose : saysKeep;
		if (clientThinksKeep != m.keep) violate("S04|S10", "keep-alive-mismatch", fmt("%s (%s): response %s, expected %s", shortReq(r).c_str(), r.version.c_str(), clientThinksKeep ? "announces a persistent connection" : "announces the end of the connection", m.keep ? "persistence" : "the end"));
		// body
		if (p.complete && !m.complete && p.framing != Parsed::UntilClose) violate("S03|S02", "complete-too-early", fmt("%s: the response looks complete but the application has not finished it", shortReq(r).c_str()));
		if (m.complete && !soft)
		{
			if (!p.complete && final) { violate(m.keep ? "S02|S03|S09|S10" : "S04|S02|S10|S09", "response-incomplete", fmt("%s: %zu of %zu body bytes received%s", shortReq(r).c_str(), p.body.size(), m.body.size(), c.ended ? ", connection ended" : "")); return; }
			std::string want = m.head ? std::string() : m.body;
			if (p.body != want) { size_t k = 0; while (k < p.body.size() && k < want.size() && p.body[k] == want[k]) ++k; violate("S02|S03|S08|S09|S10", "wrong-body", fmt("%s: body differs at byte %zu (received %zu, application sent %zu): %s", shortReq(r).c_str(), k, p.body.size(), want.size(), quote(p.body.substr(k > 10 ? k - 10 : 0, 60)).c_str())); return; }
		}
		else { std::string want = m.head ? std::string() : m.body; if (p.body.size() > want.size() || want.compare(0, p.body.size(), p.body)) { violate("S02|S03|S08|S09", "wrong-body", fmt("%s: received body is not a prefix of what the application sent", shortReq(r).c_str())); return; } }
		off = p.consumed;
		if (soft && !p.complete) { off = in.size(); over = true; mustEnd = anyCut; break; }
		if (m.complete && !m.cut && !tolerant && !r.completedSignal) violate("S07", "completion-not-reported", fmt("%s was answered but requestCompleted was never emitted", shortReq(r).c_str()));
		if (m.cut || !m.keep) { over = true; mustEnd = true; break; }
	}
	if (!final) return;
	if (off < in.size()) violate("S02|S03|S05|S06|S09|S10", "stray-bytes", fmt("client %d received %zu bytes that belong to no response: %s", c.id, in.size() - off, quote(in.substr(off, 120)).c_str()));
	if (mustEnd && !c.ended && !c.aborted && !c.failed) violate("S04|S05|S07", "not-closed", fmt("client %d: the connection had to be closed and is still open", c.id));
	if (!mustEnd && c.ended && !tolerant) violate("S04|S07|S09", "closed-without-reason", fmt("client %d: the server ended the connection without reason", c.id));
	if (c.wasReset && !tolerant && !(mustEnd && (c.pos > streamOff || refusedBad))) violate("S04|S02", "reset-by-server", fmt("client %d: connection reset instead of closed", c.id));
}

// ------------------------------------------------------------------ generation
static std::string contentFor(Req& r, u32 max) { return blob(r.id + 100000, sizeDraw(max), (int)wpick({4, 2, 1, 1})); }
static Plan genPlan(Req& r, const std::string& prop, u32 maxContent, u32 deferral, bool nesting)
{
	Plan p; Op o; bool otherTe = false, misuse = prop == "S03" ? chance(1, 2) : chance(1, 12); bool closing = prop == "S07" ? chance(1, 4) : prop == "S08" ? chance(1, 10) : chance(1, 40);
	auto pause = [&]() { Op q; q.k = Op::Pause; q.delay = chance(1, 3) ? (u64)draw(3000) * ms : (u64)draw(20000) * us; p.ops.push_back(q); p.deferred = true; };
	auto mis = [&]() { if (!misuse) return; u32 n = draw(3); for (u32 i = 0; i < n; ++i) { Op q; q.k = Op::Misuse; q.arg = (int)draw(7); p.ops.push_back(q); } };
	auto maybePause = [&](u32 pct) { if (chance(pct, 100)) pause(); };
	maybePause(deferral); if (p.deferred) { Op q; q.k = Op::Verify; p.ops.push_back(q); }
	if (chance(1, 10)) { Op q; q.k = Op::Param; p.ops.push_back(q); }
	if (nesting) { auto dur = []() { return chance(1, 3) ? (u64)(1 + draw(400)) * ms : (u64)(1 + draw(3000)) * us; }; if (chance(1, 8)) { Op q; q.k = Op::Pause; q.delay = (u64)draw(3000) * us; p.ops.push_back(q); p.deferred = true; q.k = Op::Nested; q.delay = dur(); p.ops.push_back(q); } if (chance(1, 12)) p.nestInCompleted = dur(); if (chance(1, 12)) p.nestInClosed = dur(); }
	if (prop == "S07" && chance(1, 15)) { Op q; q.k = Op::CloseOther; p.ops.push_back(q); }
	mis();
	static const int statuses[] = {200, 200, 200, 404, 500, 201, 302, 403, 206, 505, 299, 0, 999, 418, 204, 304};
	int st = statuses[wpick({8, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})];
	if (chance(1, 6)) st = anyStatus();
	if (prop != "S02" && prop != "S03" && statusOf(st) != st) st = 200;
	sim::Headers h; u32 n = wpick({3, 2, 2, 1}); for (u32 i = 0; i < n; ++i) { static const char* names[] = {"X-A", "Set-Cookie", "Date", "Server", "ETag", "x-lower", "X-Content-Length"}; std::string v = "v" + num(r.id) + "-" + num(i); if (chance(1, 10)) v += blob(r.id, draw(400), 0); if (chance(1, 40)) v = blob(r.id, 3000 + draw(4000), 2); if (chance(1, 10)) v += "\xc3\xa9\x80: ;"; if (chance(1, 15)) v = ""; h.push_back({names[draw(7)], v}); }
	bool rawType = false; if (chance(1, 8)) { auto& x = rawHeaders()[draw(6)].first; rawType = x.first == "Content-Type"; h.insert(h.begin() + draw((u32)h.size() + 1), x); }
	if (!rawType && chance(1, 3)) h.insert(h.begin() + draw((u32)h.size() + 1), {chance(1, 3) ? "content-type" : "Content-Type", "text/x-" + num(r.id)});
	if (chance(prop == "S04" ? 40 : 12, 100)) { static const char* v[] = {"close", "Close", "keep-alive", "upgrade", "Upgrade, close"}; h.insert(h.begin() + draw((u32)h.size() + 1), {"Connection", v[draw(5)]}); }
	if (chance(prop == "S03" || prop == "S04" ? 8 : 3, 100)) { static const char* v[] = {"identity", "gzip", "x-chunked", ""}; h.insert(h.begin() + draw((u32)h.size() + 1), {"Transfer-Encoding", v[draw(4)]}); otherTe = true; probe("other-transfer-encoding"); }
	if (st == 204 || st == 304) { o.k = Op::Write; o.status = st; o.h = h; p.ops.push_back(o); return p; }
	int form = (int)wpick({8, 2, 4, 4, 2, 2, (u32)(prop == "S03" ? 8 : 1)}); if (otherTe && (form == 3 || form == 6)) form = 4;
	o.status = st; o.h = h; std::string c = contentFor(r, maxContent);
	auto pieces = [&](const std::string& all, bool exact) {
		size_t pos = 0; u32 k = 1 + draw(5); for (u32 i = 0; i < k && pos < all.size(); ++i) { size_t m = i + 1 == k ? all.size() - pos : std::min<size_t>(all.size() - pos, sizeDraw((u32)all.size())); Op q; q.k = Op::Content; q.c = all.substr(pos, m); pos += m; maybePause(deferral / 2); mis(); p.ops.push_back(q); if (chance(1, 10)) { Op f; f.k = Op::Flush; p.ops.push_back(f); } }
		(void)exact; };
	Op cl; cl.k = Op::Close; Op en; en.k = Op::End;
	switch (form) {
	case 0: o.k = Op::Write; o.c = c; p.ops.push_back(o); break;
	case 1: o.k = Op::WriteString; o.c = c; p.ops.push_back(o); break;
	case 2: o.k = Op::Headers; o.h.insert(o.h.begin() + draw((u32)o.h.size() + 1), {chance(1, 4) ? "content-length" : "Content-Length", num((i64)c.size())}); p.ops.push_back(o); maybePause(deferral / 2); pieces(c, true); break;
	case 3: o.k = Op::Headers; o.h.insert(o.h.begin() + draw((u32)o.h.size() + 1), {"Transfer-Encoding", chance(1, 5) ? "Chunked" : "chunked"}); p.ops.push_back(o); maybePause(deferral / 2); pieces(c, true); maybePause(deferral / 2); mis(); p.ops.push_back(en); break;
	case 4: o.k = Op::Headers; p.ops.push_back(o); pieces(c, true); mis(); p.ops.push_back(en); break;
	case 5: if (!r.body.empty()) { if (chance(1, 2)) { o.k = Op::EchoWrite; p.ops.push_back(o); } else { o.k = Op::Headers; o.h.push_back({"Content-Length", num((i64)r.body.size())}); p.ops.push_back(o); Op q; q.k = Op::EchoContent; p.ops.push_back(q); } } else { o.k = Op::Write; o.c = c; p.ops.push_back(o); } break;
	case 6: { // contradictory headers
		probe("contradictory-headers"); static const char* v[] = {"abc", "-5", "0", "3", "", " 7 ", "5000000000", "2147483648", "9", "4294967297"}; std::string len = v[draw(10)]; if (chance(1, 3)) len = num((i64)c.size());
		o.h.insert(o.h.begin() + draw((u32)o.h.size() + 1), {"Content-Length", len}); if (chance(1, 2)) o.h.insert(o.h.begin() + draw((u32)o.h.size() + 1), {"Transfer-Encoding", "chunked"});
		if (chance(1, 2)) { o.k = Op::Write; o.c = c; p.ops.push_back(o); } else { o.k = Op::Headers; p.ops.push_back(o); maybePause(deferral); pieces(c, false); }
		maybePause(deferral); mis(); p.ops.push_back(en); p.ops.push_back(cl); break; }
	}
	if (closing) switch (wpick({3, 1, 1})) { case 0: p.ops.insert(p.ops.begin() + draw((u32)p.ops.size() + 1), cl); break; case 1: p.closeInCompleted = true; break; case 2: p.closeInClosed = true; break; }
	return p;
}

static void run(const std::string& prop)
{
	World w; W = &w; w.prop = prop; bool any = prop.empty();
	bool faults = chance(3, 4);
	net = randomNet(faults);
	if (any || prop == "S10") w.kind = (Kind)draw(4); else { switch (wpick({12, 1, 2, 2})) { case 1: w.kind = Tls; break; case 2: w.kind = Local; break; case 3: w.kind = Device; break; } if (prop == "S09" && w.kind > Tls) w.kind = Tcp; }
	GenOpts g; u32 maxContent = 3000, deferral = chance(1, 3) ? 0 : 10 + draw(70);
	switch (wpick({5, 3, 2, 1})) { case 1: maxContent = 40000; break; case 2: maxContent = 200000; break; case 3: maxContent = 600000; break; }
	g.maxBody = prop == "S01" ? (chance(1, 5) ? 300000 : 20000) : chance(1, 10) ? 100000 : 3000;
	g.invalid = prop == "S05" ? 30 : prop == "S01" ? 4 : prop == "S06" ? 8 : prop == "S07" || prop == "S09" || prop == "S08" ? 6 : 3;
	g.expect = prop == "S06" ? 60 : 12; if (prop == "S06") g.bodies = 60; if (prop == "S04") { g.connHdr = 50; g.versions10 = 35; } if (prop == "S03") { g.head = 20; g.versions10 = 25; }
	if (chance(1, 4)) g.versions10 = g.connHdr = 0; // long keep-alive sessions
	u32 abortPct = prop == "S07" || prop == "S08" ? 40 : prop == "S09" ? 30 : 6;
	u32 nClients = 1 + (prop == "S09" ? draw(chance(1, 6) ? 60 : 10) : prop == "S08" ? draw(chance(1, 8) ? 40 : 8) : draw(4)); if (w.kind == Tls) nClients = 1 + draw(4);
	bool deep = w.kind != Tls && (prop == "S07" || prop == "S01" || prop == "S02" || prop == "S09") && chance(1, 50);
	bool sequential = prop == "S08" ? chance(3, 4) : chance(1, 5);
	bool many = !deep && (prop == "S09" || prop == "S08") && w.kind != Tls && w.kind != Device && chance(1, 60); // More connections than are ever kept or queued.
	if (many) { nClients = 130 + draw(150); maxContent = std::min(maxContent, 3000u); probe("many-connections"); }
	if (deep) { nClients = 1; probe("deep-pipeline"); net = NetCfg(); net.sndCap = 8 << 20; abortPct = 0; if (w.kind == Local) w.kind = Tcp; }
	if (faults && (prop == "S09" || chance(1, 12)) && (w.kind == Tcp || w.kind == Tls)) { acceptFault.enabled = true; acceptFault.per1000 = 100 + draw(400); }
	if (prop == "S09" && faults && chance(1, 5)) { connLimit = 1 + draw(6); at((u64)(100 + draw(5000)) * ms, "descriptors-available", []() { connLimit = 0; }); }
	bool nesting = !deep && chance(prop == "S07" || prop == "S08" ? 3 : 1, 15);
	summary(fmt("%s clients=%u seg=%d cap=%u faults=%d content<=%u deferral=%u%s%s", kindName[w.kind], nClients, net.segMode, net.sndCap, (int)faults, maxContent, deferral, deep ? " deep" : "", sequential ? " sequential" : ""));

	// server
	switch (w.kind) {
	case Tcp: { Pillow::HttpServer* s; if (chance(2, 3)) s = new Pillow::HttpServer(QHostAddress("127.0.0.1"), w.port); else { probe("configured-later"); s = new Pillow::HttpServer(); s->listen(QHostAddress("127.0.0.1"), w.port); } w.server = s; QObject::connect(s, &Pillow::HttpServer::requestReady, [](Pillow::HttpConnection* c) { W->ready(c); }); break; }
	case Tls: { Pillow::HttpsServer* s; if (chance(1, 2)) s = new Pillow::HttpsServer(tlsCert(), tlsKey(), QHostAddress("127.0.0.1"), w.port); else { probe("configured-later"); s = new Pillow::HttpsServer(); s->listen(QHostAddress("127.0.0.1"), w.port); s->setCertificate(tlsCert()); s->setPrivateKey(tlsKey()); } w.server = s; QObject::connect(s, &Pillow::HttpServer::requestReady, [](Pillow::HttpConnection* c) { W->ready(c); }); break; }
	case Local: { w.localName = "/tmp/pillow-sim-local"; Pillow::HttpLocalServer* s; if (chance(1, 2)) s = new Pillow::HttpLocalServer(QString::fromStdString(w.localName)); else { probe("configured-later"); s = new Pillow::HttpLocalServer(); s->listen(QString::fromStdString(w.localName)); } w.server = s; QObject::connect(s, &Pillow::HttpLocalServer::requestReady, [](Pillow::HttpConnection* c) { W->ready(c); }); break; }
	case Device: w.server = new QObject; break;
	}
	for (Pillow::HttpConnection* c : w.server->findChildren<Pillow::HttpConnection*>()) w.wireSignals(c);
	w.initialChildren = (int)w.track.size();
	ChildFilter filter; filter.w = &w; w.server->installEventFilter(&filter);
	QObject::connect(QAbstractEventDispatcher::instance(), &QAbstractEventDispatcher::awake, [&w]() { scan(&w); });

	auto makeClient = [&](GenOpts& go, int nReq, bool clean) -> Client* {
		std::unique_ptr<Client> cp(new Client); Client* c = cp.get(); c->w = &w; c->id = (int)w.clients.size(); w.clients.push_back(std::move(cp));
		for (int i = 0; i < nReq; ++i)
		{
			auto r = std::make_shared<Req>(genRequest(w.nextId++, go)); r->client = c->id; r->idx = i; w.byId[r->id] = {c, i};
			Plan p; if (go.simple) { Op o; o.k = Op::Write; o.c = "ok" + num(r->id); p.ops.push_back(o); } else if (r->valid) p = genPlan(*r, prop, maxContent, deferral, nesting);
			c->reqs.push_back(r); c->plans.push_back(p); c->stream += r->wire();
		}
		c->total = c->stream.size(); c->mode = clean ? 0 : (int)wpick({4, 3, 3}); c->waitContinue = chance(3, 4); c->pieceDelay = draw(200) * ms;
		u32 chunk = 0; u64 delay = 0;
		if (!clean)
		{
			if (chance(1, 3)) { chunk = 1 + sizeDraw(5000); u64 worst = (u64)nReq * maxContent; if (worst / chunk > 3000) chunk = (u32)(worst / 3000) + 1; delay = chance(1, 2) ? draw(50) * ms : 0; }
			if (chance(1, 8)) c->pausePeriod = 1 + draw(30000);
			if (chance(abortPct, 100)) { c->abortKind = 1 + draw(2); switch (draw(3)) { case 0: c->abortSent = draw((u32)c->total + 1); break; case 1: c->abortRecv = 1 + sizeDraw(3000); break; default: c->abortAt = (u64)(1 + draw(2000)) * us * (chance(1, 2) ? 1000 : 1); } }
			else if (chance(prop == "S09" ? 15 : 2, 100)) { c->stall = true; c->mode = 0; fault("client-stalls"); }
			c->closeAtEnd = chance(3, 4);
		}
		if (w.kind == Device) { DeviceWire* d = new DeviceWire; d->logic = c; c->wire = d; }
		else if (w.kind == Tls && !clean && chance(1, 12)) { c->tlsCut = true; c->wire = rawWire(c, chunk, delay); fault("plaintext-to-tls"); }
		else if (w.kind == Tls) { TlsOpts t; if (!clean && chance(1, 5)) { t.cutAt = draw(700); t.cutHow = draw(3); t.garbage = chance(1, 3); c->tlsCut = true; } c->wire = tlsWire(c, chunk, delay, t); }
		else c->wire = rawWire(c, chunk, delay);
		return c;
	};
	u64 start = 0;
	for (u32 i = 0; i < nClients; ++i)
	{
		GenOpts go = g; int n = 1 + (int)sizeDraw(chance(1, 6) ? 30 : 5); if (many) n = 1 + (int)draw(2); if (deep) { go.simple = true; go.invalid = 0; go.versions10 = 0; n = 2000 + draw(6000); }
		if (!deep && !many && chance(1, 10)) { go.simple = true; n = 10 + draw(60); }
		Client* c = makeClient(go, n, deep);
		if (sequential) start += chance(1, 4) ? (u64)draw(100) * us : (u64)draw(3000) * ms; else start = (u64)draw(20) * ms;
		at(start, "client-start", [c]() { W->connect(c); });
	}
	bool q = pumpUntilQuiescent(); if (!q) return;
	// some tls clients whose handshake was meant to be cut may have completed it (the cut point lies beyond it)
	for (auto& c : w.clients) if (c->tlsCut && tlsHandshakeDone(c->wire) && w.kind == Tls && c->up) c->tlsCut = false;
	for (auto& c : w.clients) { w.checkClient(*c, true); if (c->tlsCut && c->announcedNext) violate("S10|S07", "announced-without-handshake", "a request was announced for a TLS client whose handshake failed"); }
	// S09: once faults have stopped a new client is served
	net = NetCfg(); acceptFault.enabled = false; connLimit = 0;
	{ GenOpts go; go.simple = true; go.versions10 = 0; Client* c = makeClient(go, 2, true); c->probeClient = true; at(0, "probe-client", [c]() { W->connect(c); }); q = pumpUntilQuiescent();
	  if (!c->up || c->failed) violate("S09|S07", "not-accepted", "after all faults stopped a new client is not accepted"); if (!c->reqs[1]->announced) violate("S09|S07", "not-served", "after all faults stopped a new client is not answered"); 
	  for (auto& x : w.clients) w.checkClient(*x, true); }
	// every client goes away: everything must be released
	for (auto& c : w.clients) if (!c->closedByUs && !c->failed) { c->aborted = true; if (chance(1, 3)) c->wire->reset(); else c->wire->fin(); }
	pumpUntilQuiescent();
	u64 accepted = w.deviceConns; if (w.kind != Device) for (Conn* c : conns) if (c->accepted) accepted++;
	if (w.closedSignals != accepted) violate("S07|S09", "closed-count", fmt("%llu connections were accepted and %llu reported closed", (unsigned long long)accepted, (unsigned long long)w.closedSignals));
	if (openSimConns() != 0) violate("S08|S07|S04", "socket-leak", fmt("%d sockets are still open after every client has gone", openSimConns()));
	if (w.kind != Device)
	{
		int left = w.server->findChildren<QAbstractSocket*>().size() + w.server->findChildren<QLocalSocket*>().size(), pool = w.server->findChildren<Pillow::HttpConnection*>().size();
		if (left) violate("S08", "socket-object-leak", fmt("%d socket objects are left after every client has gone", left));
		if (pool > std::max(w.initialChildren, 25)) violate("S08", "pool-unbounded", fmt("%d idle connection objects are kept", pool));
		if (pool > 25) probe("pool-above-25");
	}
	w.tornDown = true; delete w.server; pumpFor(ms); noObjectsLeft("S07|S08", "after the server was deleted");
	if (openSimFds() != 0) violate("S08|S07", "descriptor-leak", fmt("%d descriptors left after the server was destroyed", openSimFds()));
}
SCENARIO(srv, run);
} // namespace
