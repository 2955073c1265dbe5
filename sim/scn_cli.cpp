// Pillow::HttpClient against simulated servers (C01-C07).
#include "harness.h"
#include "HttpClient.h"
#include <zlib.h>
namespace cli {
using namespace sim;
struct Client; struct SConn; struct Req;
enum Tri { No, Yes, Maybe };
static const u64 Settle = 50 * ms; // an application certainly notices within this time what has been delivered to it

struct Place { u32 ip; u16 port; std::string host; bool explicitPort; std::string authority() const { return host + (explicitPort ? ":" + num(port) : ""); } std::string hostValue() const { return host + (port != 80 ? ":" + num(port) : ""); } bool same(const Place& o) const { return host == o.host && port == o.port; } };

struct Plan { // what the server answers
	int status = 200; std::string reason = "OK", version = "HTTP/1.1"; Headers headers; std::string trailer; size_t nTrailers = 0;
	std::string body;                 // content the client must report
	enum F { None, Length, Chunked, UntilClose } framing = Length;
	bool gzip = false, badGzip = false, invalid = false; std::string invalidKind; size_t bodyKnown = 0; // bodyKnown: content before the invalid part (invalid only)
	std::string wire; size_t hundred = 0, headerEnd = 0, need = 0; // need: bytes after which the response is complete for the client; invalid: bytes after which the error is certain
	Tri keep = Yes;                   // the response permits reuse
	bool serverCloses = false; u64 closeDelay = 0;
	i64 cut = -1; int cutKind = 0; i64 stall = -1; u64 stallFor = 0; // stallFor 0: for good (the caller aborts)
	bool early = false; std::string extra; int extraWhen = 0; u64 extraDelay = 0; u64 idleClose = 0; int idleKind = 0;
	u64 delay = 0; u32 piece = 0; u64 pause = 0;
};
struct Req {
	int id = 0, wireId = 0; Client* c = 0; Place to; std::string method, path, query, data, fragment; Headers headers; Plan plan;
	bool ignored = false, redirect = false;
	u64 madeAt = 0, endedAt = 0; bool ended = false; int verdict = -1;
	// what the caller does
	int abortAt = 0; u64 abortDelay = 0; u32 abortNth = 0; int afterAbort = 0; int consume = 0; int next = 0; u64 think = 0; bool overlap = false; u32 overlapWhere = 0; u64 nest[3] = {0, 0, 0}; // event loops run by the caller in headersCompleted, contentReadyRead (once), finished
	// history
	bool appAborted = false, connectFault = false, consumerArmed = false; ConnectPlan connectPlan; bool  soft = false, mayBeStale = false; int attempts = 0, arrivals = 0; SConn* conn = 0; bool headersSeen = false; u32 contentSignals = 0; std::string consumed; size_t lastSize = 0; bool serverDoneSending = false, serverEnded = false, serverReset = false, bodyArrived = false; size_t base = 0; // base: bytes the server had sent on the connection before this response
	Tri reuse = Maybe; SConn* reuseConn = 0; bool deleted = false;
	std::string name() const; bool head() const { return method == "HEAD"; }
};
struct SConn : Actor { size_t seenOff = 0, seenNeed = 0, seenAt = 0;
	Client* c = 0; Place at_; size_t off = 0; std::vector<Req*> reqs; Req* cur = 0; Req* reading = 0; size_t sentBase = 0; bool answering = false; size_t sent = 0; int gen = 0; bool over = false; u64 finDue = 0; bool extraSent = false; size_t extraEnd = 0; bool poisoned = false, stuck = false; bool checkQueued = false; u64 deliveredAt = 0;
	void onData() override { if (!checkQueued) { checkQueued = true; sim::at(ms / 8, "server-check", [this]() { checkQueued = false; check(); }); } }
	void onFin() override { over = true; ++gen; logf("server c%d: client closed", end->conn->id); if (!end->closed) fin(); }
	void onReset() override { over = true; ++gen; }
	void check(); void arrived(Req* r, const Parsed& p, bool whole); void respond(Req* r); void step(Req* r, int g); void answered(Req* r);
	Dir& toApp() { return end->conn->d[1 - end->side]; }
	size_t delivered() { return toApp().bytes - toApp().inflight.size(); }
	size_t read() { return delivered() - toApp().unread(); }
	bool closedByServer() { return end->closed || toApp().finQueued || toApp().rstDelivered; }
};
struct Lst : ActorListener { Client* c; Place p; ConnectPlan plan() override; Actor* accept(Conn*) override; };
struct Client {
	int id = 0; Pillow::HttpClient* client = 0; std::vector<Place> places; int budget = 0, keepAlive = -1; i64 buffer = 0; Req* cur = 0; Req* last = 0; bool dead = false; u64 lastEnd = 0; u32 depth = 0; std::vector<SConn*> conns; bool idleAborted = false; int kaAtEnd = -1; u64 consumePeriod = 0; u32 connectFaults = 0; bool deleting = false; int inCb = 0;
	std::vector<Lst*> lst;
};
struct World { std::string prop; bool faults = false, nesting = false; std::vector<std::unique_ptr<Client>> clients; std::vector<std::shared_ptr<Req>> reqs; int nextId = 1; };
static World* W;
std::string Req::name() const { return fmt("request %d (client %d: %s http://%s%s)", id, c->id, method.c_str(), to.authority().c_str(), quote(path, 60).c_str()); }
static Req* byWire(int id) { for (size_t i = W->reqs.size(); i--;) if (W->reqs[i]->wireId == id) return W->reqs[i].get(); return 0; } // redirections repeat the X-Id of the original request
static const char* errName(int e) { static const char* n[] = {"NoError", "NetworkError", "ResponseInvalidError", "RemoteHostClosedError", "AbortedError"}; return e >= 0 && e < 5 ? n[e] : "unknown"; }
static bool is(const char* p) { return W->prop == p; }

// ------------------------------------------------------------------ plans
static void makePlan(Client* c, Req* r, bool lastOne)
{
	Plan& p = r->plan; bool c1 = is("C01"), c2 = is("C02"), c3 = is("C03"), c4 = is("C04"), c6 = is("C06"), c7 = is("C07"); bool f = W->faults;
	u32 sk = wpick({12, 1, 1, 1, 2, 1, 1, c3 ? 3u : 1u});
	static const int st[] = {200, 201, 204, 304, 404, 500, 206, 302}; static const char* rs[] = {"OK", "Created", "No Content", "Not Modified", "Not Found", "Internal Server Error", "Partial Content", "Found"};
	p.status = st[sk]; p.reason = rs[sk]; if (sk == 7) { static const int red[] = {302, 301, 303, 307, 300}; p.status = red[draw(5)]; } if (sk == 4 || sk == 6) { static const int odd[] = {404, 203, 202, 207, 226, 299, 305, 308, 400, 401, 403, 410, 416, 418, 429, 501, 503, 599, 600, 999}; p.status = odd[draw(20)]; if (chance(1, 3)) p.reason = "Whatever"; } if (chance(1, 12)) p.reason = chance(1, 2) ? "" : "A  strange: reason";
	bool noBody = r->head() || p.status == 204 || p.status == 304;
	if (chance(1, 7)) p.version = "HTTP/1.0";
	size_t n; switch (wpick({4, 2, 3, 2})) { case 0: n = sizeDraw(300); break; case 1: n = 0; break; case 2: n = sizeDraw(20000); break; default: n = sizeDraw(150000); break; }
	if (c6 || c->buffer) n = chance(1, 5) ? n : (size_t)c->buffer * draw(6) + draw(200); if (c->buffer && n > (size_t)c->buffer * 400) n = (size_t)c->buffer * (1 + draw(400));
	if (n > (size_t)net.sndCap * 500) n = (size_t)net.sndCap * (1 + draw(500));
	bool gz = !noBody && chance(c7 ? 75 : c3 || c6 ? 25 : 10, 100);
	std::string content = blob(r->id, gz && chance(1, 4) ? n * 20 : n, (int)draw(4)), payload = content;
	if (gz) {
		if (chance(c7 ? 30 : 15, 100)) { p.badGzip = true; payload = sim::gz(content, 6); switch (draw(6)) { case 4: payload += blob(r->id, 1 + sizeDraw(400), 3); probe("gzip-followed-by-garbage"); break; case 5: payload += std::string(1 + draw(600), '\0'); probe("gzip-followed-by-garbage"); break; case 0: payload = content; break; case 1: payload.resize(draw((u32)payload.size() + 1)); break; case 2: if (!payload.empty()) payload[draw((u32)payload.size())] ^= (char)(1 << draw(8)); break; default: payload = std::string("\x1f\x8b\x08", 3) + content; break; } }
		else { p.gzip = true; static const int lv[] = {6, 0, 1, 9}; int l = lv[draw(4)]; payload = sim::gz(content, l, chance(1, 3)); }
	}
	p.body = noBody ? "" : content;
	// framing
	if (noBody) p.framing = Plan::None; else { u32 k = wpick({6, p.version == "HTTP/1.0" ? 0u : 5u, c2 ? 1u : 1u}); p.framing = k == 0 ? Plan::Length : k == 1 ? Plan::Chunked : Plan::UntilClose; }
	// headers
	std::vector<std::pair<std::string, std::string>> h; u32 nh = draw(6); static const char* names[] = {"Server", "X-A", "Set-Cookie", "x-lower", "ETag", "X-Long", "Cache-Control", "X_Odd.Name~1"};
	for (u32 i = 0; i < nh; ++i) { u32 k = draw(8); std::string v = fmt("v%d-%u", r->id, i); if (k == 5) v += std::string(1 + sizeDraw(4000), 'L'); if (chance(1, 10)) v = ""; if (!v.empty() && chance(1, 8)) v += " with spaces; and=\"quotes\", commas"; h.push_back({names[k], v}); }
	if (chance(1, 10)) h.insert(h.begin() + draw((u32)h.size() + 1), oddHeader());
	if (p.status >= 300 && p.status < 309 && p.status != 304) { const Place& t = c->places[draw((u32)c->places.size())]; std::string loc = chance(1, 5) ? "" : "http://" + t.authority(); loc += fmt("/redirected/%d", r->id); if (chance(1, 3)) loc += "?from=" + num(r->id); h.insert(h.begin() + draw((u32)h.size() + 1), {chance(1, 3) ? "location" : "Location", loc}); }
	if (gz || (noBody && chance(1, 6))) { static const char* enc[] = {"gzip", "GZIP", "Gzip"}; h.insert(h.begin() + draw((u32)h.size() + 1), {chance(1, 3) ? "content-encoding" : "Content-Encoding", enc[draw(3)]}); if (gz && chance(1, 12)) h.push_back({"Content-Encoding", "gzip"}); }
	else if (chance(1, 15)) h.push_back({"Content-Encoding", "identity"});
	bool ka = p.version == "HTTP/1.1" ? !chance(c4 ? 25 : 12, 100) : chance(1, 2); bool say = p.version == "HTTP/1.1" ? !ka || chance(1, 6) : ka || chance(1, 3);
	p.keep = ka ? Yes : No; if (p.framing == Plan::UntilClose) { p.keep = No; if (p.version == "HTTP/1.1" && ka && !say) {} else if (ka && say) { ka = false; say = p.version == "HTTP/1.1"; } }
	std::vector<std::pair<std::string, std::string>> fr; if (say) fr.push_back({chance(1, 3) ? "connection" : "Connection", ka ? (chance(1, 5) ? "Upgrade, Keep-Alive" : chance(1, 2) ? "keep-alive" : "Keep-Alive") : (chance(1, 5) ? "Upgrade, close" : chance(1, 5) ? "close,TE" : chance(1, 3) ? "Close" : "close")});
	else if (p.keep != Maybe && chance(1, 15)) { static const char* ov[] = {"Upgrade", "foo", "closed", "keep-alives", "clos", "k", "TE"}; fr.push_back({"Connection", ov[draw(7)]}); }
	if (p.framing == Plan::Length) fr.push_back({chance(1, 3) ? "content-length" : "Content-Length", num((i64)payload.size())});
	else if (p.framing == Plan::Chunked) { fr.push_back({"Transfer-Encoding", chance(1, 6) ? "Chunked" : "chunked"}); if (chance(1, 8)) fr.push_back({"Content-Length", num((i64)(chance(1, 2) ? payload.size() : sizeDraw(5000)))}); }
	else if (r->head()) { u32 k = draw(3); if (k == 0) fr.push_back({"Content-Length", num((i64)sizeDraw(100000))}); else if (k == 1 && p.version == "HTTP/1.1") fr.push_back({"Transfer-Encoding", "chunked"}); else if (p.keep == Yes && p.status != 204 && p.status != 304) p.keep = Maybe; }
	else if ((p.status == 204 || p.status == 304) && chance(1, 3)) { if (p.version == "HTTP/1.1" && chance(1, 4)) fr.push_back({"Transfer-Encoding", "chunked"}); else fr.push_back({"Content-Length", num(chance(1, 3) ? 0 : (i64)sizeDraw(5000))}); }
	for (auto& x : fr) h.insert(h.begin() + draw((u32)h.size() + 1), x);
	p.headers.assign(h.begin(), h.end());
	p.invalid = f && chance(c2 ? 10 : c3 ? 8 : 3, 100) ? true : false;
	// wire
	std::string w; u32 hundreds = chance(1, c1 || c2 ? 6 : 12) ? 1 + draw(3) : 0; for (u32 i = 0; i < hundreds; ++i) { w += "HTTP/1.1 100 Continue\r\n"; if (chance(1, 4)) w += "X-Interim: yes\r\n"; w += "\r\n"; } p.hundred = w.size();
	std::string line = p.version + " " + num(p.status) + (p.reason.empty() ? (chance(1, 2) ? "" : " ") : " " + p.reason), extraHeader; int ik = -1;
	if (p.invalid)
	{
		ik = (int)draw(p.framing == Plan::Chunked && !payload.empty() ? 6 : p.framing == Plan::None ? 3 : 4);
		static const char* kn[] = {"garbage", "status", "version", "header", "chunk", "chunk"}; p.invalidKind = kn[ik];
		if (ik == 0) { static const char* g[] = {"<html>\r\n", "GET / HTTP/1.1", "HTTX/1.1 200 OK", "\x16\x03\x01\x02", "H"}; u32 k = draw(5); line = k == 4 ? std::string(20, '\xff') : g[k]; }
		else if (ik == 1) line = "HTTP/1.1 2x0 OK"; else if (ik == 2) line = "HTTP/a.1 200 OK"; else if (ik == 3) { if (p.framing == Plan::Length) { for (auto& x : p.headers) if (ieq(x.first, "content-length")) { static const char* v[] = {"", "99999999999999999999999", "30000000000000000000", "18446744073709551615", "-1", " 7", ", 7", "\t3"}; u32 k = draw(8); x.second = k && k < 5 ? v[k] : x.second + (k ? v[k] : "z"); } } else extraHeader = "Bad\x01Name: x\r\n"; }
	}
	w += line + "\r\n"; if (ik >= 0 && ik <= 2) p.need = w.size();
	for (auto& x : p.headers) w += x.first + ":" + (chance(1, 12) ? "" : chance(1, 12) ? "   " : " ") + x.second + "\r\n";
	w += extraHeader; if (ik == 3) p.need = w.size();
	w += "\r\n"; p.headerEnd = w.size();
	if (p.framing == Plan::Chunked)
	{
		std::vector<size_t> sizes; u32 k = 1 + draw(4); for (u32 i = 0; i < k; ++i) sizes.push_back(1 + sizeDraw(chance(1, 2) ? 20 : 20000)); if (payload.size() / *std::max_element(sizes.begin(), sizes.end()) > 3000) sizes.assign(1, payload.size() / 2000 + 1);
		if (chance(1, 6)) { p.nTrailers = 1 + draw(2); for (size_t i = 0; i < p.nTrailers; ++i) p.trailer += fmt("X-Trailer-%zu: t%d\r\n", i, r->id); }
		std::string e = chunkEncode(payload, sizes, chance(1, 4), chance(1, 8), p.trailer);
		if (ik >= 4) { size_t first = std::min(sizes[0], payload.size()); p.bodyKnown = first; if (ik == 4) { size_t pos = e.find("\r\n") + 2 + first + 2; static const char* v[] = {"xyz", "\x80\x31", "-1", "18888888888888888", "", "fffffffffffffffff"}; u32 k = draw(6); e = e.substr(0, pos) + v[k] + "\r\n" + e.substr(pos); p.need = w.size() + pos + (k == 3 || k == 5 ? 17 : 1); } else { size_t pos = e.find("\r\n") + 2 + first; e = e.substr(0, pos) + "!!" + e.substr(pos); p.need = w.size() + pos + 1; } }
		w += e;
	}
	else if (p.framing != Plan::None) w += payload;
	if (!p.invalid) p.need = p.framing == Plan::None ? p.headerEnd - (r->head() ? 1 : 0) : w.size();
	p.wire = w;
	// timing
	p.delay = chance(1, 3) ? draw(2000) * us : chance(1, 10) ? (u64)draw(5000) * ms : 0; if (chance(1, 3)) { p.piece = 1 + sizeDraw(3000); if (w.size() / p.piece > 500) p.piece = (u32)(w.size() / 500 + 1); p.pause = chance(1, 3) ? draw(20) * ms : chance(1, 8) ? draw(500) * ms : draw(300) * us; }
	p.early = !r->data.empty() && chance(1, 8);
	p.serverCloses = p.framing == Plan::UntilClose || (p.keep == No && chance(2, 3)) || (p.invalid && chance(1, 2)); p.closeDelay = chance(1, 2) ? 0 : draw(3000) * us; if (chance(1, 10)) p.closeDelay = draw(3000) * ms;
	if (f)
	{
		u32 bad = c2 ? 25 : c3 ? 15 : c6 || c7 ? 6 : 8;
		if (chance(bad, 100)) { p.cut = chance(1, 4) ? 0 : chance(1, 3) && w.size() > 3 ? (i64)w.size() - 1 - draw(3) : draw((u32)w.size()); if (chance(1, 4)) p.cut = std::min<i64>((i64)p.headerEnd, (i64)w.size() - 1) - (i64)draw(3); if (p.cut < 0) p.cut = 0; p.cutKind = 1 + draw(2); if ((size_t)p.cut >= p.need) p.cut = -1; }
		else if (chance(bad / 3 + 1, 100)) { p.stall = draw((u32)w.size()); p.stallFor = chance(1, 2) ? (1 + draw(20)) * sec : 0; if (p.stall >= (i64)p.need) p.stall = -1; }
		if (p.cut < 0 && p.stall < 0 && !p.invalid && chance(c3 || c4 ? 12 : 4, 100) && p.framing != Plan::UntilClose) { static const char* ex[] = {"HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX-Stale: 1\r\n\r\nstale", "\r\n", "garbage", "HTTP/1.1 408 Request Timeout\r\nConnection: close\r\n\r\n", "x"}; p.extra = ex[draw(5)]; p.extraWhen = 1 + draw(2); p.extraDelay = chance(1, 2) ? draw(3000) * us : (u64)draw(300) * ms; }
		if (p.keep != No && chance(c4 ? 25 : 8, 100)) { p.idleClose = 1 + (chance(1, 2) ? draw(3000) * us : (u64)draw(2000) * ms); p.idleKind = 1 + draw(2); }
	}
	// caller
	u32 ab = !f ? 3 : c3 ? 25 : c2 ? 18 : 8;
	if (chance(ab, 100)) { r->abortAt = 1 + draw(5); r->abortDelay = chance(1, 2) ? draw(3000) * us : (u64)draw(3000) * ms; r->abortNth = 1 + draw(4); }
	if (p.stall >= 0 && !p.stallFor) { if (!r->abortAt || r->abortAt != 2) { r->abortAt = 2; r->abortDelay = (1 + draw(10000)) * ms; } }
	r->afterAbort = (int)draw(4); // 0: in finished slot by r->next, 1: right after abort() returned, 2: ignored overlap before abort(), 3: both
	r->next = lastOne ? 0 : (int)wpick({5, 4, 1, 1, c3 ? 2u : 1u, (c3 ? 2u : 0u)});
	switch (wpick({4, 3, 2})) { case 0: r->think = 0; break; case 1: r->think = draw(4000) * us; break; default: r->think = (u64)draw(3000) * ms; break; }
	if (c->keepAlive > 0 && chance(1, 2)) { i64 t = (i64)c->keepAlive * (i64)ms; switch (draw(4)) { case 0: t += (i64)draw(8000) * (i64)us - 4 * (i64)ms; break; case 1: t /= 2; break; case 2: t *= 2; break; default: t += 10 * (i64)ms; break; } r->think = t > 0 ? (u64)t : 0; }
	r->consume = (int)wpick({3, 2, 1, 1}); r->overlap = chance(is("C05") ? 25 : 8, 100); r->overlapWhere = draw(4);
	if (W->nesting) for (u64& n : r->nest) if (chance(1, 8)) n = chance(1, 3) ? (u64)(1 + draw(400)) * ms : (u64)(1 + draw(3000)) * us;
}

// ------------------------------------------------------------------ servers
ConnectPlan Lst::plan()
{
	ConnectPlan pl; pl.delay = draw(2000) * us; Req* r = c->cur;
	if (!r || r->ended) { violate("C02|C05", "connect-without-request", fmt("client %d connects to %s:%d with no request outstanding", c->id, p.host.c_str(), p.port)); return pl; }
	++r->attempts;
	if (!p.same(r->to)) violate("C04|C05", "wrong-server", fmt("%s: the client connects to %s:%d", r->name().c_str(), p.host.c_str(), p.port));
	if (r->reuse == Yes) violate("C04", "not-reused", fmt("%s: a new connection is opened although the open one could be used again (%s)", r->name().c_str(), c->last ? c->last->name().c_str() : ""));
	if (r->connectFault) return r->connectPlan; // QTcpSocket may try again by itself
	if (r->attempts > 1 || !W->faults || !chance(W->prop == "C02" ? 15 : 5, 100)) return pl;
	u32 k = draw(3); r->connectFault = true;
	pl.k = k == 0 ? ConnectPlan::Refuse : k == 1 ? ConnectPlan::Unreachable : ConnectPlan::Hang; r->connectPlan = pl; return pl; // Linux needs longer to time out than QTcpSocket
}
Actor* Lst::accept(Conn*) { SConn* s = new SConn; s->c = c; s->at_ = p; if (chance(1, 5)) { s->readChunk = 1 + sizeDraw(3000); s->readDelayMax = draw(3000) * us; } c->conns.push_back(s); return s; }
void SConn::check()
{
	for (;;)
	{
		if (over || end->closed || off >= in.size()) return;
		if (reading && off == seenOff && in.size() < seenNeed && in.size() < seenAt * 5 / 4) return; // not worth parsing again yet
		Parsed p = parseRequest(in, off); seenOff = off; seenAt = in.size(); seenNeed = p.headersDone && p.framing == Parsed::Length ? off + p.headerBytes + (size_t)p.length : 0;
		if (p.bad) { violate("C05", "malformed-request", fmt("client %d sent a malformed request (%s): %s", c->id, p.err.c_str(), quote(in.substr(off), 200).c_str())); return; }
		if (!p.headersDone) return;
		const std::string* x = findHeader(p.headers, "X-Id"); Req* r = reading ? reading : x ? byWire(atoi(x->c_str())) : 0;
		if (!r) { violate("C05", "malformed-request", fmt("client %d sent something that is not one of its requests: %s", c->id, quote(in.substr(off), 200).c_str())); return; }
		if (!r->conn) arrived(r, p, p.complete); else if (r->conn != this || (cur != r && r->bodyArrived)) { violate("C05", "sent-twice", fmt("%s was sent twice", r->name().c_str())); return; }
		if (!p.complete) { reading = r; if (r->data.compare(0, p.body.size(), p.body)) violate("C05", "request-content", fmt("%s: the server receives other content than the caller gave", r->name().c_str())); if (r->plan.early && !answering && !r->serverDoneSending) respond(r); return; }
		off = p.consumed; reading = 0; r->bodyArrived = true;
		if (p.body != r->data) violate("C05", "request-content", fmt("%s: the server received %zu bytes of content that are not the %zu the caller gave", r->name().c_str(), p.body.size(), r->data.size()));
		if (!answering && !r->serverDoneSending) respond(r); if (r->serverDoneSending && off < in.size()) continue; // answered already (early)
	}
}
void SConn::arrived(Req* r, const Parsed& p, bool)
{
	logf("server c%d: request %d arrived", end->conn->id, r->id); r->conn = this; ++r->arrivals; Req* prev = reqs.empty() ? 0 : reqs.back(); reqs.push_back(r);
	if (r->ignored) violate("C05", "ignored-request-sent", fmt("%s was made while another request was outstanding and has been sent", r->name().c_str()));
	if (r->c != c || !r->to.same(at_)) violate("C04|C05", "wrong-server", fmt("%s was sent to %s:%d of client %d", r->name().c_str(), at_.host.c_str(), at_.port, c->id));
	if (prev && !prev->ended) violate("C05", "pipelined", fmt("%s was sent before the response to request %d ended", r->name().c_str(), prev->id));
	if (prev && r->reuse == No) violate("C04", "reused", fmt("%s was sent on a connection that must not be used again (previous: %s, %s)", r->name().c_str(), prev->name().c_str(), errName(prev->verdict)));
	if (prev && prev->verdict != 0) violate("C03|C04", "reused", fmt("%s was sent on the connection of request %d, which ended with %s", r->name().c_str(), prev->id, errName(prev->verdict)));
	if (r->reuse == Yes && r->reuseConn != this) violate("C04", "not-reused", fmt("%s was sent on another connection than the one that could be used again", r->name().c_str()));
	if (prev) probe("connection-reused"); if (poisoned) r->soft = true;
	std::string uri = r->path.empty() ? "/" : r->path; if (!r->query.empty()) uri += "?" + r->query;
	if (p.method != r->method || p.version != "HTTP/1.1") violate("C05", "request-line", fmt("%s: sent as %s", r->name().c_str(), quote(p.startLine).c_str()));
	if (p.uri != uri) violate("C05", "request-line", fmt("%s: sent as %s, expected the target %s", r->name().c_str(), quote(p.startLine).c_str(), quote(uri).c_str()));
	if (countHeader(p.headers, "host") != 1 || *findHeader(p.headers, "host") != r->to.hostValue()) violate("C05", "host-header", fmt("%s: %d Host headers, the first is %s, expected %s", r->name().c_str(), countHeader(p.headers, "host"), findHeader(p.headers, "host") ? quote(*findHeader(p.headers, "host")).c_str() : "none", r->to.hostValue().c_str()));
	Headers rest; for (auto& h : p.headers) if (!ieq(h.first, "host") && !ieq(h.first, "content-length")) rest.push_back(h);
	if (rest != r->headers) violate("C05", "request-headers", fmt("%s: the caller's headers were not sent as given: %s", r->name().c_str(), quote(in.substr(off, p.headerBytes), 300).c_str()));
	if (countHeader(p.headers, "content-length") > 1 || (!r->data.empty() && p.length != (i64)r->data.size()) || (r->data.empty() && p.length > 0)) violate("C05", "request-length", fmt("%s: has %zu bytes of content, sent as: %s", r->name().c_str(), r->data.size(), quote(in.substr(off, p.headerBytes), 300).c_str()));
}
void SConn::respond(Req* r)
{
	logf("server c%d answers %s (buffer %lld)", end->conn->id, quote(r->plan.wire, 300).c_str(), (long long)c->buffer); answering = true; cur = r; sent = 0; r->base = toApp().bytes; int g = ++gen;
	sim::at(r->plan.delay, "server-answer", [this, r, g]() { step(r, g); });
}
void SConn::step(Req* r, int g)
{
	if (g != gen || over || end->closed) return; Plan& p = r->plan; std::string w = p.wire; if (p.extraWhen == 1) w += p.extra;
	size_t limit = w.size(); if (p.cut >= 0) limit = std::min(limit, (size_t)p.cut); bool stalls = p.stall >= 0 && sent <= (size_t)p.stall; if (stalls) limit = std::min(limit, (size_t)p.stall);
	size_t n = limit - sent; if (p.piece) n = std::min<size_t>(n, 1 + draw(p.piece * 2));
	if (n) { if (sent + n > p.wire.size()) { extraSent = true; if (r->endedAt) {} } send(w.substr(sent, n)); sent += n; }
	if (sent < limit) { sim::at(p.pause ? draw((u32)(p.pause / us) + 1) * us : 10 * us, "server-more", [this, r, g]() { step(r, g); }); return; }
	if (stalls) { fault("server-stalls"); p.stall = -1; if (!p.stallFor) stuck = true; if (p.stallFor) sim::at(p.stallFor, "server-resumes", [this, r, g]() { step(r, g); }); return; }
	if (p.cut >= 0) { r->serverEnded = true; over = true; if (p.cutKind == 2) { fault("server-resets"); r->serverReset = true; reset(); } else { fault("server-closes-early"); fin(); } return; }
	answered(r);
}
void SConn::answered(Req* r)
{
	r->serverDoneSending = true; answering = false; Plan& p = r->plan; int g = gen; extraEnd = toApp().bytes; deliveredAt = 0; logf("server c%d: answered %d", end->conn->id, r->id);
	if (p.extraWhen == 1) { fault("unsolicited-bytes"); if (p.extra.find("408") != std::string::npos) { r->serverEnded = true; over = true; fin(); } }
	if (p.serverCloses) { sim::at(p.closeDelay, "server-close", [this, r]() { if (!end->closed && !over) { r->serverEnded = true; over = true; fin(); } }); }
	if (p.extraWhen == 2) sim::at(p.extraDelay, "server-extra", [this, r, g]() { if (end->closed || over || reqs.back() != r || off < in.size()) return; fault("unsolicited-bytes"); extraSent = true; Req* q = c->cur; if (q && q != r && !q->ended && q->reuse != No && c->last == r) { q->soft = true; poisoned = true; } if (q == r) {} send(r->plan.extra); extraEnd = toApp().bytes; if (r->plan.extra.find("408") != std::string::npos) { r->serverEnded = true; over = true; fin(); } });
	if (p.idleClose) sim::at(p.idleClose, "server-idle-close", [this, r]() { if (end->closed || over || reqs.back() != r) return; fault(r->plan.idleKind == 2 ? "idle-reset" : "idle-close"); r->serverEnded = true; over = true; if (r->plan.idleKind == 2) { r->serverReset = true; reset(); } else fin(); });
	check(); Req* n = reqs.back(); if (n != r && n->bodyArrived && !n->serverDoneSending && !answering && !over && !end->closed && !p.serverCloses) respond(n); // arrived while this one was being answered
}

// ------------------------------------------------------------------ the calling application
static void make(Client* c, bool overlapping); static void doAbort(Client* c); static void next(Client* c, Req* r);
static void hookUp(Client* c);
static void consume(Client* c) { Req* r = c->cur; if (!r || r->ended || !c->client) return; std::string s = sb(c->client->consumeContent()); r->consumed += s; r->lastSize = 0; }
static void armConsumer(Client* c, Req* r) { if (r->consumerArmed || r->ended) return; r->consumerArmed = true; appLater(10 * us + (c->consumePeriod ? draw((u32)(c->consumePeriod / us)) * us : 0), [c, r]() { r->consumerArmed = false; if (c->cur != r || r->ended || !c->client) return; consume(c); if (chance(1, 8)) armConsumer(c, r); }); }
static bool contentKnown(Req* r) { return !r->plan.badGzip && !r->soft; }
static void checkHeaders(Req* r, Pillow::HttpClient* k, bool atEnd)
{
	if (r->soft) return; Plan& p = r->plan;
	if (k->statusCode() != p.status) violate("C01|C03", "wrong-status", fmt("%s: status %d is reported, the server sent %d", r->name().c_str(), k->statusCode(), p.status));
	const Pillow::HttpHeaderCollection& h = k->headers(); size_t n = (size_t)h.size();
	bool ok = n >= p.headers.size() && (atEnd ? n <= p.headers.size() + p.nTrailers : n == p.headers.size()); for (size_t i = 0; ok && i < p.headers.size(); ++i) ok = sb(h.at((int)i).first) == p.headers[i].first && sb(h.at((int)i).second) == p.headers[i].second;
	if (!ok) { std::string got, exp; for (size_t i = 0; i < n; ++i) got += sb(h.at((int)i).first) + ": " + sb(h.at((int)i).second) + "|"; for (auto& x : p.headers) exp += x.first + ": " + x.second + "|"; violate("C01|C03", "wrong-headers", fmt("%s: headers reported %s, sent %s", r->name().c_str(), quote(got, 400).c_str(), quote(exp, 400).c_str())); }
}
static void checkContent(Client* c, Req* r, bool atEnd)
{
	Pillow::HttpClient* k = c->client; std::string now_ = sb(k->content()); Plan& p = r->plan;
	if (now_.size() < r->lastSize) violate("C01|C06", "content-shrinks", fmt("%s: content shrank from %zu to %zu bytes", r->name().c_str(), r->lastSize, now_.size()));
	r->lastSize = now_.size();
	if (c->buffer && !p.gzip && !p.badGzip && now_.size() > (size_t)c->buffer * 2 + 64) violate("C06", "unbounded-content", fmt("%s: %zu bytes of content are held with a read buffer of %lld", r->name().c_str(), now_.size(), (long long)c->buffer));
	if (!contentKnown(r)) return; std::string all = r->consumed + now_;
	if (all.size() > p.body.size() || p.body.compare(0, all.size(), all)) { size_t d = 0; while (d < all.size() && d < p.body.size() && all[d] == p.body[d]) ++d; violate(p.gzip ? "C01|C03|C06|C07" : "C01|C03|C06", "wrong-content", fmt("%s: content reported differs from what was sent at byte %zu (%zu of %zu bytes reported)", r->name().c_str(), d, all.size(), p.body.size())); }
	if (atEnd && all.size() != p.body.size()) violate(p.gzip ? "C01|C02|C06|C07" : "C01|C02|C06", "truncated-success", fmt("%s: %zu bytes of content reported in all, %zu were sent", r->name().c_str(), all.size(), p.body.size()));
}
static void nest(Req* r, int where) { if (u64 d = r->nest[where]) { r->nest[where] = 0; nestedLoop(d); } }
static void onHeaders(Client* c)
{
	Req* r = c->cur; if (!r || r->ended) { violate("C02|C03", "spurious-notification", fmt("client %d: headersCompleted with no request outstanding", c->id)); return; }
	logf("client %d: headers of %d", c->id, r->id);
	if (r->headersSeen && !r->soft) violate("C01", "headers-twice", fmt("%s: headersCompleted twice", r->name().c_str()));
	if (r->contentSignals) violate("C01", "order", fmt("%s: headers after content", r->name().c_str()));
	if (!r->soft && !r->conn) violate("C03|C04", "stale-response", fmt("%s: a response is reported before the request reached the server", r->name().c_str()));
	r->headersSeen = true; if (r->plan.invalid && r->plan.invalidKind != "chunk" && !r->soft) violate("C01|C02", "invalid-accepted", fmt("%s: headers reported for an invalid response (%s)", r->name().c_str(), r->plan.invalidKind.c_str()));
	checkHeaders(r, c->client, false); if (c->client->content().size() && !r->soft) violate("C01|C03", "order", fmt("%s: content before the headers", r->name().c_str()));
	if (r->overlap && r->overlapWhere == 1) make(c, true);
	nest(r, 0); if (c->cur != r || r->ended) return;
	if (r->abortAt == 3) doAbort(c);
}
static void onContent(Client* c)
{
	Req* r = c->cur; if (!r || r->ended) { violate("C02|C03", "spurious-notification", fmt("client %d: contentReadyRead with no request outstanding", c->id)); return; }
	if (!r->headersSeen) violate("C01", "order", fmt("%s: content before the headers", r->name().c_str()));
	++r->contentSignals; checkContent(c, r, false); 
	if (r->consume == 1 || (r->consume == 2 && chance(1, 2))) consume(c);
	if (c->client && c->cur == r && !r->ended && (c->buffer || r->consume == 3)) armConsumer(c, r);
	if (r->overlap && r->overlapWhere == 2 && r->contentSignals == 1) make(c, true);
	if (r->nest[1] && chance(1, 2)) { nest(r, 1); if (c->cur != r || r->ended) return; }
	if (r->abortAt == 4 && r->contentSignals == r->abortNth) doAbort(c);
}
static void judge(Client* c, Req* r)
{
	Plan& p = r->plan; int v = r->verdict; std::string nm = r->name();
	SConn* s = r->conn; size_t got = s && (s->answering || r->serverDoneSending || r->serverEnded) && s->delivered() > r->base ? s->delivered() - r->base : 0;
	logf("client %d: request %d finished %s (delivered %zu of %zu, need %zu%s%s)", c->id, r->id, errName(v), got, p.wire.size(), p.need, r->soft ? ", soft" : "", r->connectFault ? ", connect fault" : "");
	if ((v == Pillow::HttpClient::AbortedError) != r->appAborted) { if (r->appAborted) violate("C02|C03", "wrong-verdict", fmt("%s: aborted by the caller, reported %s", nm.c_str(), errName(v))); else violate("C02|C03", "wrong-verdict", fmt("%s: reported as aborted, but the caller did not abort it", nm.c_str())); }
	if (r->appAborted) return;
	if (r->soft) return;
	if (r->connectFault) { if (v != Pillow::HttpClient::NetworkError) violate("C02|C03", "wrong-verdict", fmt("%s: the connection could not be established, reported %s", nm.c_str(), errName(v))); return; }
	bool gone = (s && s->closedByServer()) || (r->reuseConn && r->reuseConn->closedByServer()); bool rst = (s && s->toApp().rstDelivered) || (r->reuseConn && r->reuseConn->toApp().rstDelivered) || r->serverReset;
	if (v == Pillow::HttpClient::NoError)
	{
		if (p.invalid) violate("C02", "invalid-accepted", fmt("%s: an invalid response (%s) is reported as success", nm.c_str(), p.invalidKind.c_str()));
		if (!s) violate("C02|C03|C04", "stale-response", fmt("%s: success is reported before the request reached the server", nm.c_str()));
		if (p.framing != Plan::UntilClose && got < p.need) violate("C02", "truncated-success", fmt("%s: success is reported with %zu of %zu bytes of the response received", nm.c_str(), got, p.need));
		if (p.framing == Plan::UntilClose && p.cut >= 0) violate("C02", "truncated-success", fmt("%s: success is reported although the connection was cut", nm.c_str()));
		if (!r->headersSeen) violate("C01", "order", fmt("%s: finished without headersCompleted", nm.c_str()));
		checkHeaders(r, c->client, true); checkContent(c, r, true);
		bool red = p.status == 300 || p.status == 301 || p.status == 302 || p.status == 303 || p.status == 307; const std::string* loc = findHeader(p.headers, "location");
		if (c->client->redirected() != red || sb(c->client->redirectionLocation()) != (loc ? *loc : "")) violate("C01|C03", "redirection", fmt("%s: status %d, redirected() is %d, location %s", nm.c_str(), p.status, c->client->redirected(), quote(sb(c->client->redirectionLocation())).c_str()));
		return;
	}
	if (v == Pillow::HttpClient::ResponseInvalidError)
	{
		if (!p.invalid) violate("C01|C02|C03", "wrong-verdict", fmt("%s: a valid response is reported as invalid", nm.c_str()));
		return;
	}
	// closed or network error
	if (!gone) { violate("C01|C02|C03|C04", "wrong-verdict", fmt("%s: reported %s although the server has not closed the connection", nm.c_str(), errName(v))); return; }
	if (r->mayBeStale && r->reuseConn && (!s || s == r->reuseConn)) { probe("stale-connection-race"); return; }
	if (p.framing == Plan::UntilClose && got >= p.need) { checkContent(c, r, !rst); return; }
	if (rst) return;
	if (p.invalid && p.cut < 0 && got >= p.need) violate("C02", "wrong-verdict", fmt("%s: an invalid response (%s) is reported as %s", nm.c_str(), p.invalidKind.c_str(), errName(v)));
	if (!p.invalid && p.cut < 0 && s && s->cur == r && r->serverDoneSending) violate("C01|C02|C03|C06", "complete-reported-as-error", fmt("%s: the complete response was received (%zu bytes), then the server closed; reported %s", nm.c_str(), got, errName(v)));
	if (v == Pillow::HttpClient::NetworkError && r->bodyArrived) violate("C02", "wrong-verdict", fmt("%s: the server closed the connection orderly, reported NetworkError", nm.c_str()));
	if (r->headersSeen && !r->plan.invalid) { checkHeaders(r, c->client, true); checkContent(c, r, false); }
}
static void onFinished(Client* c)
{
	Req* r = c->cur; if (!r || r->ended) { violate("C02|C03", "spurious-finished", fmt("client %d: finished() with no request outstanding (last: %s)", c->id, c->last ? c->last->name().c_str() : "none")); return; }
	r->ended = true; r->endedAt = now; r->verdict = c->client->error(); res->nontrivial |= 1;
	if (c->client->responsePending()) violate("C02|C03", "still-pending", fmt("%s: responsePending() is true in finished()", r->name().c_str()));
	judge(c, r); if (r->soft) probe("soft-request");
	c->cur = 0; c->last = r; c->lastEnd = now; c->kaAtEnd = c->keepAlive; c->idleAborted = false; bool ab = r->appAborted;
	probe(fmt("ended-%s", errName(r->verdict)).c_str());
	nest(r, 2); if (c->cur || !c->client) return;
	++c->depth; if (!(ab && r->afterAbort % 2 == 1) && c->depth < 6) next(c, r); else if (c->depth >= 6) appLater(r->think, [c]() { if (c->client && !c->cur) make(c, false); }); --c->depth;
}
static void idleAbort(Client* c) { if (c->client) { logf("client %d: abort while idle", c->id); c->idleAborted = true; c->client->abort(); } }
static void next(Client* c, Req* r)
{
	if (!c->client || c->dead) return;
	switch (r->next) {
	case 0: appLater(r->think, [c]() { if (c->client && !c->cur) make(c, false); }); break;
	case 1: make(c, false); break;
	case 2: idleAbort(c); make(c, false); break;
	case 3: make(c, false); if (c->cur) make(c, true); break;
	case 4: make(c, false); if (c->cur) doAbort(c); break;
	case 5: if (c->inCb > 1) { appLater(r->think, [c]() { if (c->client && !c->cur) make(c, false); }); break; } probe("delete-later-in-finished"); c->deleting = true; c->client->deleteLater(); { Pillow::HttpClient* k = c->client; QObject::disconnect(k, 0, 0, 0); c->client = 0; } break;
	}
}
static void doAbort(Client* c)
{
	Req* r = c->cur; if (!c->client || !r || r->ended) return;
	if (r->afterAbort >= 2) make(c, true);
	logf("client %d: abort of %d", c->id, r->id); r->appAborted = true; fault("caller-aborts"); c->client->abort();
	if (!r->ended) { violate("C02", "abort-not-reported", fmt("%s: abort() did not end the request", r->name().c_str())); }
	if (r->afterAbort % 2 == 1 && c->client && !c->cur) make(c, false); // in the same slot as the abort
}
static Place draw1(Client* c) { return c->last && chance(3, 4) ? c->last->to : c->places[draw((u32)c->places.size())]; }
static void make(Client* c, bool overlapping)
{
	if (!c->client || c->dead) return; if (!overlapping && c->budget <= 0) return; if (!overlapping) --c->budget;
	auto rp = std::make_shared<Req>(); Req* r = rp.get(); r->id = r->wireId = W->nextId++; r->c = c; W->reqs.push_back(rp);
	Pillow::HttpClient* k = c->client; bool c5 = is("C05");
	bool follow = !overlapping && c->last && c->last->verdict == 0 && !c->last->soft && k->redirected() && findHeader(c->last->plan.headers, "location") && chance(3, 4) && !c->last->ignored;
	static const char* ms_[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"}; 
	if (follow)
	{
		Req* l = c->last; r->redirect = true; r->method = l->method; r->data = l->data; r->headers = l->headers; 
		std::string loc = *findHeader(l->plan.headers, "location"); r->to = l->to; std::string rest = loc;
		if (loc.compare(0, 7, "http://") == 0) { size_t e = loc.find('/', 7); std::string au = loc.substr(7, e - 7); rest = loc.substr(e); for (Place& p : c->places) if (p.authority() == au) r->to = p; } 
		size_t q = rest.find('?'); r->path = rest.substr(0, q); if (q != std::string::npos) r->query = rest.substr(q + 1); probe("follow-redirection");
	}
	else
	{
		r->method = ms_[wpick({6, 2, 2, 1, 1, 1, 1})]; r->to = draw1(c); if (chance(1, 12) && r->to.port == 80) r->to.explicitPort = !r->to.explicitPort;
		static const char* paths[] = {"/", "/a", "/dir/file.txt", "/a%20b/%C3%A9", "/x;p=1/y", "/%3Fnot-query", "", "/~u/(1)!$'*,"}; r->path = paths[draw(c5 ? 8 : 7)]; static const char* qs[] = {"", "", "a=1&b=2", "q=%26%3D&r=%C3%A9", "x=/?y"}; r->query = qs[draw(5)]; if (chance(1, 10)) r->fragment = "frag";
		if (r->path.size() > 1 && r->path != "/~u/(1)!$'*," && chance(1, 6)) r->path += "/" + std::string(sizeDraw(3000), 'p');
		if (r->method == "POST" || r->method == "PUT" || r->method == "PATCH" || (r->method == "DELETE" && false)) { r->data = blob(r->id, chance(1, 5) ? 0 : sizeDraw(c5 ? 150000 : 20000), (int)draw(4)); if (r->data.size() > (size_t)net.sndCap * 300) r->data.resize(net.sndCap * 300); }
		r->headers.push_back({"X-Id", num(r->id)}); u32 nh = draw(5); static const char* hn[] = {"Accept", "User-Agent", "x-multi", "x-multi", "Cookie"}; for (u32 i = 0; i < nh; ++i) { u32 h = draw(5); std::string v = fmt("val %u of %d", i, r->id); if (chance(1, 12)) v += std::string(sizeDraw(9000), 'h'); if (chance(1, 10)) v = ""; r->headers.insert(r->headers.begin() + draw((u32)r->headers.size() + 1), {hn[h], v}); }
		if (!r->data.empty() && chance(1, 4)) r->headers.push_back({"Content-Type", "application/octet-stream"});
	}
	if (follow) r->wireId = c->last->wireId;
	makePlan(c, r, c->budget <= 0 && !overlapping);
	r->madeAt = now; r->ignored = overlapping; Req* l = c->last;
	// may the connection in use be used again?
	if (!overlapping)
	{
		c->cur = r; r->reuse = No;
		if (l && l->conn && l->verdict == 0 && !c->idleAborted && l->to.same(r->to))
		{
			SConn* s = l->conn; r->reuseConn = s; r->reuse = l->plan.keep; if (c->kaAtEnd == 0) r->reuse = No; if (l->soft) r->reuse = Maybe;
			if (r->reuse != No && c->keepAlive >= 0) { i64 el = (i64)(now - c->lastEnd), ka = (i64)c->keepAlive * (i64)ms; if (el > ka + 2 * (i64)ms) r->reuse = No; else if (el > ka - 2 * (i64)ms) r->reuse = Maybe; }
			bool finSeen = s->toApp().finDelivered || s->toApp().rstDelivered; u64 since = finSeen && s->finDue ? now - s->finDue : 0; (void)since;
			if (r->reuse != No && s->closedByServer()) { bool settled = finSeen && s->finDue && now - std::max(s->finDue, c->lastEnd) > Settle; if (settled) r->reuse = No; else { r->reuse = Maybe; r->mayBeStale = true; } }
			if (s->poisoned && r->reuse != No) { r->reuse = Maybe; r->soft = true; }
			else if (r->reuse != No && (s->extraSent || (l->plan.extraWhen == 1 && !l->serverDoneSending))) { bool seen = !l->serverDoneSending ? false : s->read() >= s->extraEnd || (s->delivered() >= s->extraEnd && s->deliveredAt && now - std::max(s->deliveredAt, c->lastEnd) > Settle); if (seen) r->reuse = No; else { r->reuse = Maybe; r->soft = true; s->poisoned = true; } }
		}
		else if (l && l->soft) r->reuse = Maybe, r->reuseConn = l->conn;
		if (l && l->soft && r->reuse != No) { r->soft = true; }
	}
	logf("client %d: request %d %s http://%s%s%s%s", c->id, r->id, r->method.c_str(), r->to.authority().c_str(), quote(r->path, 50).c_str(), overlapping ? " (must be ignored)" : "", follow ? " (redirection)" : "");
	bool wasParsing = c->depth > 0 || false; (void)wasParsing; bool direct = k->responsePending() == false; (void)direct;
	QUrl url = QUrl::fromEncoded(qb("http://" + r->to.authority() + r->path + (r->query.empty() ? "" : "?" + r->query) + (r->fragment.empty() ? "" : "#" + r->fragment)), QUrl::StrictMode);
	Pillow::HttpHeaderCollection hs; for (auto& h : r->headers) hs << Pillow::HttpHeader(qb(h.first), qb(h.second));
	if (follow) k->followRedirection();
	else switch (r->method == "GET" ? 0 : r->method == "HEAD" ? 1 : r->method == "POST" ? 2 : r->method == "PUT" ? 3 : r->method == "DELETE" ? 4 : 5) {
		case 0: k->get(url, hs); break; case 1: k->head(url, hs); break; case 2: k->post(url, hs, qb(r->data)); break; case 3: k->put(url, hs, qb(r->data)); break; case 4: k->deleteResource(url, hs); break; default: k->request(qb(r->method), url, hs, qb(r->data)); }
	if (overlapping) return;
	if (c->client == k && !r->ended && !c->inCb) {
		if (!k->responsePending()) violate("C02|C03", "not-pending", fmt("%s: responsePending() is false right after request()", r->name().c_str()));
		if (k->statusCode() || k->headers().size() || k->content().size() || k->error() != Pillow::HttpClient::NoError) violate("C03", "state-not-reset", fmt("%s: right after request() status %d, %d headers, %d bytes of content, error %s", r->name().c_str(), k->statusCode(), k->headers().size(), k->content().size(), errName(k->error()))); }
	if (r->ended) return;
	if (r->overlap && r->overlapWhere == 0) make(c, true); else if (r->overlap && r->overlapWhere == 3) { appLater(draw(3000) * us, [c, r]() { if (c->cur == r && !r->ended) make(c, true); }); }
	if (r->abortAt == 1) doAbort(c);
	else if (r->abortAt == 2) appLater(r->abortDelay, [c, r]() { if (c->cur == r && !r->ended) doAbort(c); });
	else if (r->abortAt == 5) appLater(r->abortDelay, [c, r]() { if (c->client && c->cur == r && !r->ended && !c->inCb && chance(1, 2)) { probe("deleted-in-flight"); logf("client %d deleted with %d in flight", c->id, r->id); r->deleted = true; Pillow::HttpClient* k2 = c->client; c->client = 0; c->cur = 0; c->last = 0; delete k2; if (c->budget > 0) { c->client = new Pillow::HttpClient; hookUp(c); appLater(draw(3000) * us, [c]() { if (c->client && !c->cur) make(c, false); }); } } });
}
static void hookUp(Client* c)
{
	Pillow::HttpClient* k = c->client; k->setKeepAliveTimeout(c->keepAlive); if (c->buffer) k->setReadBufferSize(c->buffer);
	QObject::connect(k, &Pillow::HttpClient::headersCompleted, [c, k]() { if (c->client == k) { ++c->inCb; onHeaders(c); --c->inCb; } });
	QObject::connect(k, &Pillow::HttpClient::contentReadyRead, [c, k]() { if (c->client == k) { ++c->inCb; onContent(c); --c->inCb; } });
	QObject::connect(k, &Pillow::HttpClient::finished, [c, k]() { if (c->client == k) { ++c->inCb; onFinished(c); --c->inCb; } });
}
static void watch()
{
	for (auto& cp : W->clients) for (SConn* s : cp->conns)
	{
		if (!s->finDue && (s->toApp().finDelivered || s->toApp().rstDelivered)) s->finDue = now;
		if (s->extraSent && !s->deliveredAt && s->delivered() >= s->extraEnd) s->deliveredAt = now;
		Client* c = cp.get(); Req* r = s->cur; if (c->buffer && !(s->end->closed && !s->toApp().finQueued) && !s->toApp().rstDelivered && r && c->cur == r && !r->ended && !r->soft && r->headersSeen && !r->plan.gzip && !r->plan.badGzip && r->plan.framing == Plan::Length)
		{
			size_t rd = s->read() > r->base ? s->read() - r->base : 0, taken = r->plan.headerEnd + r->consumed.size(); if (rd > taken && rd - taken > 3 * (size_t)c->buffer + 64) violate("C06", "unbounded-read", fmt("%s: %zu bytes have been read ahead of the caller with a read buffer of %lld", r->name().c_str(), rd - taken, (long long)c->buffer));
		}
	}
}
static void run(const std::string& prop)
{
	World w; W = &w; w.prop = prop; w.faults = chance(4, 5); w.nesting = chance(1, 10); net = randomNet(w.faults); if (chance(1, 3)) net.sndCap = 1 + sizeDraw(5000);
	u32 nc = 1 + wpick({4, 2, 1}); u32 total = 0;
	for (u32 i = 0; i < nc; ++i)
	{
		std::unique_ptr<Client> cp(new Client); Client* c = cp.get(); w.clients.push_back(std::move(cp)); c->id = (int)i;
		u32 base = (10u << 24) | (1u << 16) | (i << 8); std::string hp = fmt("10.1.%u.", i);
		c->places = {{base | 1, 8080, hp + "1", true}, {base | 1, 80, hp + "1", false}, {base | 2, 8080, hp + "2", true}}; if (chance(1, 6)) c->places.push_back({6, (u16)(8100 + i), "[::1]", true});
		for (Place& p : c->places) { Lst* l = new Lst; l->c = c; l->p = p; c->lst.push_back(l); listenActor(p.ip, p.port, l); }
		if (prop == "C04" ? chance(2, 3) : chance(1, 4)) c->keepAlive = chance(1, 5) ? 0 : chance(1, 2) ? 100 + (int)draw(900) : 1 + (int)draw(20);
		if (prop == "C06" || chance(1, 6)) { static const i64 b[] = {1000, 5000, 65536, 100, 10, 1, 4096}; c->buffer = b[draw(7)]; }
		c->consumePeriod = draw(c->buffer && c->buffer < 200 ? 2000 : 30000) * us;
		c->budget = 1 + (int)sizeDraw(prop == "C06" ? 4 : 9); total += c->budget;
		c->client = new Pillow::HttpClient; hookUp(c);
		appLater(draw(3000) * us, [c]() { if (c->client && !c->cur) make(c, false); });
		if (c->keepAlive >= 0 && chance(1, 4)) appLater((u64)draw(3000) * ms, [c]() { if (!c->client || c->cur) return; c->keepAlive = (int)draw(4) == 0 ? -1 : 1 + (int)draw(2000); logf("client %d: keep-alive %d", c->id, c->keepAlive); c->client->setKeepAliveTimeout(c->keepAlive); });
		if (chance(1, 10)) appLater((u64)draw(2000) * ms, [c]() { if (c->client && !c->cur) idleAbort(c); });
	}
	if (w.faults && chance(1, 5)) for (int i = 0; i < 3; ++i) sim::at((u64)draw(5000) * ms, "wall-clock-step", []() { fault("wall-clock-step"); wallSkew += (i64)draw(7200) * (i64)sec - 3600 * (i64)sec; });
	summary(fmt("client clients=%u requests=%u seg=%d cap=%u%s", nc, total, net.segMode, net.sndCap, w.faults ? " faults" : ""));
	QMetaObject::Connection wc = QObject::connect(QAbstractEventDispatcher::instance(), &QAbstractEventDispatcher::aboutToBlock, []() { watch(); });
	bool q = pumpUntilQuiescent(); QObject::disconnect(wc); if (!q) return;
	for (auto& c : w.clients) if (c->cur && !c->cur->ended && c->client) { Req* r = c->cur; SConn* s = r->conn; if (r->soft && s && s->stuck) continue; std::string how = !s ? "it never reached a server" : r->serverDoneSending ? "the complete response was sent" : r->serverEnded ? "the server ended the connection" : "the server is waiting"; violate(c->buffer ? "C02|C03|C06" : "C02|C03", "never-finished", fmt("%s: nothing can happen any more and it has not finished; %s", r->name().c_str(), how.c_str())); }
	for (auto& r : w.reqs) if (!r->ignored && !r->deleted && r->verdict == 0 && !r->soft && r->arrivals != 1 ) violate("C05", "not-sent-once", fmt("%s: reported successful, reached the server %d times", r->name().c_str(), r->arrivals));
	int alive = 0; for (auto& c : w.clients) if (c->client) ++alive;
	if (openSimConns() > alive) violate("C03|C04", "connection-leak", fmt("%d connections are open for %d idle clients", openSimConns(), alive));
	for (auto& c : w.clients) { delete c->client; c->client = 0; }
	pumpFor(ms); noObjectsLeft("C03|C02|C04", "after every client was deleted"); if (openSimConns()) violate("C03", "socket-leak", "sockets are open after every client was deleted");
}
SCENARIO(cli, run);
}
