// End to end scenario (X01): this library's clients and servers, in one process, over the simulated network.
#include "hlib.h"
#include <sys/stat.h>
#include "HttpClient.h"
#include "HttpHandler.h"
using namespace sim;
namespace e2e {
struct Caller; struct Srv;
struct Req {
	int id = 0; Caller* c = 0; Srv* to = 0; std::string method, uri, data; Headers headers; bool final = false;
	// what the handler gives
	enum M { Whole, Length, Chunked, UntilClose, Close, Never, File } mode = Whole; int status = 200; std::string body, payload; bool gzip = false; Headers rh; u64 delay = 0; std::vector<size_t> pieces; u64 pause = 0; 
	// what the caller does
	int abortAt = 0; u64 abortDelay = 0; int next = 0; u64 think = 0;
	// history
	u64 madeAt = 0, endedAt = 0; bool ended = false, aborted = false, deleted = false; int handled = 0; bool complete = false, broken = false; Conn* conn = 0; std::string got; bool headersSeen = false; QNetworkReply* reply = 0; int finished = 0;
	bool head() const { return method == "HEAD"; }
	std::string name() const;
};
struct Caller { int id = 0; Pillow::HttpClient* client = 0; Pillow::NetworkAccessManager* nam = 0; int budget = 0, keepAlive = -1; i64 buffer = 0; Req* cur = 0; int depth = 0; int inFlight = 0; };
struct Srv { int id = 0; u16 port = 0; Pillow::HttpServer* server = 0; bool listening = false; };
struct World { bool faults = false, ending = false; std::string root; std::vector<std::unique_ptr<Srv>> servers; std::vector<std::unique_ptr<Caller>> callers; std::vector<std::unique_ptr<Req>> reqs; Pillow::HttpHandlerStack* stack = 0; QBuffer log; std::map<Pillow::HttpConnection*, int> current; std::map<Pillow::HttpConnection*, Srv*> owner; std::set<Pillow::HttpConnection*> watched; std::vector<std::pair<std::string, std::string>> files; std::map<u16, std::vector<std::pair<u64, u64>>> trouble; std::vector<Conn*> hit; int nextId = 1; };
static World* W;
std::string Req::name() const { return fmt("request %d (%s %d: %s %s to server %d)", id, c->nam ? "access manager" : "client", c->id, method.c_str(), quote(uri, 60).c_str(), to->id); }
static Req* byId(int id) { return id > 0 && id <= (int)W->reqs.size() ? W->reqs[id - 1].get() : 0; }
static void trouble(Srv* s) { W->trouble[s->port].push_back({now, now}); }
static u16 portOf(Conn* c) { return c->family == AF_INET ? ntohs(((sockaddr_in*)&c->addr[1])->sin_port) : 0; }
// A request may fail if its server was not listening, or if a connection that was broken or closed by a deleted server had not ended yet for the client.
static bool excused(Req* r)
{
	const u64 margin = 500 * ms; for (auto& t : W->trouble[r->to->port]) if (t.first <= r->endedAt && t.second + margin >= r->madeAt) return true;
	for (Conn* c : W->hit) if (portOf(c) == r->to->port && (!c->d[0].endAt || c->d[0].endAt + margin >= r->madeAt)) return true;
	return false;
}
static Conn* connOf(Pillow::HttpConnection* c) { QAbstractSocket* s = qobject_cast<QAbstractSocket*>(c->inputDevice()); if (!s) return 0; u16 p = s->peerPort(); for (size_t i = conns.size(); i--;) if (conns[i]->family == AF_INET && ntohs(((sockaddr_in*)&conns[i]->addr[0])->sin_port) == p) return conns[i]; return 0; }

// ------------------------------------------------------------------ the servers' side
static bool isCurrent(Pillow::HttpConnection* c, Req* r) { auto i = W->current.find(c); return i != W->current.end() && i->second == r->id; }
static Pillow::HttpHeaderCollection replyHeaders(Req* r) { Pillow::HttpHeaderCollection h; h << Pillow::HttpHeader("X-Reply", qb(num(r->id))); for (auto& x : r->rh) h << Pillow::HttpHeader(qb(x.first), qb(x.second)); return h; }
static void step(Pillow::HttpConnection* c, Req* r, size_t k, size_t off)
{
	if (!W || !isCurrent(c, r)) return;
	if (k == r->pieces.size()) { r->complete = true; if (r->mode != Req::Length) c->endContent(); return; }
	size_t n = r->pieces[k]; if (k + 1 == r->pieces.size()) r->complete = true;
	c->writeContent(qb(r->payload.substr(off, n))); if (!isCurrent(c, r)) return;
	if (r->pause) appLater(r->pause, [=]() { step(c, r, k + 1, off + n); }); else step(c, r, k + 1, off + n);
}
static void answer(Pillow::HttpConnection* c, Req* r)
{
	if (!W || !isCurrent(c, r)) return;
	Pillow::HttpHeaderCollection h = replyHeaders(r);
	switch (r->mode) {
	case Req::Whole: r->complete = true; c->writeResponse(r->status, h, qb(r->payload)); break;
	case Req::Length: h << Pillow::HttpHeader("Content-Length", qb(num((i64)r->payload.size()))); if (r->payload.empty() || r->head()) r->complete = true; c->writeHeaders(r->status, h); step(c, r, 0, 0); break;
	case Req::Chunked: h << Pillow::HttpHeader("Transfer-Encoding", "chunked"); if (r->head()) r->complete = true; c->writeHeaders(r->status, h); step(c, r, 0, 0); break;
	case Req::UntilClose: r->broken = true; c->writeHeaders(r->status, h); step(c, r, 0, 0); break;
	case Req::Close: r->broken = true; c->close(); break;
	default: break;
	}
}
struct Handler : Pillow::HttpHandler {
	bool handleRequest(Pillow::HttpConnection* c) override
	{
		const Pillow::HttpHeader* none = 0; (void)none; Req* r = byId(c->requestHeaderValue("X-Id").toInt());
		if (!r || r->mode == Req::File) { violate("X01", "wrong-handler", fmt("%s was not handled by the file handler", r ? r->name().c_str() : "an unknown request")); return false; }
		if (r->mode == Req::Never) return true;
		if (r->delay) appLater(r->delay, [c, r]() { answer(c, r); }); else answer(c, r);
		return true;
	}
};
static void onReady(Pillow::HttpConnection* c)
{
	World& w = *W; Req* r = byId(c->requestHeaderValue("X-Id").toInt()); if (!r) { violate("X01", "phantom", fmt("a request that nobody made was announced: %s %s", c->requestMethod().constData(), c->requestUri().constData())); return; }
	if (res) res->nontrivial |= 1; ++r->handled; logf("request %d announced", r->id); if (r->handled > 1) violate("X01", "processed-twice", fmt("%s was announced %d times", r->name().c_str(), r->handled));
	r->conn = connOf(c); if (w.watched.insert(c).second) { QObject::connect(c, &Pillow::HttpConnection::requestCompleted, [](Pillow::HttpConnection* c) { if (W) W->current.erase(c); }); QObject::connect(c, &Pillow::HttpConnection::closed, [](Pillow::HttpConnection* c) { if (W) W->current.erase(c); }); QObject::connect(c, &QObject::destroyed, [c]() { if (W) { W->current.erase(c); W->watched.erase(c); } }); }
	if (w.current.count(c)) violate("X01", "overlap", fmt("%s was announced on a connection at which request %d is not over", r->name().c_str(), w.current[c]));
	w.current[c] = r->id;
	if (sb(c->requestMethod()) != r->method || sb(c->requestUri()) != r->uri) violate("X01", "request-changed", fmt("%s arrived as %s %s", r->name().c_str(), c->requestMethod().constData(), quote(sb(c->requestUri())).c_str()));
	if (sb(c->requestContent()) != r->data) violate("X01", "request-changed", fmt("%s: %d bytes of content arrived, not the %zu that were sent", r->name().c_str(), c->requestContent().size(), r->data.size()));
	if (sb(c->requestHeaderValue("Host")) != "127.0.0.1:" + num(r->to->port)) violate("X01", "request-changed", fmt("%s arrived for the host %s", r->name().c_str(), c->requestHeaderValue("Host").constData()));
	size_t at = 0; for (auto& h : r->headers) { bool ok = false; for (; at < (size_t)c->requestHeaders().size() && !ok; ++at) ok = sb(c->requestHeaders()[(int)at].first) == h.first && sb(c->requestHeaders()[(int)at].second) == h.second; if (!ok) violate("X01", "request-changed", fmt("%s: the header %s did not arrive as it was sent", r->name().c_str(), h.first.c_str())); }
	if (!w.stack->handleRequest(c)) violate("X01", "wrong-handler", fmt("%s was handled by nobody", r->name().c_str()));
}
static bool up(Srv* s) { if (!s->server) { s->server = new Pillow::HttpServer; QObject::connect(s->server, &Pillow::HttpServer::requestReady, onReady); } s->listening = s->server->listen(QHostAddress("127.0.0.1"), s->port); if (!s->listening) violate("*", "harness", fmt("server %d does not listen", s->id)); logf("server %d is up", s->id); return s->listening; }
static void down(Srv* s, bool remove) { if (!s->server) return; trouble(s); if (remove) { logf("server %d is deleted", s->id); fault("server-crash"); for (Conn* c : conns) if (portOf(c) == s->port && c->state != CS_Failed && !c->e[1].closed) W->hit.push_back(c); Pillow::HttpServer* x = s->server; s->server = 0; s->listening = false; delete x; } else { logf("server %d stops listening", s->id); fault("server-stops-listening"); s->server->close(); s->listening = false; } }
static void restart(Srv* s)
{
	if (W->ending || !s->listening) return; down(s, chance(2, 3)); u64 pause = chance(1, 3) ? 0 : chance(1, 2) ? (u64)draw(3000) * us : (u64)draw(3000) * ms; W->trouble[s->port].back().second = now + pause;
	if (!pause) up(s); else appLater(pause, [s]() { if (W && !s->listening) up(s); });
}

// ------------------------------------------------------------------ the callers' side
static void make(Caller* c, bool final = false);
static void judge(Req* r, int err, int status, const Pillow::HttpHeaderCollection* hs, bool ownAbort)
{
	logf("request %d ended: error %d, status %d, %zu bytes", r->id, err, status, r->got.size()); probe(err ? "failed" : "succeeded"); if (res) res->nontrivial |= 1;
	if (++r->finished > 1) { violate("X01", "finished-twice", fmt("%s finished twice", r->name().c_str())); return; }
	r->ended = true; r->endedAt = now;
	if (err)
	{
		if (r->aborted) { if (!ownAbort) violate("X01", "wrong-outcome", fmt("%s was aborted, and failed with error %d", r->name().c_str(), err)); return; }
		if (ownAbort) { violate("X01", "wrong-outcome", fmt("%s was not aborted, and reports that it was", r->name().c_str())); return; }
		if (!r->broken && !excused(r)) violate("X01", "failed", fmt("%s failed with error %d although nothing has failed%s", r->name().c_str(), err, !r->handled ? "; it was never announced" : r->complete ? "; it was answered" : ""));
		return;
	}
	if (r->aborted) { violate("X01", "wrong-outcome", fmt("%s was aborted, and succeeded", r->name().c_str())); return; }
	if (!r->handled) { violate("X01", "unprocessed-success", fmt("%s succeeded without having been announced by the server", r->name().c_str())); return; }
	if (r->mode == Req::Close || r->mode == Req::Never || (r->mode != Req::File && !r->complete)) { violate("X01", "truncated-success", fmt("%s succeeded although it was not answered completely", r->name().c_str())); return; }
	if (r->mode == Req::UntilClose && r->c->client) violate("X01", "truncated-success", fmt("%s succeeded although the end of its response is not known", r->name().c_str()));
	if (status != r->status) violate("X01", "wrong-response", fmt("%s: status %d, the handler gave %d", r->name().c_str(), status, r->status));
	auto value = [&](const std::string& n) -> std::string { if (hs) { for (auto& h : *hs) if (ieq(sb(h.first), n)) return sb(h.second); return "(none)"; } return sb(r->reply->rawHeader(qb(n))); };
	if (r->mode != Req::File) { if (value("X-Reply") != num(r->id)) violate("X01", "wrong-response", fmt("%s: got the response to request %s", r->name().c_str(), value("X-Reply").c_str())); for (auto& h : r->rh) if (value(h.first) != h.second) violate("X01", "wrong-response", fmt("%s: the header %s is %s instead of %s", r->name().c_str(), h.first.c_str(), quote(value(h.first)).c_str(), quote(h.second).c_str())); }
	if (r->got != (r->head() ? "" : r->body)) violate("X01", "wrong-content", fmt("%s: got %zu bytes of content that are not the %zu of the response", r->name().c_str(), r->got.size(), r->body.size()));
}
static void next(Req* r) { Caller* c = r->c; if (W->ending) return; switch (r->next) { case 0: if (c->depth < 6) { ++c->depth; make(c); --c->depth; break; } /* fallthrough */ case 1: appLater(r->think, [c]() { if (W && !W->ending) make(c); }); break; case 2: make(c); make(c); break; } }
static void finished(Req* r)
{
	Caller* c = r->c; if (r->deleted) return;
	if (c->client) { if (c->cur != r || r->ended) { violate("X01", "finished-twice", fmt("%s: finished() again", r->name().c_str())); return; } r->got += sb(c->client->consumeContent()); int e = c->client->error(); c->cur = 0; Pillow::HttpHeaderCollection h = c->client->headers(); judge(r, e, c->client->statusCode(), &h, e == Pillow::HttpClient::AbortedError); }
	else { r->got += sb(r->reply->readAll()); --c->inFlight; int e = r->reply->error(); bool http = r->status >= 400 && e != QNetworkReply::OperationCanceledError && r->reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() == r->status; (void)http; judge(r, e, r->reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt(), 0, e == QNetworkReply::OperationCanceledError); r->reply->deleteLater(); }
	next(r);
}
static void doAbort(Req* r)
{
	Caller* c = r->c; if (!W || r->ended || r->deleted) return; logf("request %d is aborted", r->id); fault("abort"); r->aborted = true; if (c->nam) r->reply->abort(); else if (c->cur == r) c->client->abort();
	if (!r->ended) violate("X01", "wrong-outcome", fmt("%s was aborted and did not finish", r->name().c_str()));
}
static void seen(Req* r, int where) { if (!r->ended && !r->aborted && r->abortAt == where && chance(1, 2)) doAbort(r); }
static void deleteCaller(Caller* c);
static void hookUp(Caller* c)
{
	Pillow::HttpClient* k = c->client = new Pillow::HttpClient; k->setKeepAliveTimeout(c->keepAlive); if (c->buffer) k->setReadBufferSize(c->buffer);
	QObject::connect(k, &Pillow::HttpClient::headersCompleted, [c, k]() { if (W && c->client == k && c->cur) { c->cur->headersSeen = true; seen(c->cur, 3); } });
	QObject::connect(k, &Pillow::HttpClient::contentReadyRead, [c, k]() { if (!W || c->client != k || !c->cur) return; Req* r = c->cur; if (c->buffer || chance(1, 4)) r->got += sb(k->consumeContent()); seen(r, 4); });
	QObject::connect(k, &Pillow::HttpClient::finished, [c, k]() { if (!W || c->client != k) return; if (!c->cur) { violate("X01", "finished-twice", fmt("client %d: finished() without a request", c->id)); return; } finished(c->cur); });
}
static void make(Caller* c, bool final)
{
	World& w = *W; if (!c->client && !c->nam) return; if (!final && (c->budget <= 0 || (c->client && c->cur))) return; --c->budget; std::unique_ptr<Req> rp(new Req); Req* r = rp.get(); w.reqs.push_back(std::move(rp)); r->id = w.nextId++; r->c = c; r->final = final; r->to = w.servers[draw((u32)w.servers.size())].get(); r->madeAt = now;
	static const char* ms_[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS"}; r->method = ms_[wpick({7, 1, 3, 2, 1, 1})];
	static const char* us_[] = {"/", "/a/b.txt", "/x%20y?q=1&r=%26", "/long"}; r->uri = us_[draw(4)]; if (r->uri == "/long") r->uri += "/" + std::string(sizeDraw(3000), 'p');
	if (r->method == "POST" || r->method == "PUT") { r->data = blob((u32)r->id, sizeDraw(chance(1, 3) ? 100000 : 3000), (int)draw(4)); size_t cap = (size_t)net.sndCap * 150; if (r->data.size() > cap) r->data.resize(cap); }
	r->headers.push_back({"X-Id", num(r->id)}); u32 nh = draw(4); for (u32 i = 0; i < nh; ++i) r->headers.push_back({fmt("X-H%u", i), chance(1, 6) ? std::string(sizeDraw(4000), 'h') : fmt("value %u of %d", i, r->id)});
	r->mode = (Req::M)wpick({5, 4, 4, 1, final ? 0u : 1u, w.faults && !final ? 1u : 0u, w.files.empty() ? 0u : 2u}); if (final && r->mode == Req::UntilClose) r->mode = Req::Whole;
	r->abortAt = w.faults && !final && chance(1, 6) ? 1 + (int)draw(4) : 0; r->abortDelay = chance(1, 2) ? draw(5000) * us : (u64)draw(2000) * ms; if (r->mode == Req::Never) r->abortAt = 2;
	static const int sts[] = {200, 201, 404, 500, 206}; r->status = c->nam ? 200 + (int)draw(2) : sts[wpick({6, 1, 1, 1, 1})];
	r->body = blob((u32)r->id + 100000, sizeDraw(chance(1, 3) ? 150000 : chance(1, 2) ? 5000 : 100), (int)draw(4)); size_t cap = (size_t)net.sndCap * 200; if (c->buffer) cap = std::min(cap, (size_t)c->buffer * 300); if (r->body.size() > cap) r->body.resize(cap);
	r->payload = r->body; if (r->mode <= Req::Chunked && !r->body.empty() && !r->head() && chance(1, 6)) { r->gzip = true; r->payload = gz(r->body, 6); r->rh.push_back({"Content-Encoding", "gzip"}); }
	u32 rhn = draw(3); for (u32 i = 0; i < rhn; ++i) r->rh.push_back({fmt("X-R%u", i), fmt("reply %u of %d", i, r->id)}); if (chance(1, 12)) r->rh.push_back({"Connection", "close"});
	size_t left = r->payload.size(), n = 1 + draw(5); for (size_t i = 0; i < n && left; ++i) { size_t k = i + 1 == n ? left : 1 + sizeDraw((u32)left); if (k > left) k = left; r->pieces.push_back(k); left -= k; }
	r->delay = chance(1, 2) ? 0 : chance(1, 2) ? draw(3000) * us : (u64)draw(1000) * ms; r->pause = chance(1, 2) ? 0 : chance(1, 2) ? draw(3000) * us : (u64)draw(300) * ms;
	if (r->mode == Req::File) { auto& f = w.files[draw((u32)w.files.size())]; r->method = chance(1, 6) ? "HEAD" : "GET"; r->data.clear(); r->uri = "/f/" + f.first; r->body = f.second; r->status = 200; r->rh.clear(); }
	if (r->mode == Req::UntilClose && r->head()) r->mode = Req::Whole;
	r->next = (int)wpick({4, 4, c->nam ? 2u : 0u}); r->think = chance(1, 2) ? draw(3000) * us : (u64)draw(2500) * ms; if (c->keepAlive > 0 && chance(1, 2)) r->think = (u64)c->keepAlive * ms + draw(4000) * us - 2 * ms + 0 * us;
	if (final) r->next = 9;
	logf("%s %d: request %d %s %s to server %d, mode %d", c->nam ? "access manager" : "client", c->id, r->id, r->method.c_str(), quote(r->uri, 50).c_str(), r->to->id, (int)r->mode);
	QUrl url = QUrl::fromEncoded(qb(fmt("http://127.0.0.1:%u", r->to->port) + r->uri), QUrl::StrictMode);
	if (c->client)
	{
		c->cur = r; Pillow::HttpHeaderCollection hs; for (auto& h : r->headers) hs << Pillow::HttpHeader(qb(h.first), qb(h.second));
		c->client->request(qb(r->method), url, hs, qb(r->data));
	}
	else
	{
		++c->inFlight; QNetworkRequest q(url); for (auto& h : r->headers) q.setRawHeader(qb(h.first), qb(h.second)); if (!r->data.empty()) q.setRawHeader("Content-Type", "application/octet-stream");
		if (r->method == "GET") r->reply = c->nam->get(q); else if (r->method == "HEAD") r->reply = c->nam->head(q); else if (r->method == "DELETE") r->reply = c->nam->deleteResource(q); else if (r->method == "POST") r->reply = c->nam->post(q, qb(r->data)); else if (r->method == "PUT") r->reply = c->nam->put(q, qb(r->data)); else r->reply = c->nam->sendCustomRequest(q, qb(r->method));
		QObject::connect(r->reply, &QNetworkReply::readyRead, [r]() { if (W && !r->ended && !r->deleted) { if (chance(1, 2)) r->got += sb(r->reply->readAll()); seen(r, 4); } });
		QObject::connect(r->reply, &QNetworkReply::metaDataChanged, [r]() { if (W && !r->ended && !r->deleted) seen(r, 3); });
		QObject::connect(r->reply, &QNetworkReply::finished, [r]() { if (W) finished(r); });
	}
	if (r->abortAt == 1) doAbort(r); else if (r->abortAt == 2) appLater(r->abortDelay, [r]() { doAbort(r); });
}
static void deleteCaller(Caller* c)
{
	if (!c->client) return; Pillow::HttpClient* k = c->client; c->client = 0; if (c->cur) { logf("client %d is deleted with request %d in flight", c->id, c->cur->id); fault("client-deleted"); c->cur->deleted = true; c->cur = 0; } delete k;
}
static void run(const std::string& prop)
{
	(void)prop; World w; W = &w; w.faults = chance(4, 5); net = randomNet(w.faults); w.root = makeScratch(); w.log.open(QIODevice::WriteOnly);
	w.stack = new Pillow::HttpHandlerStack; Pillow::HttpHandlerLog* log = 0; if (chance(1, 2)) { log = new Pillow::HttpHandlerLog(&w.log, w.stack); (void)log; }
	if (chance(1, 2)) { u32 nf = 1 + draw(3); std::string d = w.root + "/f"; mkdir(d.c_str(), 0755); for (u32 i = 0; i < nf; ++i) { std::string n = fmt("file%u.bin", i), s = blob(900 + i, sizeDraw(200000), 1 + (int)draw(3)); if (s.size() > (size_t)net.sndCap * 200) s.resize((size_t)net.sndCap * 200); writeFile(d + "/" + n, s); w.files.push_back({n, s}); } new Pillow::HttpHandlerFile(QString::fromStdString(w.root), w.stack); }
	(new Handler)->setParent(w.stack);
	u32 ns = 1 + draw(2); for (u32 i = 0; i < ns; ++i) { w.servers.emplace_back(new Srv); Srv* s = w.servers.back().get(); s->id = (int)i; s->port = (u16)(8080 + i); if (!up(s)) return; }
	u32 nc = 1 + (u32)wpick({4, 3, 2, 1}); u32 total = 0;
	for (u32 i = 0; i < nc; ++i)
	{
		w.callers.emplace_back(new Caller); Caller* c = w.callers.back().get(); c->id = (int)i; c->budget = 1 + (int)sizeDraw(14); total += (u32)c->budget;
		if (chance(1, 4)) c->nam = new Pillow::NetworkAccessManager; else { if (chance(1, 4)) c->keepAlive = chance(1, 4) ? 0 : 5 + (int)draw(800); if (chance(1, 4)) { static const i64 b[] = {4096, 65536, 512, 100}; c->buffer = b[draw(4)]; } hookUp(c); }
		u32 start = c->nam ? 1 + draw(4) : 1; appLater((u64)draw(1000) * ms, [c, start]() { for (u32 i = 0; i < start; ++i) make(c); });
		if (w.faults && c->client && chance(1, 8)) appLater((u64)draw(4000) * ms, [c]() { if (W && !W->ending) { deleteCaller(c); if (chance(2, 3)) { hookUp(c); appLater(draw(2000) * us, [c]() { if (W && !W->ending) make(c); }); } } });
	}
	u32 breaks = w.faults && chance(2, 3) ? draw(8) : 0, restarts = w.faults && chance(1, 2) ? draw(5) : 0;
	for (u32 i = 0; i < breaks; ++i) at((u64)draw(6000) * ms, "break", []() { World& w = *W; if (w.ending) return; std::vector<Conn*> live; for (Conn* c : conns) if (c->family == AF_INET && c->state == CS_Established && !c->e[0].closed) live.push_back(c); if (live.empty()) return; Conn* c = live[draw((u32)live.size())]; logf("connection c%d breaks", c->id); fault("connection-break"); w.hit.push_back(c); breakConn(c); });
	for (u32 i = 0; i < restarts; ++i) appLater((u64)draw(6000) * ms, []() { if (W) restart(W->servers[draw((u32)W->servers.size())].get()); });
	if (w.faults && chance(1, 5)) at((u64)draw(5000) * ms, "wall-clock-step", []() { fault("wall-clock-step"); wallSkew += (i64)draw(7200) * (i64)sec - 3600 * (i64)sec; });
	summary(fmt("e2e servers=%u callers=%u requests=%u files=%zu breaks=%u restarts=%u seg=%d cap=%u%s", ns, nc, total, w.files.size(), breaks, restarts, net.segMode, net.sndCap, w.faults ? " faults" : ""));
	if (!pumpUntilQuiescent()) return;
	auto waiting = [&](const char* when) { for (auto& r : w.reqs) if (!r->ended && !r->deleted) violate("X01", "never-finished", fmt("%s never finished%s; it was announced %d times%s", r->name().c_str(), when, r->handled, r->complete ? " and answered" : "")); };
	waiting("");
	// no more faults: everybody makes one more request
	w.ending = true; u64 began = now; for (auto& s : w.servers) if (!s->listening) up(s.get());
	pumpFor(5 * sec);
	for (auto& c : w.callers) { if (!c->client && !c->nam) hookUp(c.get()); make(c.get(), true); }
	if (!pumpUntilQuiescent()) return;
	waiting(" after the faults"); if (now - began > 600 * sec) violate("X01", "too-late", fmt("the requests after the last fault took %.0f s", (double)(now - began) / 1e9));
	for (auto& i : w.current) violate("X01", "not-over", fmt("request %d is not over at the server, all callers are done", i.second));
	for (auto& c : w.callers) { deleteCaller(c.get()); delete c->nam; c->nam = 0; }
	pumpUntilQuiescent(); if (openSimConns()) violate("X01", "connection-leak", fmt("%d connections are open after every client was deleted", openSimConns()));
	for (auto& s : w.servers) delete s->server;
	pumpFor(ms); if (openSimFds()) violate("X01", "socket-leak", "sockets are open after the servers were deleted");
	delete w.stack; W = 0; pumpFor(ms); ownObject(&w.log); noObjectsLeft("X01", "after everything was deleted");
}
SCENARIO(e2e, run);
}
