// Pillow::NetworkAccessManager: many replies in flight to scripted servers (C08).
#include "uplib.h"
#include "HttpClient.h"
namespace nam {
using namespace sim; using up::Answer; using up::Exchange;
struct Rep {
	int id = 0; size_t server = 0; std::string method, target, url, data; Headers headers; std::vector<std::string> cookies; // cookies the request must carry
	std::shared_ptr<Exchange> x; int arrivals = 0; QNetworkReply* r = 0; u64 madeAt = 0, endedAt = 0;
	int finished = 0, errors = 0, meta = 0; QNetworkReply::NetworkError signalled = QNetworkReply::NoError; bool aborted = false, deleted = false, queued = false, connectFault = false; std::string body; u64 lastAvail = 0; u64 waitedRead = 0;
	// plan
	int abortAt = 0; u64 abortDelay = 0; int readStyle = 0; int next = 0; u64 think = 0; u64 deleteDelay = 0; bool deleteInFlight = false, deleteLate = false; u64 nest[4] = {0, 0, 0, 0}; int inSlot = 0; bool errorMake = false; // event loops run by the caller in metaDataChanged, readyRead (once), error, finished
	ConnectPlan connect; bool alone = false; // alone: no other reply of that server was in flight when it was made
	std::string name() const { return fmt("reply %d (%s %s)", id, method.c_str(), quote(url, 70).c_str()); }
};
struct World {
	Pillow::NetworkAccessManager* nam = 0; std::vector<std::unique_ptr<up::Server>> servers; std::vector<std::unique_ptr<Rep>> reps; bool faults = false, namGone = false, fuzzyJar = false; int budget = 0, nextId = 1; std::vector<std::vector<std::pair<std::string, std::string>>> jar; std::vector<int> inFlight, maxInFlight; int depth = 0; bool nesting = false; int nested = 0;
};
static World* W;
static Rep* byId(int id) { for (auto& r : W->reps) if (r->id == id) return r.get(); return 0; }
static void make();
static void setCookie(size_t host, const std::string& n, const std::string& v, bool gone) { auto& j = W->jar[host]; for (size_t i = 0; i < j.size(); ++i) if (j[i].first == n) { j.erase(j.begin() + i); break; } if (!gone) j.push_back({n, v}); }
static size_t hostOf(size_t server) { return server == 2 ? 0 : server; } // servers 0 and 2 are the same host on two ports

static void arrived(std::shared_ptr<Exchange> x)
{
	const std::string* xi = findHeader(x->req.headers, "X-Id"); Rep* r = xi ? byId(atoi(xi->c_str())) : 0;
	if (!r) { violate("C08", "malformed-request", fmt("a request that nobody made reached a server: %s", quote(x->req.startLine).c_str())); return; }
	x->owner = r; ++r->arrivals; if (!r->x) r->x = x; if (r->arrivals > 1) violate("C08", "sent-twice", fmt("%s was sent twice", r->name().c_str()));
	if (x->server != W->servers[r->server].get()) violate("C08", "wrong-server", fmt("%s reached another server", r->name().c_str()));
	up::Opts o; o.faults = W->faults; o.head = r->method == "HEAD"; o.data = !r->data.empty(); o.gzip = 8; if (W->faults && chance(1, 3)) o.cut = 25;
	u32 nc = chance(1, 4) ? 1 + draw(2) : 0; for (u32 i = 0; i < nc; ++i) { std::string n = fmt("c%u", draw(3)); u32 k = draw(6); o.extra.push_back({chance(1, 3) ? "set-cookie" : "Set-Cookie", n + "=v" + num(r->id) + "-" + num(i) + (k == 1 ? "; path=/" : k == 2 ? "; HttpOnly" : k == 3 ? "; expires=Thu, 01 Jan 1970 00:00:01 GMT" : k == 4 ? "; Max-Age=100000000" : "")}); }
	x->a = up::makeAnswer((u32)r->id, o); logf("answer for %d: %s", r->id, quote(x->a.wire, 160).c_str());
	std::string host; if (r->method != x->req.method || x->req.uri != r->target) violate("C08", "request-line", fmt("%s: sent as %s", r->name().c_str(), quote(x->req.startLine).c_str()));
	std::string want = W->servers[r->server]->port == 80 ? "" : ":" + num(W->servers[r->server]->port); want = fmt("10.2.0.%u", (unsigned)(W->servers[r->server]->ip & 255)) + want;
	if (countHeader(x->req.headers, "host") != 1 || *findHeader(x->req.headers, "host") != want) violate("C08", "host-header", fmt("%s: Host is not %s", r->name().c_str(), want.c_str()));
	for (auto& h : r->headers) { const std::string* v = findHeader(x->req.headers, h.first); if (!v || *v != h.second) violate("C08", "request-headers", fmt("%s: the header %s was not sent as given", r->name().c_str(), h.first.c_str())); }
	for (auto& h : x->req.headers) if (!ieq(h.first, "host") && !ieq(h.first, "content-length") && !ieq(h.first, "cookie")) { const std::string* v = findHeader(r->headers, h.first); if (!v || *v != h.second) violate("C08", "request-headers", fmt("%s: sent with the header %s: %s that it does not have", r->name().c_str(), h.first.c_str(), quote(h.second, 60).c_str())); }
	std::vector<std::string> got; for (auto& h : x->req.headers) if (ieq(h.first, "cookie")) { size_t p = 0; for (;;) { size_t e = h.second.find("; ", p); got.push_back(h.second.substr(p, e == std::string::npos ? e : e - p)); if (e == std::string::npos) break; p = e + 2; } }
	std::vector<std::string> exp = r->cookies; std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
	if (got != exp && !W->fuzzyJar) { std::string a, b; for (auto& s : got) a += s + " "; for (auto& s : exp) b += s + " "; violate("C08", "cookies-sent", fmt("%s was sent with the cookies [%s], expected [%s]", r->name().c_str(), a.c_str(), b.c_str())); }
	if (!got.empty()) probe("cookies-sent");
	if (x->conn->ex.size() > 1) probe("connection-reused");
}
static void completeRequest(std::shared_ptr<Exchange> x) { Rep* r = (Rep*)x->owner; if (r && x->req.body != r->data) violate("C08", "request-content", fmt("%s: %zu bytes of content arrived that are not the %zu given", r->name().c_str(), x->req.body.size(), r->data.size())); }

static void take(Rep* r, i64 max)
{
	if (!r->r || r->deleted) return; qint64 av = r->r->bytesAvailable(); if (!av) return; QByteArray b = max < 0 ? r->r->readAll() : r->r->read(max);
	if (max < 0 && b.size() != av) violate("C08", "bytes-available", fmt("%s: bytesAvailable() is %lld, readAll() gave %d", r->name().c_str(), (long long)av, b.size()));
	r->body += sb(b); if (r->x && !r->x->a.invalid) { const std::string& s = r->x->a.body; if (r->body.size() > s.size() || s.compare(0, r->body.size(), r->body)) violate("C08", "wrong-content", fmt("%s: the content read (%zu bytes) is not a prefix of the %zu bytes the server sent", r->name().c_str(), r->body.size(), s.size())); }
	else if (!r->body.empty()) violate("C08", "wrong-content", fmt("%s: content although the server has sent none", r->name().c_str()));
}
static void checkMeta(Rep* r)
{
	QNetworkReply* q = r->r; if (!r->x) { violate("C08", "stale-response", fmt("%s: headers are reported before the request reached the server", r->name().c_str())); return; }
	const Answer& a = r->x->a; if (a.invalid) { violate("C08", "wrong-outcome", fmt("%s: headers are reported for an invalid response", r->name().c_str())); return; }
	if (r->x->delivered() + 1 < a.headerEnd) violate("C08", "stale-response", fmt("%s: headers are reported before they were received", r->name().c_str()));
	int st = q->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt(); if (st != a.status) violate("C08", "wrong-status", fmt("%s: status %d, the server sent %d", r->name().c_str(), st, a.status));
	for (auto& h : a.headers) { if (ieq(h.first, "set-cookie")) continue; std::string all; for (auto& g : a.headers) if (ieq(g.first, h.first)) all += (all.empty() ? "" : ", ") + g.second; std::string got = sb(q->rawHeader(qb(h.first))); if (got != all) violate("C08", "wrong-headers", fmt("%s: header %s is %s, the server sent %s", r->name().c_str(), h.first.c_str(), quote(got, 80).c_str(), quote(all, 80).c_str())); }
	for (const QByteArray& n : q->rawHeaderList()) if (!findHeader(a.headers, sb(n)) && !ieq(sb(n), "x-trailer")) violate("C08", "wrong-headers", fmt("%s: has a header %s that the server did not send", r->name().c_str(), n.constData()));
	std::string exp, got; for (auto& h : a.headers) if (ieq(h.first, "set-cookie")) exp += h.second.substr(0, h.second.find(';')) + " ";
	for (const QNetworkCookie& c : qvariant_cast<QList<QNetworkCookie>>(q->header(QNetworkRequest::SetCookieHeader))) got += sb(c.name()) + "=" + sb(c.value()) + " ";
	if (exp != got) violate("C08", "cookies-received", fmt("%s: cookies [%s], the server set [%s]", r->name().c_str(), got.c_str(), exp.c_str()));
	const std::string* loc = findHeader(a.headers, "location"); std::string rt = sb(q->attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl().toEncoded()); if (rt != (loc ? *loc : "")) violate("C08", "redirection", fmt("%s: redirection target %s, the server sent %s", r->name().c_str(), quote(rt).c_str(), loc ? loc->c_str() : "none"));
}
static void nest(Rep* r, int where) { if (u64 d = r->nest[where]) { r->nest[where] = 0; ++r->inSlot; ++W->nested; nestedLoop(d); --W->nested; --r->inSlot; } }
static void doAbort(Rep* r) { if (!r->r || r->deleted || r->finished) return; if (r->errors) { fault("reply-aborted-while-failing"); r->r->abort(); return; } logf("abort %d", r->id); fault("reply-aborted"); r->aborted = true; r->r->abort(); if (!r->finished) violate("C08", "abort-not-reported", fmt("%s: did not finish when aborted", r->name().c_str())); }
static void destroy(Rep* r, bool now_) { if (!r->r || r->deleted) return; if (r->inSlot) { appLater(ms, [r, now_]() { destroy(r, now_); }); return; } // not while one of its own signals is being handled
	 logf("delete %d%s", r->id, r->finished ? "" : " in flight"); if (!r->finished) { fault("reply-deleted-in-flight"); if (now_) --W->inFlight[r->server]; else W->fuzzyJar = true; } bool later = !r->finished && !now_; r->deleted = true; QObject::disconnect(r->r, 0, 0, 0); if (later) { size_t s = r->server; QObject::connect(r->r, &QObject::destroyed, [s]() { --W->inFlight[s]; }); } // deleteLater(): its response may still arrive, and keeps the connection, until the event loop deletes it
	 if (now_) delete r->r; else r->r->deleteLater(); r->r = 0; }
static void onFinished(Rep* r)
{
	if (++r->finished > 1) { violate("C08", "finished-twice", fmt("%s finished twice", r->name().c_str())); return; }
	r->endedAt = now; --W->inFlight[r->server]; res->nontrivial |= 1; QNetworkReply* q = r->r; int e = (int)q->error(); logf("reply %d finished error %d", r->id, e); probe(e ? "ended-error" : "ended-ok");
	if (!q->isFinished() || q->isRunning()) violate("C08", "state", fmt("%s: isFinished() %d isRunning() %d in finished()", r->name().c_str(), q->isFinished(), q->isRunning()));
	if (r->errors != (e ? 1 : 0) || r->signalled != q->error()) violate("C08", "error-reported", fmt("%s: error() is %d, the error signal was emitted %d times (%d)", r->name().c_str(), e, r->errors, (int)r->signalled));
	if (r->aborted) { if (e != QNetworkReply::OperationCanceledError) violate("C08", "wrong-outcome", fmt("%s was aborted and has error %d", r->name().c_str(), e)); }
	else if (e == QNetworkReply::OperationCanceledError) violate("C08", "wrong-outcome", fmt("%s was not aborted and reports that it was", r->name().c_str()));
	else if (!r->x) { if (!e) violate("C08", "wrong-outcome", fmt("%s succeeded without having reached the server", r->name().c_str())); else if (!r->connectFault) { bool closed = W->servers[r->server]->mayBeStale(r->madeAt); if (!closed) violate("C08", "wrong-outcome", fmt("%s: failed with error %d, and nothing failed", r->name().c_str(), e)); } }
	else
	{
		const Answer& a = r->x->a; size_t got = r->x->delivered(), need = a.wire.size() - (a.framing == Answer::None ? 1 : 0); take(r, -1); bool cutShort = a.cut >= 0 || a.invalid;
		if (!e)
		{
			if (cutShort || got < need) violate("C08", "truncated-success", fmt("%s succeeded with %zu of %zu bytes of the response received%s", r->name().c_str(), got, a.wire.size(), a.invalid ? " (invalid)" : ""));
			if (a.framing == Answer::UntilClose && !r->x->ended) violate("C08", "truncated-success", fmt("%s succeeded before the server ended the response", r->name().c_str()));
			if (!r->meta) violate("C08", "no-metadata", fmt("%s succeeded without metaDataChanged()", r->name().c_str())); else checkMeta(r);
			if (r->body != a.body) violate("C08", "wrong-content", fmt("%s: %zu bytes of content, the server sent %zu", r->name().c_str(), r->body.size(), a.body.size()));
		}
		else
		{
			bool closed = r->x->conn->closedByServer();
			if (!cutShort && a.framing != Answer::UntilClose && !closed) violate("C08", "wrong-outcome", fmt("%s: failed with error %d, but the server has not failed", r->name().c_str(), e));
			if (!cutShort && a.framing != Answer::UntilClose && r->x->done && !r->x->conn->toApp().rstDelivered && !r->connectFault && got >= a.wire.size() && r->x->conn->toApp().unread() == 0) violate("C08", "wrong-outcome", fmt("%s: the complete response was received, failed with error %d", r->name().c_str(), e));
			if (a.framing == Answer::UntilClose && !cutShort && r->x->ended && !r->x->conn->toApp().rstDelivered && r->body != a.body) violate("C08", "wrong-content", fmt("%s: %zu bytes of content, the server sent %zu", r->name().c_str(), r->body.size(), a.body.size()));
		}
	}
	nest(r, 3); if (W->namGone) return;
	if (r->next == 1 && W->depth < 8) { ++W->depth; make(); --W->depth; }
	else if (r->next == 2) appLater(r->think, []() { make(); });
	else if (r->next == 3 && W->depth < 8) { ++W->depth; make(); make(); --W->depth; }
	if (r->deleteLate) appLater(r->deleteDelay, [r]() { if (r->r) { take(r, -1); if (chance(1, 3)) r->r->abort(); } destroy(r, true); }); else destroy(r, false);
}
static void make()
{
	if (W->budget <= 0 || W->namGone) return; --W->budget; std::unique_ptr<Rep> rp(new Rep); Rep* r = rp.get(); W->reps.push_back(std::move(rp)); r->id = W->nextId++; r->server = draw((u32)W->servers.size()); up::Server* s = W->servers[r->server].get(); r->madeAt = now;
	static const char* ms_[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"}; r->method = ms_[wpick({6, 1, 2, 1, 1, 1, 1})];
	static const char* ps[] = {"/", "/a", "/dir/f.txt?x=1&y=%26", "/a%20b", ""}; r->target = ps[draw(5)]; r->url = fmt("http://10.2.0.%u%s", (unsigned)(s->ip & 255), s->port == 80 ? "" : fmt(":%u", s->port).c_str()) + r->target; if (r->target.empty()) r->target = "/"; if (chance(1, 10)) r->url += "#frag";
	if (r->method == "POST" || r->method == "PUT" || r->method == "PATCH") { r->data = blob((u32)r->id, sizeDraw(chance(1, 4) ? 60000 : 500), (int)draw(4)); if (r->data.size() > (size_t)net.sndCap * 200) r->data.resize((size_t)net.sndCap * 200); }
	r->headers.push_back({"X-Id", num(r->id)}); if (chance(1, 3)) r->headers.push_back({"X-Other", fmt("o%d", r->id)}); if (chance(1, 3)) r->headers.push_back({"User-Agent", "sim"}); if (!r->data.empty()) r->headers.push_back({"Content-Type", "application/octet-stream"}); if (chance(1, 8)) r->headers.push_back({"Connection", "close"});
	for (auto& c : W->jar[hostOf(r->server)]) r->cookies.push_back(c.first + "=" + c.second);
	r->abortAt = W->faults && chance(1, 5) ? 1 + (int)draw(4) : 0; r->abortDelay = chance(1, 2) ? draw(4000) * us : (u64)draw(3000) * ms; r->readStyle = (int)draw(4); r->next = (int)wpick({3, 4, 3, 2}); r->think = chance(1, 2) ? draw(3000) * us : (u64)draw(3000) * ms; r->deleteLate = chance(1, 6); r->deleteDelay = draw(3000) * us; r->deleteInFlight = W->faults && chance(1, 15); r->errorMake = chance(1, 6); if (W->nesting) for (u64& n : r->nest) if (chance(1, 8)) n = chance(1, 3) ? (u64)(1 + draw(400)) * ms : (u64)(1 + draw(3000)) * us;
	QNetworkRequest q(QUrl::fromEncoded(qb(r->url), QUrl::StrictMode)); for (auto& h : r->headers) q.setRawHeader(qb(h.first), qb(h.second));
	if (s->onConnect) { } r->connectFault = false;
	logf("request %d %s %s", r->id, r->method.c_str(), quote(r->url, 80).c_str()); W->inFlight[r->server]++; W->maxInFlight[r->server] = std::max(W->maxInFlight[r->server], W->inFlight[r->server]);
	QBuffer* b = 0; auto dev = [&]() { b = new QBuffer; b->setData(qb(r->data)); b->open(QIODevice::ReadOnly); return b; };
	if (r->method == "GET") r->r = W->nam->get(q); else if (r->method == "HEAD") r->r = W->nam->head(q); else if (r->method == "DELETE") r->r = W->nam->deleteResource(q);
	else if (r->method == "POST") r->r = chance(1, 3) ? W->nam->post(q, dev()) : W->nam->post(q, qb(r->data)); else if (r->method == "PUT") r->r = chance(1, 3) ? W->nam->put(q, dev()) : W->nam->put(q, qb(r->data)); else r->r = chance(1, 3) ? W->nam->sendCustomRequest(q, qb(r->method), dev()) : W->nam->sendCustomRequest(q, qb(r->method), qb(r->data));
	if (b) b->setParent(r->r);
	QNetworkReply* k = r->r; auto live = [r, k]() { return r->r == k && !r->deleted; };
	QObject::connect(k, &QNetworkReply::metaDataChanged, [r, live]() { if (!live()) return; ++r->meta; logf("metadata of %d", r->id); if (r->meta > 1) violate("C08", "metadata-twice", fmt("%s: metaDataChanged() twice", r->name().c_str())); if (r->finished) violate("C08", "after-finished", fmt("%s: notification after finished()", r->name().c_str())); checkMeta(r); if (r->x) for (auto& h : r->x->a.headers) if (ieq(h.first, "set-cookie")) { size_t e = h.second.find('='), f = h.second.find(';'); setCookie(hostOf(r->server), h.second.substr(0, e), h.second.substr(e + 1, f == std::string::npos ? f : f - e - 1), h.second.find("1970") != std::string::npos); } if (r->next == 0 && chance(1, 4)) make(); nest(r, 0); if (live() && r->abortAt == 3) doAbort(r); });
	QObject::connect(k, &QNetworkReply::readyRead, [r, live]() { if (!live()) return; if (!r->meta) violate("C08", "order", fmt("%s: content before the headers", r->name().c_str())); if (r->finished) violate("C08", "after-finished", fmt("%s: notification after finished()", r->name().c_str())); if (r->readStyle == 0) take(r, -1); else if (r->readStyle == 1) take(r, 1 + draw(500)); else if (r->readStyle == 2 && r->waitedRead < now) { r->waitedRead = now + 5 * ms; appLater(5 * ms, [r]() { take(r, -1); }); } if (r->nest[1] && chance(1, 2)) { nest(r, 1); if (!live()) return; } if (r->abortAt == 4) doAbort(r); });
	QObject::connect(k, static_cast<void (QNetworkReply::*)(QNetworkReply::NetworkError)>(&QNetworkReply::error), [r, live](QNetworkReply::NetworkError e) { if (!live()) return; ++r->errors; r->signalled = e; if (r->finished) violate("C08", "after-finished", fmt("%s: error after finished()", r->name().c_str())); if (r->errorMake && W->depth < 8) { ++W->depth; make(); --W->depth; if (live() && chance(1, 2)) doAbort(r); } nest(r, 2); });
	QObject::connect(k, &QNetworkReply::finished, [r, live]() { if (live()) onFinished(r); });
	if (r->abortAt == 1) doAbort(r); else if (r->abortAt == 2) appLater(r->abortDelay, [r]() { doAbort(r); });
	if (r->deleteInFlight) appLater(r->abortDelay, [r]() { if (r->r && !r->finished) { destroy(r, chance(1, 2)); make(); } });
}
static void run(const std::string&)
{
	World w; W = &w; w.faults = chance(4, 5); w.nesting = chance(1, 6); net = randomNet(w.faults);
	static const struct { u32 ip; u16 port; } at[] = {{(10u << 24) | (2 << 16) | 1, 8080}, {(10u << 24) | (2 << 16) | 2, 80}, {(10u << 24) | (2 << 16) | 1, 8081}}; u32 ns = 1 + wpick({2, 3, 2});
	for (u32 i = 0; i < ns; ++i)
	{
		up::Server* s = new up::Server(at[i].ip, at[i].port); w.servers.emplace_back(s); s->onRequest = arrived; s->onComplete = completeRequest;
		s->onConnect = [i]() { ConnectPlan p; if (W->faults && chance(1, 15)) { p.k = chance(1, 2) ? ConnectPlan::Refuse : ConnectPlan::Unreachable;  for (auto& r : W->reps) if (r->server == i && !r->finished && !r->x) r->connectFault = true; } return p; };
	}
	w.jar.resize(ns); w.inFlight.resize(ns); w.maxInFlight.resize(ns); w.nam = new Pillow::NetworkAccessManager; w.budget = 1 + (int)sizeDraw(25); int total = w.budget; u32 burst = 1 + draw(4);
	for (u32 i = 0; i < burst; ++i) appLater(draw(2000) * us, []() { make(); if (chance(1, 3)) make(); });
	bool killNam = chance(1, 12); std::function<void()> kill = [&kill]() { if (W->nested) { appLater(ms, kill); return; } logf("manager deleted"); fault("manager-deleted"); W->namGone = true; for (auto& r : W->reps) if (r->r) { QNetworkReply* q = r->r; QPointer<QNetworkReply> g(q); QObject::disconnect(q, 0, 0, 0); r->deleted = true; if (chance(1, 2)) { delete q; r->r = 0; } } delete W->nam; W->nam = 0; for (auto& r : W->reps) r->r = 0; }; if (killNam) appLater((u64)draw(3000) * ms + draw(3000) * us, kill);
	summary(fmt("network access manager servers=%u requests=%d burst=%u seg=%d cap=%u%s", ns, total, burst, net.segMode, net.sndCap, w.faults ? " faults" : ""));
	if (!pumpUntilQuiescent()) return;
	w.budget = 0; for (size_t i = 0; i < w.reps.size(); ++i) { Rep* r = w.reps[i].get(); if (!r->r || r->finished || r->deleted) continue; if (r->x && (r->x->a.stall == -2 && !r->x->a.stallFor)) { probe("stalled-forever"); doAbort(r); continue; } violate("C08", "never-finished", fmt("%s: nothing can happen any more and it has not finished; %s", r->name().c_str(), !r->x ? "it never reached the server" : r->x->done ? "the complete response was sent" : r->x->ended ? "the server ended the connection" : "the server waits")); }
	if (!pumpUntilQuiescent()) return;
	for (auto& r : w.reps) if (r->r && !r->deleted && r->finished) destroy(r.get(), true);
	pumpFor(sec); for (u32 i = 0; i < ns; ++i) { int open = w.servers[i]->open(); if (open > w.maxInFlight[i]) violate("C08", "not-reused", fmt("%d connections are open to server %u, at most %d requests were in flight at a time", open, i, w.maxInFlight[i])); }
	if (w.nam) { delete w.nam; w.nam = 0; }
	pumpFor(ms); noObjectsLeft("C08", "after the manager was deleted"); if (openSimConns()) violate("C08", "socket-leak", "sockets are open after the manager was deleted");
}
SCENARIO(nam, run);
}
