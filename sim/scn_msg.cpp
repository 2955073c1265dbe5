// An application that uses HttpRequestWriter and HttpResponseParser directly on its own socket (C09).
#include "uplib.h"
#include "HttpClient.h"
#include <QtNetwork/QTcpSocket>
namespace msg {
using namespace sim; using up::Answer; using up::Exchange;
struct App; struct Rq;
struct Seen { bool begun = false, heads = false, complete = false; int status = 0, major = 0, minor = 0; bool keep = false, eof = false; Headers headers; std::string body; };
struct Rq {
	int id = 0, api = 0; std::string method, path, data; Headers headers; std::shared_ptr<Exchange> x; bool sent = false, over = false, gaveUp = false; std::vector<Seen> seen; size_t fed = 0, given = 0; bool eof = false; i64 badAt = -1; // badAt: where the response becomes invalid
	int pauseIn = 0, clearIn = 0, innerIn = 0; // callbacks in which the application pauses, clears or wrongly calls the parser: 1 begin, 2 headers, 4 content, 8 complete
	std::string name() const { return fmt("request %d (%s %s)", id, method.c_str(), quote(path, 60).c_str()); }
};
struct World { std::unique_ptr<up::Server> server; std::vector<std::unique_ptr<App>> apps; bool faults = false; int nextId = 1; };
static World* W;
struct P : Pillow::HttpResponseParser {
	App* a; P(App* a) : a(a) {}
	void messageBegin() override; void headersComplete() override; void messageContent(const char* d, int n) override; void messageComplete() override;
	void in(int cb, Rq* r);
};
struct App {
	int id = 0; P* p = 0; Pillow::HttpRequestWriter w; QTcpSocket* s = 0; std::vector<std::unique_ptr<Rq>> reqs; size_t next = 0; Rq* cur = 0; bool cleared = false, paused = false, inFeed = false; std::string pending; u32 step = 0; bool byEof = false;
	void begin(); void drop(bool abort); void send(); void feed(); void onEnd(); void check(); void over();
};
static Headers hv(const Pillow::HttpHeaderCollection& c) { Headers h; for (int i = 0; i < c.size(); ++i) h.push_back({sb(c.at(i).first), sb(c.at(i).second)}); return h; }
static const Seen none;
static const Seen& last(Rq* r) { return r->seen.empty() ? none : r->seen.back(); }
// ---- what the parser reports
void P::in(int cb, Rq* r)
{
	if (r->innerIn & cb) { probe("called-from-callback"); char junk[] = "HTTP/1.1 200 OK\r\n\r\n"; if (!isParsing()) violate("C09", "state", "isParsing() is false within a callback"); if (inject(junk, sizeof junk - 1)) violate("C09", "reentered", fmt("%s: inject() within a callback consumed something", r->name().c_str())); injectEof(); }
	if (r->clearIn & cb) { probe("cleared-in-callback"); a->cleared = true; clear(); if (headers().size() || content().size()) violate("C09", "not-cleared", "headers or content are left after clear()"); }
	else if (r->pauseIn & cb) { probe("paused"); a->paused = true; pause(); }
}
void P::messageBegin()
{
	Pillow::HttpResponseParser::messageBegin(); Rq* r = a->cur; if (!r || a->cleared) return; if (headers().size() || content().size()) violate("C09", "not-cleared", fmt("%s: headers or content of an earlier message are left", r->name().c_str()));
	if (!r->seen.empty() && !r->seen.back().complete) violate("C09", "order", fmt("%s: a message begins within another", r->name().c_str())); r->seen.push_back(Seen()); r->seen.back().begun = true; in(1, r);
}
void P::headersComplete()
{
	Pillow::HttpResponseParser::headersComplete(); Rq* r = a->cur; if (!r || a->cleared) return; if (r->seen.empty() || r->seen.back().heads || r->seen.back().complete) { violate("C09", "order", fmt("%s: headersComplete is out of order", r->name().c_str())); return; }
	Seen& m = r->seen.back(); m.heads = true; m.status = statusCode(); m.major = httpMajor(); m.minor = httpMinor(); m.headers = hv(headers()); m.eof = completesOnEof(); in(2, r);
}
void P::messageContent(const char* d, int n)
{
	Pillow::HttpResponseParser::messageContent(d, n); Rq* r = a->cur; if (!r || a->cleared) return; if (r->seen.empty() || !r->seen.back().heads || r->seen.back().complete) { violate("C09", "order", fmt("%s: content is out of order", r->name().c_str())); return; }
	Seen& m = r->seen.back(); if (n <= 0) violate("C09", "order", "empty content is reported"); m.body.append(d, n); if (sb(content()) != m.body) violate("C09", "content", fmt("%s: content() has %d bytes, %zu were reported", r->name().c_str(), content().size(), m.body.size())); in(4, r);
}
void P::messageComplete()
{
	Pillow::HttpResponseParser::messageComplete(); Rq* r = a->cur; if (!r || a->cleared) return; if (r->seen.empty() || !r->seen.back().heads || r->seen.back().complete) { violate("C09", "order", fmt("%s: messageComplete is out of order", r->name().c_str())); return; }
	Seen& m = r->seen.back(); m.complete = true; m.keep = shouldKeepAlive(); if (sb(content()) != m.body) violate("C09", "content", fmt("%s: content() has %d bytes, %zu were reported", r->name().c_str(), content().size(), m.body.size()));
	Headers h = hv(headers()); if (h.size() < m.headers.size() || !std::equal(m.headers.begin(), m.headers.end(), h.begin())) violate("C09", "headers", fmt("%s: the headers have changed since they were complete", r->name().c_str())); if (statusCode() != m.status) violate("C09", "status", fmt("%s: the status has changed since the headers were complete", r->name().c_str())); in(8, r);
}
// ---- the truth: the answer and how many of its bytes the parser was given
void App::check()
{
	Rq* r = cur; if (!r || cleared) return; if (!r->x) { if (r->fed || !r->seen.empty()) violate("C09", "stale", fmt("%s: a response is reported before the request arrived", r->name().c_str())); return; }
	const Answer& a = r->x->a; std::string nm = r->name(); size_t n = r->fed, i = 0;
	if (p->isParsing()) violate("C09", "state", "isParsing() is true outside inject()");
	if (a.hundred && !r->seen.empty()) { const Seen& m = r->seen[0]; i = 1; if (m.heads && (m.status != 100 || m.headers.size() || m.major != 1 || m.minor != 1 || m.eof)) violate("C09", "interim", fmt("%s: the interim response is reported as %d", nm.c_str(), m.status)); if (!m.body.empty()) violate("C09", "interim", fmt("%s: the interim response has content", nm.c_str())); if (m.complete != (n >= a.hundred)) violate("C09", "interim", fmt("%s: after %zu of %zu bytes of the interim response it is %scomplete", nm.c_str(), n, a.hundred, m.complete ? "" : "not ")); }
	if (r->seen.size() > i + 1) violate("C09", "extra-message", fmt("%s: %zu responses are reported", nm.c_str(), r->seen.size()));
	if (a.invalid) { if (r->seen.size() > i && (r->seen[i].complete || (r->seen[i].heads && r->badAt < (i64)a.headerEnd))) violate("C09", "invalid-accepted", fmt("%s: an invalid response is reported", nm.c_str())); if (((i64)r->given > r->badAt || r->eof) && n && !paused && !p->hasError() && !(a.hundred && n <= a.hundred)) violate("C09", "invalid-accepted", fmt("%s: no error after %zu bytes of a response that is invalid after %lld", nm.c_str(), r->given, (long long)r->badAt));
		if (r->seen.size() > i && r->seen[i].heads && (r->seen[i].headers != a.headers || r->seen[i].status != a.status || a.payload.compare(0, r->seen[i].body.size(), r->seen[i].body))) violate("C09", "content", fmt("%s: what was reported of an invalid response is not what it said before", nm.c_str())); if ((i64)r->given <= r->badAt - 30 && p->hasError() && !r->eof) violate("C09", "false-error", fmt("%s: %s before the response became invalid", nm.c_str(), sb(p->errorString()).c_str())); return; }
	const Seen& m = r->seen.size() > i ? r->seen[i] : none; bool slack = paused; // the byte at which it was paused is not consumed yet
	bool heads = n >= a.headerEnd; if (m.heads != heads && !(slack && m.heads && n + 1 >= a.headerEnd)) violate("C09", "headers", fmt("%s: after %zu bytes of a response with %zu bytes of headers they are %scomplete", nm.c_str(), n, a.headerEnd, m.heads ? "" : "not "));
	if (m.heads)
	{
		if (m.status != a.status || m.major != 1 || m.minor != a.version.back() - '0') violate("C09", "status", fmt("%s: reported as HTTP/%d.%d %d, the response is %s %d", nm.c_str(), m.major, m.minor, m.status, a.version.c_str(), a.status));
		if (m.headers != a.headers) { std::string g, e; for (auto& h : m.headers) g += "[" + h.first + ": " + h.second.substr(0, 40) + "]"; for (auto& h : a.headers) e += "[" + h.first + ": " + h.second.substr(0, 40) + "]"; violate("C09", "headers", fmt("%s: the headers are reported as %s, the response has %s", nm.c_str(), quote(g, 300).c_str(), quote(e, 300).c_str())); }
		if (m.eof != (a.framing == Answer::UntilClose)) violate("C09", "framing", fmt("%s: completesOnEof() is %d", nm.c_str(), m.eof));
	}
	const std::string& b = a.payload; bool all = m.body == b; if (m.body.size() > b.size() || b.compare(0, m.body.size(), m.body)) violate("C09", "content", fmt("%s: the %zu bytes of content reported are not a prefix of the %zu sent", nm.c_str(), m.body.size(), b.size()));
	if (heads && a.framing != Answer::Chunked && m.body.size() != n - a.headerEnd && !slack) violate("C09", "content", fmt("%s: %zu bytes of content are reported, %zu were given", nm.c_str(), m.body.size(), n - a.headerEnd));
	bool done = a.framing == Answer::UntilClose ? heads && r->eof : n >= a.wire.size(); if (m.complete != done && !(slack && m.complete)) violate("C09", done ? "not-complete" : "complete-too-early", fmt("%s: after %zu of %zu bytes%s it is %scomplete", nm.c_str(), n, a.wire.size(), r->eof ? " and the end" : "", m.complete ? "" : "not "));
	if (m.complete && !all && !r->eof) violate("C09", "content", fmt("%s: complete with %zu of %zu bytes of content", nm.c_str(), m.body.size(), b.size()));
	if (m.complete && m.keep != a.keep) violate("C09", "keep-alive", fmt("%s: shouldKeepAlive() is %d, the response says %d", nm.c_str(), m.keep, a.keep));
	bool bad = r->eof && !m.complete && n > 0 && !(a.hundred && n == a.hundred); if (p->hasError() != bad && !(r->eof && n == 0)) violate("C09", bad ? "truncation-accepted" : "false-error", fmt("%s: after %zu of %zu bytes%s the parser has %s", nm.c_str(), n, a.wire.size(), r->eof ? " and the end" : "", p->hasError() ? sb(p->errorString()).c_str() : "no error"));
}
// ---- the application
void App::begin()
{
	drop(true); if (next >= reqs.size()) return; cur = reqs[next++].get(); byEof = false; if (!p || chance(1, 4)) { delete p; p = new P(this); } else { p->clear(); if (p->headers().size() || p->content().size() || p->hasError()) violate("C09", "not-cleared", "headers, content or an error are left after clear()"); } cleared = paused = false;
	s = new QTcpSocket; w.setDevice(s); if (chance(1, 4)) s->setReadBufferSize(1 + sizeDraw(2000));
	QObject::connect(s, &QTcpSocket::connected, [this]() { send(); }); QObject::connect(s, &QTcpSocket::readyRead, [this]() { feed(); }); QObject::connect(s, &QTcpSocket::disconnected, [this]() { onEnd(); });
	QObject::connect(s, static_cast<void (QAbstractSocket::*)(QAbstractSocket::SocketError)>(&QAbstractSocket::error), [this](QAbstractSocket::SocketError e) { if (s && e != QAbstractSocket::RemoteHostClosedError && s->state() != QAbstractSocket::ConnectedState && s->state() != QAbstractSocket::ClosingState) { probe("no-connection"); onEnd(); } });
	s->connectToHost(QHostAddress(W->server->ip), W->server->port);
}
void App::drop(bool) { pending.clear(); if (!s) return; QTcpSocket* o = s; s = 0; QObject::disconnect(o, 0, 0, 0); o->abort(); o->deleteLater(); }
void App::send()
{
	Rq* r = cur; if (!r || r->sent) return; r->sent = true; logf("app %d sends request %d", id, r->id); Pillow::HttpHeaderCollection h; for (auto& x : r->headers) h << Pillow::HttpHeader(qb(x.first), qb(x.second)); QByteArray path = qb(r->path), data = qb(r->data);
	switch (r->api) { case 0: w.get(path, h); break; case 1: w.head(path, h); break; case 2: w.post(path, h, data); break; case 3: w.put(path, h, data); break; case 4: w.deleteResource(path, h); break; default: w.write(qb(r->method), path, h, data); }
}
void App::over()
{
	Rq* r = cur; if (!r) return; r->over = true; cur = 0; logf("app %d: request %d is over", id, r->id); if (!r->seen.empty()) res->nontrivial |= 1;
	bool keep = !cleared && !p->hasError() && !r->eof && last(r).complete && last(r).keep && s && s->state() == QAbstractSocket::ConnectedState && pending.empty();
	if (keep && next < reqs.size() && chance(5, 6)) { probe("next-on-connection"); cur = reqs[next++].get(); Rq* k = cur; if (chance(1, 2)) { if (s->bytesAvailable()) violate("C09", "stray-bytes", "bytes are left behind a response"); send(); } else appLater(draw(3000) * us, [this, k]() { if (cur == k && s) send(); }); return; }
	appLater(draw(3000) * us, [this]() { if (!cur) begin(); });
}
void App::feed()
{
	if (inFeed) return; inFeed = true; QTcpSocket* me = s;
	while (me == s && s && cur && !cleared)
	{
		if (pending.empty()) { qint64 av = s->bytesAvailable(); if (!av) break; QByteArray d = step && chance(1, 2) ? s->read(1 + draw(step)) : s->readAll(); if (d.isEmpty()) break; pending = sb(d); }
		Rq* r = cur; size_t n = step ? std::min<size_t>(pending.size(), 1 + draw(step)) : pending.size(); char* copy = new char[n]; memcpy(copy, pending.data(), n); bool before = p->hasError(); size_t cnt = r->seen.size(); bool was = last(r).complete; paused = false;
		int c = n && chance(1, 2) ? p->inject(QByteArray::fromRawData(copy, (int)n)) : p->inject(copy, (int)n); memset(copy, 0xA5, n); delete[] copy; if (cleared) break;
		if (c < 0 || (size_t)c > n) { violate("C09", "consumed", fmt("inject() of %zu bytes returned %d", n, c)); break; } r->given = r->fed + n; r->fed += (size_t)c; pending.erase(0, (size_t)c);
		bool completed = last(r).complete && (!was || r->seen.size() > cnt); if ((size_t)c < n && !completed && !paused && !p->hasError()) violate("C09", "consumed", fmt("%s: inject() of %zu bytes consumed %d although nothing ended there", r->name().c_str(), n, c));
		check(); if (p->hasError()) { if (!before) probe("parse-error"); char x = 'x'; if (p->inject(&x, 1)) { if (p->hasError() == false) violate("C09", "error-forgotten", "an error is forgotten without clear()"); } break; }
		if (completed && last(r).status != 100) { if (r->x && r->fed >= r->x->a.wire.size() && !pending.empty()) violate("C09", "stray-bytes", fmt("%s: %zu bytes are left behind the response", r->name().c_str(), pending.size())); inFeed = false; over(); return; }
	}
	inFeed = false; if (me == s && s && cur && (cleared || p->hasError())) { probe(cleared ? "gave-up" : "dropped"); cur->gaveUp = true; over(); begin(); }
}
void App::onEnd()
{
	if (!s) return; feed(); if (!s) return; if (!cur) { begin(); return; }
	Rq* r = cur; if (!cleared && !p->hasError()) { paused = false; r->eof = true; p->injectEof(); check(); if (!cleared) { if (last(r).complete) probe("completed-by-end"); else probe("truncated"); } } over(); if (!cur) begin();
}
static Rq* byId(int id) { for (auto& a : W->apps) for (auto& r : a->reqs) if (r->id == id) return r.get(); return 0; }
// ---- the server
static void arrived(std::shared_ptr<Exchange> x)
{
	const std::string* xi = findHeader(x->req.headers, "X-Id"); Rq* r = xi ? byId(atoi(xi->c_str())) : 0; if (!r || r->x) { violate("C09", "request", fmt("a request arrived that nobody made, or twice: %s", quote(x->req.startLine).c_str())); return; }
	r->x = x; x->owner = r; std::string want = r->method + " " + r->path + " HTTP/1.1"; if (x->req.startLine != want) violate("C09", "request", fmt("%s was sent as %s", r->name().c_str(), quote(x->req.startLine, 120).c_str()));
	Headers h = r->headers; if (!r->data.empty()) h.push_back({"Content-Length", num((i64)r->data.size())}); if (x->req.headers != h) violate("C09", "request", fmt("%s: %zu headers were given, %zu others arrived", r->name().c_str(), h.size(), x->req.headers.size()));
	up::Opts o; o.faults = W->faults; o.data = !r->data.empty(); o.gzip = 5; o.untilClose = 3; o.trailers = chance(1, 3); if (W->faults && chance(1, 2)) { o.cut = 25; o.invalid = 10; } Answer a = up::makeAnswer((u32)r->id, o);
	if (a.invalid) r->badAt = (i64)a.hundred + 19;
	else if (W->faults && chance(1, 12))
	{
		size_t q = a.framing == Answer::Length ? a.wire.find("ontent-", a.hundred) : std::string::npos; if (q != std::string::npos && ieq(a.wire.substr(q - 1, 15), "content-length:")) { static const char* v[] = {"1z", "z", "184467440737095516150", "99999999999999999999999", "30000000000000000000", "-1", "5 5"}; size_t e = a.wire.find("\r\n", q); a.wire.replace(q + 15, e - q - 15, v[draw(7)]); a.headerEnd = a.wire.find("\r\n\r\n", q) + 4; r->badAt = (i64)a.wire.find("\r\n", q) + 1; }
		else if (a.framing == Answer::Chunked) { static const char* v[] = {"g", "-5", "x1", "fffffffffffffffff0", "1888888888888888", ";", "\x80"}; a.wire.insert(a.headerEnd, v[draw(7)]); r->badAt = (i64)a.headerEnd + 20; if (a.wire.size() < a.headerEnd + 30) a.wire.append(30, '5'); }
		if (r->badAt >= 0) { probe("invalid-framing"); a.invalid = true; a.cut = a.stall = -1; }
	}
	if (!a.invalid && chance(1, 3)) // the same response, written in other ways
	{
		probe("unusual-form"); bool lf = chance(1, 3); std::string e = lf ? "\n" : "\r\n", w = a.wire.substr(0, a.hundred) + a.version + " " + num(a.status) + (chance(1, 3) ? "" : chance(1, 4) ? " " : " " + a.reason) + (lf && chance(1, 2) ? "\r\n" : e); u32 sp = draw(4);
		for (auto& x2 : a.headers) w += x2.first + (sp == 0 ? ":" : sp == 1 ? ": " : sp == 2 ? ":    " : ":\t") + x2.second + e; w += lf ? "\n" : "\r\n"; i64 d = (i64)w.size() - (i64)a.headerEnd; w += a.wire.substr(a.headerEnd); a.headerEnd = w.size() - (a.wire.size() - a.headerEnd); a.wire = w; (void)d; if (a.cut >= (i64)w.size() - 1) a.cut = (i64)w.size() - 2; if (a.stall > (i64)w.size() - 2) a.stall = -1;
	}
	x->a = a; logf("answer for %d: %s", r->id, quote(a.wire, 200).c_str());
	if (a.stall >= 0 && !a.stallFor) x->a.stallFor = (1 + draw(100)) * sec;
	if (a.cut >= 0 || a.invalid) fault(a.invalid ? "invalid-response" : "cut");
}
static void completeRequest(std::shared_ptr<Exchange> x) { Rq* r = (Rq*)x->owner; if (r && x->req.body != r->data) violate("C09", "request", fmt("%s: %zu bytes of content arrived that are not the %zu given", r->name().c_str(), x->req.body.size(), r->data.size())); }
static void run(const std::string& prop)
{
	World w; W = &w; w.faults = chance(3, 5); net = randomNet(w.faults); if (chance(1, 4)) net.sndCap = 1 + sizeDraw(5000);
	w.server.reset(new up::Server((10u << 24) | (2 << 16) | 1, 8081)); w.server->onRequest = arrived; w.server->onComplete = completeRequest;
	w.server->onConnect = []() { ConnectPlan p; if (W->faults && chance(1, 20)) { p.k = chance(1, 2) ? ConnectPlan::Refuse : ConnectPlan::Unreachable; fault("connect-fails"); } return p; };
	u32 na = 1 + draw(3); size_t total = 0; static const char* ms_[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "X-Own"};
	for (u32 i = 0; i < na; ++i)
	{
		App* a = new App; w.apps.emplace_back(a); a->id = (int)i; if (chance(2, 3)) a->step = 1 + sizeDraw(3000); u32 n = 1 + draw(8);
		for (u32 k = 0; k < n; ++k)
		{
			Rq* r = new Rq; a->reqs.emplace_back(r); r->id = w.nextId++; r->api = chance(1, 3) ? 5 : draw(5); r->method = r->api < 5 ? ms_[r->api] : ms_[draw(8)]; r->path = chance(1, 6) ? "/" + std::string(1 + sizeDraw(20000), 'p') : fmt("/r%d?x=%%20", r->id);
			if (r->api == 2 || r->api == 3 || r->api == 5) { u32 q = draw(5); size_t b = q == 0 ? 0 : q == 1 ? 4090 + draw(12) : sizeDraw(q == 2 ? 60000 : 500); if (b > (size_t)net.sndCap * 200) b = (size_t)net.sndCap * 200; r->data = blob((u32)r->id, b, (int)draw(4)); }
			u32 nh = draw(6); for (u32 j = 0; j < nh; ++j) { static const char* hn[] = {"Host", "X-A", "accept", "X-Multi", "X-Long", "Cookie"}; u32 q = draw(6); r->headers.push_back({hn[q], fmt("v%u-%d", j, r->id) + (q == 4 ? std::string(sizeDraw(9000), 'h') : "")}); } r->headers.insert(r->headers.begin() + draw((u32)r->headers.size() + 1), {"X-Id", num(r->id)});
			if (chance(1, 4)) r->pauseIn = (int)draw(16); if (chance(1, 12)) r->clearIn = 1 << draw(4); if (chance(1, 10)) r->innerIn = (int)draw(16);
		}
		total += n; at((u64)draw(20) * ms, "app-start", [a]() { appLater(0, [a]() { a->begin(); }); });
	}
	summary(fmt("msg apps=%u requests=%zu seg=%d cap=%u%s", na, total, net.segMode, net.sndCap, w.faults ? " faults" : "")); (void)prop;
	if (!pumpUntilQuiescent()) return;
	for (auto& a : w.apps) for (auto& r : a->reqs) if (!r->over) { violate("C09", "not-finished", fmt("%s: nothing can happen any more and it is not over (%zu bytes of the response were given)", r->name().c_str(), r->fed)); break; }
	for (auto& a : w.apps) { a->drop(true); delete a->p; a->p = 0; } pumpFor(sec); noObjectsLeft("C09", "after the applications ended"); if (openSimConns()) violate("C09", "socket-leak", "sockets are open after the applications ended");
}
SCENARIO(msg, run);
}
