#include "uplib.h"
namespace up {
size_t Exchange::delivered() const { if (!conn || !started) return 0; Dir& d = conn->toApp(); size_t n = d.bytes - d.inflight.size(); return n > base ? n - base : 0; }
size_t Exchange::readByApp() const { if (!conn || !started) return 0; Dir& d = conn->toApp(); size_t n = d.bytes - d.inflight.size() - d.unread(); return n > base ? n - base : 0; }
Answer makeAnswer(u32 id, const Opts& o)
{
	Answer a; static const int st[] = {200, 404, 201, 500, 204, 304, 302, 206, 403, 503, 418, 299}; static const char* rs[] = {"OK", "Not Found", "Created", "Internal Server Error", "No Content", "Not Modified", "Found", "Partial Content", "Forbidden", "Service Unavailable", "I'm a teapot", "Odd"};
	u32 k = o.oddStatus ? wpick({14, 3, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1}) : 0; a.status = st[k]; a.reason = rs[k]; if (o.auth && a.status == 418) { a.status = 429; a.reason = "Too Many Requests"; } if (o.auth && a.status == 299) { a.status = 422; a.reason = "Unprocessable"; } if (o.auth && chance(1, 20)) { a.status = 401; a.reason = "Unauthorized"; }
	if (chance(1, 8)) a.version = "HTTP/1.0";
	size_t n; switch (wpick({4, 2, 3, 2})) { case 0: n = sizeDraw(300); break; case 1: n = 0; break; case 2: n = sizeDraw(8000); break; default: n = sizeDraw((u32)o.maxBody); break; }
	if (n > (size_t)net.sndCap * 400) n = (size_t)net.sndCap * (1 + draw(400));
	bool noBody = o.head || a.status == 204 || a.status == 304; a.body = noBody ? "" : blob(id, n, (int)draw(4)); a.payload = a.body;
	if (!noBody && chance(o.gzip, 100)) { a.gzip = true; a.payload = gz(a.body, 1 + draw(9)); }
	if (noBody) a.framing = Answer::None; else { u32 f = wpick({6, a.version == "HTTP/1.0" ? 0u : 5u, o.untilClose}); a.framing = f == 0 ? Answer::Length : f == 1 ? Answer::Chunked : Answer::UntilClose; }
	std::vector<std::pair<std::string, std::string>> h(o.extra.begin(), o.extra.end()); static const char* names[] = {"Server", "X-A", "x-lower", "ETag", "X-Long", "Cache-Control", "Content-Type", "X-Multi"}; u32 nh = draw(5);
	for (u32 i = 0; i < nh; ++i) { u32 q = draw(8); std::string v = fmt("v%u-%u", id, i); if (q == 4) v += std::string(1 + sizeDraw(3000), 'L'); if (q == 6) v = "text/x-" + v; h.insert(h.begin() + draw((u32)h.size() + 1), {names[q], v}); }
	if (chance(1, 12)) h.insert(h.begin() + draw((u32)h.size() + 1), oddHeader());
	if (!o.mark.empty()) h.push_back({"X-Up", o.mark}); if (a.status == 401) h.push_back({"WWW-Authenticate", "Basic realm=\"sim\""});
	if (a.status == 302) h.push_back({"Location", fmt("http://10.9.9.9/redirected/%u?x=1", id)});
	if (a.gzip) h.insert(h.begin() + draw((u32)h.size() + 1), {"Content-Encoding", "gzip"});
	bool ka = a.version == "HTTP/1.1" ? !chance(12, 100) : chance(1, 2), say = a.version == "HTTP/1.1" ? !ka || chance(1, 6) : ka; if (a.framing == Answer::UntilClose) { ka = false; say = a.version == "HTTP/1.1" && chance(1, 2); }
	a.keep = ka; if (say) h.insert(h.begin() + draw((u32)h.size() + 1), {"Connection", chance(1, 8) ? (ka ? "Keep-Alive, Upgrade" : "Upgrade, close") : (ka ? "keep-alive" : "close")});
	if (a.framing == Answer::Length) h.insert(h.begin() + draw((u32)h.size() + 1), {chance(1, 4) ? "content-length" : "Content-Length", num((i64)a.payload.size())});
	else if (a.framing == Answer::Chunked) h.insert(h.begin() + draw((u32)h.size() + 1), {"Transfer-Encoding", "chunked"});
	else if (o.head && chance(1, 2)) h.push_back({"Content-Length", num((i64)sizeDraw(100000))});
	else if (a.status == 304 && chance(1, 3)) h.push_back({"Content-Length", num((i64)sizeDraw(5000))});
	a.headers.assign(h.begin(), h.end()); std::string w;
	if (o.hundred && chance(1, 12)) w += "HTTP/1.1 100 Continue\r\n\r\n"; a.hundred = w.size();
	a.invalid = o.faults && chance(o.invalid, 100); if (a.invalid) { static const char* g[] = {"<html>oops</html>\r\n", "HTTP/1.1 2x0 OK\r\n", "\xff\xff\xff\xff"}; w += g[draw(3)]; }
	w += a.version + " " + num(a.status) + " " + a.reason + "\r\n"; for (auto& x : a.headers) w += x.first + ": " + x.second + "\r\n"; w += "\r\n"; a.headerEnd = w.size();
	if (a.framing == Answer::Chunked) { std::vector<size_t> sz; u32 c = 1 + draw(4); for (u32 i = 0; i < c; ++i) sz.push_back(1 + sizeDraw(chance(1, 2) ? 20 : 20000)); if (a.payload.size() / *std::max_element(sz.begin(), sz.end()) > 2000) sz.assign(1, a.payload.size() / 1000 + 1); std::string t; if (o.trailers && chance(1, 8)) t = fmt("X-Trailer: t%u\r\n", id); w += chunkEncode(a.payload, sz, chance(1, 4), chance(1, 8), t); }
	else if (a.framing != Answer::None) w += a.payload;
	a.wire = w; a.delay = chance(1, 3) ? draw(2000) * us : chance(1, 8) ? (u64)draw(4000) * ms : 0; if (chance(1, 3)) { a.piece = 1 + sizeDraw(3000); if (w.size() / a.piece > 400) a.piece = (u32)(w.size() / 400 + 1); a.pause = chance(1, 4) ? draw(20) * ms : chance(1, 8) ? draw(400) * ms : draw(300) * us; }
	a.early = o.data && chance(1, 8); a.closes = a.framing == Answer::UntilClose || (!a.keep && chance(2, 3)); a.closeDelay = chance(1, 2) ? 0 : draw(3000) * us;
	if (o.faults) {
		if (chance(o.cut, 100)) { a.cut = chance(1, 4) ? 0 : chance(1, 3) && w.size() > 3 ? (i64)w.size() - 1 - draw(3) : draw((u32)w.size()); if (chance(1, 4)) a.cut = (i64)a.headerEnd - (i64)draw(3); if (a.cut < 0) a.cut = 0; a.cutKind = 1 + draw(2); i64 lim = a.framing == Answer::None ? (i64)w.size() - 2 : (i64)w.size() - 1; if (a.cut > lim) a.cut = lim < 0 ? -1 : lim; }
		else if (chance(o.stall, 100)) { a.stall = draw((u32)w.size()); a.stallFor = chance(1, 2) ? (1 + draw(20)) * sec : 0; if (a.stall > (i64)w.size() - 2) a.stall = -1; }
		if (a.keep && chance(o.idle, 100)) { a.idleClose = 1 + (chance(1, 2) ? draw(3000) * us : (u64)draw(2000) * ms); a.idleKind = 1 + draw(2); }
	}
	return a;
}
Actor* Server::accept(Conn*) { SrvConn* c = new SrvConn; c->s = this; if (chance(1, 5)) { c->readChunk = 1 + sizeDraw(3000); c->readDelayMax = draw(3000) * us; } conns.push_back(c); return c; }
void SrvConn::onData() { if (!checkQueued) { checkQueued = true; sim::at(ms / 8, "upstream-check", [this]() { checkQueued = false; check(); }); } }
void SrvConn::gone() { if (over) return; over = true; closedAt = now; if (cur && !cur->done) { cur->peerGone = true; cur->endedAt = now; if (s->onGone) s->onGone(cur); } else if (reading) { reading->peerGone = true; reading->endedAt = now; if (s->onGone) s->onGone(reading); } }
void SrvConn::onFin() { logf("upstream c%d: requester closed", end->conn->id); gone(); if (!end->closed) fin(); }
void SrvConn::onReset() { logf("upstream c%d: requester reset", end->conn->id); gone(); }
void SrvConn::check()
{
	while (!over && !end->closed && off < in.size())
	{
		if (reading && off == seenOff && in.size() < seenNeed && in.size() < seenAt * 5 / 4) return; // not worth parsing again yet
		Parsed p = parseRequest(in, off); seenOff = off; seenAt = in.size(); seenNeed = p.headersDone && p.framing == Parsed::Length ? off + p.headerBytes + (size_t)p.length : 0;
		if (p.bad) { violate("C05|C08|C09|H07|X01", "malformed-request", fmt("a malformed request reached the server (%s): %s", p.err.c_str(), quote(in.substr(off), 200).c_str())); return; }
		if (!p.headersDone) return;
		if (!reading)
		{
			reading = std::make_shared<Exchange>(); reading->conn = this; reading->server = s; reading->arrivedAt = now; reading->req = p; ex.push_back(reading);
			logf("upstream c%d: request %s", end->conn->id, quote(p.startLine, 100).c_str()); s->onRequest(reading);
			if (cur && !cur->done) violate("C05|C08|C09|H07|X01", "pipelined", fmt("%s was sent while another response was outstanding on the connection", quote(p.startLine, 100).c_str()));
		}
		reading->req = p;
		if (!p.complete) { if (reading->a.early && !cur) next(); return; }
		reading->complete = true; std::shared_ptr<Exchange> x = reading; reading.reset(); off = p.consumed; if (s->onComplete) s->onComplete(x); next();
	}
}
void SrvConn::next()
{
	if (cur && !cur->done) return;
	for (auto& x : ex) if (!x->started && (x->complete || x->a.early)) { cur = x; x->started = true; x->base = toApp().bytes; sim::at(x->a.delay, "upstream-answer", [this, x]() { step(x); }); return; }
}
void SrvConn::step(std::shared_ptr<Exchange> x)
{
	if (over || end->closed || cur != x) return; Answer& a = x->a; size_t limit = a.wire.size(); if (a.cut >= 0) limit = std::min(limit, (size_t)a.cut); bool stalls = a.stall >= 0 && x->sent <= (size_t)a.stall; if (stalls) limit = std::min(limit, (size_t)a.stall);
	size_t n = limit - x->sent; if (a.piece) n = std::min<size_t>(n, 1 + draw(a.piece * 2));
	if (n) { send(a.wire.substr(x->sent, n)); x->sent += n; }
	if (x->sent < limit) { sim::at(a.pause ? draw((u32)(a.pause / us) + 1) * us : 10 * us, "upstream-more", [this, x]() { step(x); }); return; }
	if (stalls) { fault("upstream-stalls"); a.stall = -2; x->stalledAt = now; if (a.stallFor) sim::at(a.stallFor, "upstream-resumes", [this, x]() { step(x); }); return; }
	if (a.cut >= 0) { x->ended = true; x->endedAt = now; over = true; closedAt = now; s->closes.push_back(now); if (a.cutKind == 2) { fault("upstream-resets"); x->wasReset = true; reset(); } else { fault("upstream-closes-early"); fin(); } return; }
	x->done = true; x->endedAt = now; logf("upstream c%d: answered", end->conn->id);
	auto close = [this, x](int kind) { if (over || end->closed || ex.back() != x) return; over = true; closedAt = now; x->ended = true; s->closes.push_back(now); if (kind == 2) { x->wasReset = true; reset(); } else fin(); };
	if (a.closes) sim::at(a.closeDelay, "upstream-close", [close]() { close(1); });
	else if (a.idleClose) { int k = a.idleKind; sim::at(a.idleClose, "upstream-idle-close", [close, k]() { fault(k == 2 ? "idle-reset" : "idle-close"); close(k); }); }
	next();
}
}
