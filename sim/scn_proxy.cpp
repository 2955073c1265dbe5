// Proxy scenario (H07-H09): clients -> HttpServer + HttpHandlerProxy -> scripted upstream servers.
#include "hlib.h"
#include "uplib.h"
#include "HttpHandlerProxy.h"
using namespace sim; using namespace hc; using up::Answer; using up::Exchange;
namespace {
struct Truth { u64 handledAt = 0, goneAt = 0; bool handled = false, hold = false, local = false; std::string body; up::Server* to = 0; std::vector<std::shared_ptr<Exchange>> x; };
struct World { std::string prop; QObject* server = 0; Pillow::HttpHandlerProxy* proxy = 0; std::vector<std::unique_ptr<up::Server>> ups; size_t target = 0; std::vector<std::unique_ptr<HClient>> clients; std::map<int, Truth> truth; bool faults = false, upFaults = false, ending = false; u64 lastDone = 0; std::vector<std::pair<up::Server*, u64>> connectFaults; };
static World* W;
static const char* hop[] = {"connection", "keep-alive", "transfer-encoding", "content-length", "te", "trailer", "upgrade", "proxy-connection", "expect", "date"};
static bool isHop(const std::string& n) { for (const char* h : hop) if (ieq(n, h)) return true; return false; }
static std::string urlOf(up::Server* s) { return fmt("http://10.2.0.%u:%u", (unsigned)(s->ip & 255), s->port); }
// equivalent targets: percent-encoded unreserved characters may be decoded, an empty query may be dropped
static std::string norm(const std::string& u)
{
	std::string o; for (size_t i = 0; i < u.size(); ++i) { if (u[i] == '%' && i + 2 < u.size() && isxdigit((u8)u[i + 1]) && isxdigit((u8)u[i + 2])) { int c = (int)strtol(u.substr(i + 1, 2).c_str(), 0, 16); if (isalnum(c) || strchr("-._~", c)) o += (char)c; else o += fmt("%%%02X", c); i += 2; } else if (u[i] == '%') o += "%25"; else if ((u8)u[i] >= 127 || strchr("\"<>\\^`{|}", u[i])) o += fmt("%%%02X", (u8)u[i]); else o += u[i]; }
	size_t f = o.find('#'); if (f != std::string::npos) o.resize(f); if (!o.empty() && o.back() == '?') o.pop_back(); return o;
}
static std::string joined(const Headers& h, const std::string& n, const char* sep) { std::string s; bool any = false; for (auto& x : h) if (ieq(x.first, n)) { if (any) s += sep; s += x.second; any = true; } return s; }
static std::string list(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "[" + x + "]"; return s; }

// An upstream that pauses in the middle: what it has sent reaches a client that reads.
static bool mixed(const HReq& r);
static void progress(HReq* r, Exchange* x)
{
	Session* s = r->session; const Answer& a = x->a; if (W->truth[r->id].x.size() != 1 || mixed(*r) || a.gzip || a.invalid || r->head() || r->client->delay || r->client->pausePeriod || s->waiting.empty() || s->waiting.front() != r || x->sent > x->readByApp() || s->ended || a.status == 401 || a.status == 407 /* held back by Qt until it is clear that nobody authenticates */) return; int id = s->wire->connId(); if (!id) return; for (Conn* k : conns) if (k->id == id) for (Dir& d : k->d) if (!d.inflight.empty() || d.unread()) return; // still on its way
	Parsed up = parseResponse(a.wire.substr(0, x->sent), a.hundred, false, false), got = parseResponse(s->in, s->off, false, false); if (up.headersDone && !up.bad && up.status == 100) return;
	if (!up.headersDone || up.bad || up.body.empty()) return; probe("relayed-while-stalled");
	if (!got.headersDone || got.body.size() < up.body.size()) violate("H07|H08", "not-relayed", fmt("%s: the upstream has paused after %zu bytes of content %.1f s ago, the client has received %zu", describe(*r).c_str(), up.body.size(), (now - x->stalledAt) / 1e9, got.body.size()));
}
// ---- upstream side
static void arrived(std::shared_ptr<Exchange> x)
{
	World& w = *W; const std::string* xi = findHeader(x->req.headers, "X-Id"); HReq* r = xi ? reqById(atoi(xi->c_str())) : 0;
	if (!r || !w.truth.count(r->id)) { violate("H07|H09", "unknown-request", fmt("the upstream received a request that no client made: %s", quote(x->req.startLine).c_str())); return; }
	x->owner = r; Truth& t = w.truth[r->id];
	if (!t.x.empty()) { // only a connection that went away without an answer justifies sending it again
		probe("sent-again"); bool ok = false; for (auto& o : t.x) if (o->ended || o->a.invalid || o->conn->closedByServer()) ok = true; if (!ok) violate("H07", "sent-twice", fmt("%s was sent to the upstream again while it was being answered", describe(*r).c_str())); }
	t.x.push_back(x); if (x->server != t.to) violate("H07", "wrong-upstream", fmt("%s reached another upstream", describe(*r).c_str()));
	up::Opts o; o.faults = w.upFaults; o.head = r->head(); o.data = !r->body.empty(); o.gzip = 10; o.auth = true; o.trailers = chance(1, 4); if (w.prop == "H08" && w.upFaults) { o.cut = 30; o.stall = 6; o.invalid = 6; o.idle = 12; } u32 nc = chance(1, 4) ? 1 + draw(3) : 0; for (u32 i = 0; i < nc; ++i) o.extra.push_back({"Set-Cookie", fmt("c%u=v%d-%u", draw(3), r->id, i) + (chance(1, 3) ? "; expires=Thu, 01 Jan 2090 00:00:01 GMT" : chance(1, 3) ? "; path=/; HttpOnly" : "")});
	if (w.prop != "H07" && w.prop != "H08") { o.cut = 5; o.invalid = 1; }
	o.mark = fmt("%d-%zu", r->id, t.x.size());
	x->a = up::makeAnswer((u32)r->id, o); logf("answer for %d: %s", r->id, quote(x->a.wire, 160).c_str());
	if (t.hold) { x->a.cut = -1; x->a.invalid = false; x->a.stall = 0; x->a.stallFor = 0; }
	else if (x->a.stall >= 0 && !x->a.stallFor) { if (!r->abortKind) r->abortKind = 1 + draw(2); Session* s = r->session; sim::at((20 + draw(60)) * sec, "client-gives-up", [r, s, x]() { if (!r->over && r->session == s) { bool all = x->stalledAt && x->readByApp() >= x->sent; sim::at(2 * sec, "client-gives-up", [r, s, x, all]() { if (r->over || r->session != s) return; if (all) progress(r, x.get()); s->abort(r); }); } }); }
	// what reached the upstream is what the client sent
	if (x->req.method != r->method) violate("H07", "request-method", fmt("%s was relayed as %s", describe(*r).c_str(), quote(x->req.startLine, 100).c_str()));
	if (norm(x->req.uri) != norm(r->uri)) violate("H07", "request-target", fmt("%s was relayed as %s", describe(*r).c_str(), quote(x->req.startLine, 200).c_str()));
	Headers sent = r->headers; sent.push_back({"X-Id", num(r->id)});
	for (auto& h : sent) { if (isHop(h.first)) continue; std::string a = joined(sent, h.first, ieq(h.first, "cookie") ? "; " : ", "), b = joined(x->req.headers, h.first, ieq(h.first, "cookie") ? "; " : ", "); if (a != b) violate("H07", "request-headers", fmt("%s: the header %s: %s reached the upstream as %s", describe(*r).c_str(), h.first.c_str(), quote(a, 100).c_str(), quote(b, 100).c_str())); }
	static const char* added[] = {"host", "user-agent", "accept-language", "accept-encoding", "x-forwarded-for", "via"};
	for (auto& h : x->req.headers) { if (isHop(h.first) || findHeader(sent, h.first)) continue; bool ok = false; for (const char* a : added) ok |= ieq(h.first, a); if (!ok) violate("H07", "request-headers", fmt("%s reached the upstream with %s: %s, which the client did not send", describe(*r).c_str(), h.first.c_str(), quote(h.second, 80).c_str())); }
	if (x->conn->ex.size() > 1) probe("upstream-connection-reused");
}
static void completeRequest(std::shared_ptr<Exchange> x) { HReq* r = (HReq*)x->owner; if (r && x->req.body != r->body) violate("H07", "request-content", fmt("%s: the upstream received %zu bytes of content, not the %zu the client sent", describe(*r).c_str(), x->req.body.size(), r->body.size())); }

// ---- client side
static Exchange* last(const HReq& r) // the exchange whose answer the client received, or the last one
{
	auto i = W->truth.find(r.id); if (i == W->truth.end() || i->second.x.empty()) return 0;
	if (const std::string* u = r.resp.headersDone ? findHeader(r.resp.headers, "X-Up") : 0) for (auto& x : i->second.x) if (*findHeader(x->a.headers, "X-Up") == *u) return x.get();
	return i->second.x.back().get();
}
static bool relayed(const HReq& r) { Exchange* x = last(r); const std::string* u = x && r.resp.headersDone ? findHeader(r.resp.headers, "X-Up") : 0; return u && *findHeader(x->a.headers, "X-Up") == *u; }
// Qt 5.15 keeps the beginning of a response whose connection failed within its headers when it sends the request again: what it reports then is a mixture of both
static bool mixed1(const HReq& r) { auto& v = W->truth[r.id].x; for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i]->sent) return true; return false; }
static bool mixed2(const HReq& r) { for (auto& x : W->truth[r.id].x) for (auto& y : x->conn->ex) { if (y->owner && mixed1(*(HReq*)y->owner)) return true; if (y == x) break; } return false; } // what was left over of it on the connection counts as the beginning of the next response
static bool mixed(const HReq& r) { if (mixed2(r)) return true; for (auto& q : r.client->reqs) if (q->session && q->session == r.session && q->idx < r.idx && mixed2(*q)) return true; return false; } // and so for the client's connection
// Qt 5.15 does not notice the end of a connection that it reads directly behind the last bytes, or finds when it writes the request: the reply neither finishes nor fails
static bool endLost(const HReq& r)
{
	Truth& t = W->truth[r.id]; Exchange* x = t.x.empty() ? 0 : t.x.back().get(); if (!x && (!t.to || t.to->closes.empty())) return false;
	if (x && !x->a.invalid && (!x->conn->closedByServer() || !x->conn->end->conn->e[1 - x->conn->end->side].closed || (x->done && !x->conn->toApp().rstDelivered))) return false;
	for (QNetworkAccessManager* m : W->proxy->networkAccessManager()->findChildren<QNetworkAccessManager*>()) for (QNetworkReply* y : m->findChildren<QNetworkReply*>()) if (y->request().rawHeader("X-Id") == QByteArray::number(r.id)) return y->isRunning();
	return false;
}
static bool anyFailed(const HReq& r) { for (auto& x : W->truth[r.id].x) if (x->a.invalid || x->a.cut >= 0 || (x->ended && !x->done) || x->conn->toApp().rstDelivered) return true; return false; }
static void checkHead(HReq& r)
{
	Exchange* x = last(r); const Answer& a = x->a; if (r.resp.status != a.status) violate("H07|H08", "wrong-status", fmt("%s: the upstream answered %d, the client received %d", describe(r).c_str(), a.status, r.resp.status));
	if (x->delivered() + 1 < a.headerEnd) violate("H07|H09", "too-early", fmt("%s: answered before the upstream's headers were received", describe(r).c_str()));
	for (auto& h : a.headers) { if (isHop(h.first)) continue; std::vector<std::string> e, g; for (auto& k : a.headers) if (ieq(k.first, h.first)) e.push_back(k.second); for (auto& k : r.resp.headers) if (ieq(k.first, h.first)) g.push_back(k.second);
		bool same = e == g || (!ieq(h.first, "set-cookie") && joined(a.headers, h.first, ", ") == joined(r.resp.headers, h.first, ", ")); if (!same) violate("H07", "response-headers", fmt("%s: the upstream sent %s %s, the client received %s", describe(r).c_str(), h.first.c_str(), quote(list(e), 150).c_str(), quote(list(g), 150).c_str())); }
	for (auto& h : r.resp.headers) if (!isHop(h.first) && !findHeader(a.headers, h.first) && !ieq(h.first, "content-type") && !ieq(h.first, "via") && !ieq(h.first, "x-trailer")) violate("H07|H09", "response-headers", fmt("%s: the client received %s: %s, which the upstream did not send", describe(r).c_str(), h.first.c_str(), quote(h.second, 80).c_str()));
	if (countHeader(r.resp.headers, "content-length") > 1 || countHeader(r.resp.headers, "transfer-encoding") > 1 || (countHeader(r.resp.headers, "content-length") && countHeader(r.resp.headers, "transfer-encoding"))) violate("H07", "framing", fmt("%s: the response is framed more than once", describe(r).c_str()));
}
static const std::string& bodyFor(HReq& r) { const Answer& a = last(r)->a; return a.gzip && !findHeader(r.resp.headers, "content-encoding") ? a.body : a.payload; }
static void onPartial(HReq& r)
{
	if (!r.resp.headersDone || r.resp.bad || r.resp.status == 100) return; if (mixed(r)) return;
	if (W->truth[r.id].local) { const std::string& b = W->truth[r.id].body; if (r.resp.status == 200 && (r.resp.body.size() > b.size() || b.compare(0, r.resp.body.size(), r.resp.body))) violate("H07|H09", "wrong-content", fmt("%s: answered by the application, the %zu bytes received are not a prefix of the %zu it sent", describe(r).c_str(), r.resp.body.size(), b.size())); return; }
	if (!relayed(r)) return;
	checkHead(r); const std::string& b = bodyFor(r); if (r.resp.body.size() > b.size() || b.compare(0, r.resp.body.size(), r.resp.body)) violate("H07|H09", "wrong-content", fmt("%s: the %zu bytes received are not a prefix of the %zu the upstream sent", describe(r).c_str(), r.resp.body.size(), b.size()));
}
static bool excused(HReq& r) // the upstream could not be reached, or had closed the connection that was used
{ Truth& t = W->truth[r.id]; for (auto& f : W->connectFaults) if (f.first == t.to && f.second + sec >= t.handledAt) return true; /* Qt fails everything that is queued for the server */ return t.to && t.to->mayBeStale(t.handledAt); }
static size_t lastChunk(const Answer& a) { size_t q = a.wire.rfind("\n0\r\n"); if (q == std::string::npos) q = a.wire.rfind("\n0;"); size_t e = q == std::string::npos ? a.wire.size() : a.wire.find('\n', q + 1); return e == std::string::npos ? a.wire.size() : e + 1; } // the content is complete here
static void onDone(HReq& r)
{
	World& w = *W; Truth& t = w.truth[r.id]; w.lastDone = now; res->nontrivial |= 1; if (mixed(r)) { probe("resent-within-headers"); return; } if (!t.handled) { if (r.resp.status == 400) probe("refused"); else violate("H07|H08|H09", "unannounced", fmt("%s: answered %d without having been handled", describe(r).c_str(), r.resp.status)); return; }
	if (t.local) { if (r.resp.status != 200 || !findHeader(r.resp.headers, "X-Local") || countHeader(r.resp.headers, "content-length") > 1 || (!r.head() && r.resp.body != t.body)) violate("H07|H09", "wrong-content", fmt("%s: answered by the application with %zu bytes of content, the client received %d with %zu", describe(r).c_str(), t.body.size(), r.resp.status, r.resp.body.size())); return; }
	Exchange* x = last(r);
	if (!relayed(r))
	{
		if (r.resp.status != 503) { violate("H07|H08|H09", "wrong-status", fmt("%s: the client received %d, the upstream %s", describe(r).c_str(), r.resp.status, x ? fmt("answered %d", x->a.status).c_str() : "was not reached")); return; }
		probe("answered-503"); bool failed = excused(r) || anyFailed(r);
		if (!failed) violate("H08|H07", "false-503", fmt("%s: answered 503 although the upstream did not fail%s", describe(r).c_str(), x ? "" : " (it was not reached)"));
		return;
	}
	const Answer& a = x->a; checkHead(r); probe(a.framing == Answer::Chunked ? "relayed-chunked" : a.framing == Answer::UntilClose ? "relayed-until-close" : a.framing == Answer::None ? "relayed-no-body" : "relayed-length"); if (a.status >= 400) probe("relayed-error-status");
	bool blind = r.resp.framing == Parsed::UntilClose; // the end of such a response says nothing
	bool cutShort = (a.cut >= 0 && !(a.framing == Answer::UntilClose && a.cut >= (i64)a.headerEnd) && !(a.framing == Answer::Chunked && a.cut >= (i64)lastChunk(a))) || a.invalid;
	if (cutShort) { probe("truncated"); if (!blind || r.version != "HTTP/1.0") { if (!r.wasReset) violate("H08", "papered-over", fmt("%s: the upstream failed after %lld of %zu bytes, and the client received a complete response (%zu bytes of content, %s)", describe(r).c_str(), (long long)a.cut, a.wire.size(), r.resp.body.size(), r.resp.framing == Parsed::Length ? "of that length" : r.resp.framing == Parsed::Chunked ? "chunked" : "until close")); } return; }
	if (a.framing == Answer::UntilClose && (a.cut >= 0 || x->conn->toApp().rstDelivered)) return; // and a reset may look like an end to Qt
	if (blind && (r.wasReset || anyFailed(r))) return;
	if (!r.head() && r.resp.body != bodyFor(r)) violate("H07|H09", "wrong-content", fmt("%s: %zu bytes of content received, the upstream sent %zu", describe(r).c_str(), r.resp.body.size(), bodyFor(r).size()));
}
static void onOver(HReq& r)
{
	World& w = *W; Truth& t = w.truth[r.id]; if (r.aborted || mixed(r)) return; Exchange* x = last(r);
	if (!t.handled) { // earlier responses on the connection ended it
		return; }
	if (x && (anyFailed(r) || x->a.cut >= 0 || x->a.invalid || x->conn->toApp().rstDelivered || (x->ended && x->a.framing != Answer::UntilClose && !x->done))) { probe("truncation-shown"); return; }
	if (!t.local && excused(r) && !x) return;
	// a connection that is cut because of a later request takes earlier buffered responses with it
	for (auto& q : r.client->reqs) if (q->session == r.session && q->idx > r.idx) if (!W->truth[q->id].x.empty() && anyFailed(*q)) return;
	violate("H07|H08|H09", "truncated", fmt("%s: the connection ended after %zu bytes of the response although the upstream %s", describe(r).c_str(), r.got, t.local ? "was not involved" : !x ? "was not asked" : x->done ? "had answered completely" : "had not failed"));
}
// Some requests are answered by the application itself, after a while and in pieces: what was relayed before on the connection has nothing to do with them.
static void localPiece(QPointer<Pillow::HttpConnection> c, HReq* r, size_t off, bool chunked)
{
	Truth& t = W->truth[r->id]; if (!c || c->state() < Pillow::HttpConnection::SendingHeaders || c->state() > Pillow::HttpConnection::SendingContent || reqOf(c) != r) return;
	if (off == (size_t)-1) { Pillow::HttpHeaderCollection h; h << Pillow::HttpHeader("X-Local", "1"); if (!chunked) h << Pillow::HttpHeader("Content-Length", QByteArray::number((int)t.body.size())); logf("app answers %d", r->id); c->writeHeaders(200, h); off = 0; }
	else { size_t n = std::min<size_t>(t.body.size() - off, 1 + sizeDraw(3000)); c->writeContent(QByteArray(t.body.data() + off, (int)n)); off += n; if (chunked && off == t.body.size()) { if (c) c->endContent(); return; } }
	if (off < t.body.size()) appLater(draw(3) ? draw(5) * ms : (1 + draw(3000)) * ms, [=]() { localPiece(c, r, off, chunked); });
	else if (chunked && c) c->endContent();
}
static void onReady(Pillow::HttpConnection* c)
{
	World& w = *W; HReq* r = reqOf(c); if (!r) { violate("*", "harness", "unknown request announced"); return; } Truth& t = w.truth[r->id]; t.handled = true; t.handledAt = now; t.to = w.ups[w.target].get(); logf("handle request %d", r->id);
	if (r->idx > 0 && !t.hold && !w.ending && chance(1, 5)) { probe("answered-locally"); t.local = true; t.to = 0; t.body = blob((u32)r->id + 7, sizeDraw(20000), 3); bool chunked = chance(1, 2); QPointer<Pillow::HttpConnection> p(c); if (chance(1, 3)) localPiece(p, r, (size_t)-1, chunked); else appLater(draw(2) ? draw(5) * ms : (1 + draw(5000)) * ms, [=]() { localPiece(p, r, (size_t)-1, chunked); }); return; }
	if (!w.proxy->handleRequest(c)) violate("H07", "declined", fmt("%s was declined by the proxy", describe(*r).c_str()));
}
static void addRequests(HClient* c, u32 n, bool plain)
{
	static const char* targets[] = {"/", "/a", "/dir/file.txt?x=1&y=2", "/a%20b/c?q=%26+%2B%3D", "/%C3%A9?a=b=c", "/dir%2Ffile", "/a?", "/a;p=1,2/b@c:d?u=http://x/y?z", "/p?a[]=1&a[]=2", "/x//y/", "/~u/%7Eu", "/dir/..up", "/q?a=%zz", "/100%", "/a%25b?c=%2525", "/a?x#frag", "/\"x\"?<y>", "/!$&'()*+", "/host//x", "/a?b?c"};
	for (u32 k = 0; k < n; ++k)
	{
		static const char* ms_[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND"}; std::string m = plain ? "GET" : ms_[wpick({8, 3, 2, 1, 1, 1, 1, 1})]; HReq* r = c->add(m, targets[plain ? 0 : draw(20)]); if (plain) { r->headers.push_back({"Host", "sim"}); continue; }
		if (m == "POST" || m == "PUT" || m == "PATCH" || (m == "DELETE" && chance(1, 4))) { size_t b = sizeDraw(chance(1, 4) ? 60000 : 500); if (b > (size_t)net.sndCap * 200) b = (size_t)net.sndCap * 200; r->body = blob((u32)r->id, b, (int)draw(4)); }
		if (chance(1, 5)) { r->version = "HTTP/1.0"; if (chance(1, 2)) r->headers.push_back({"Connection", "keep-alive"}); } else { if (chance(5, 6)) r->headers.push_back({"Host", "www.example.com"}); if (chance(1, 10)) r->headers.push_back({"Connection", chance(1, 3) ? "close" : "keep-alive"}); }
		static const char* hn[] = {"X-A", "User-Agent", "Accept", "Cookie", "Accept-Encoding", "Authorization", "If-None-Match", "Range", "X-Forwarded-For", "x-b", "Referer", "Accept-Language", "If-Modified-Since", "Cache-Control"};
		u32 nh = draw(6); for (u32 i = 0; i < nh; ++i) { u32 q = draw(14); std::string v; switch (q) { case 3: v = fmt("s%u=id%d", i, r->id); break; case 4: v = chance(1, 2) ? "gzip" : "identity"; break; case 5: v = fmt("Basic dTpw%d", r->id); break; case 7: v = "bytes=0-10"; break; case 12: v = "Sun, 06 Nov 1994 08:49:37 GMT"; break; case 9: v = fmt("b%d ", r->id) + std::string(sizeDraw(2000), 'y') + "z"; break; default: v = fmt("v%d-%u", r->id, i); } if (findHeader(r->headers, hn[q]) && q != 0 && q != 3 && q != 8 && q != 9) continue; r->headers.push_back({hn[q], v}); }
		if (!r->body.empty() && chance(2, 3)) r->headers.push_back({"Content-Type", "application/x-sim"}); if (!r->body.empty() && chance(1, 8)) r->headers.push_back({"Expect", "100-continue"});
		r->thinkBefore = chance(1, 3) ? (u64)draw(500) * ms : 0;
		if (W->faults && chance(W->prop == "H09" ? 30 : 5, 100)) { r->abortKind = 1 + draw(2); switch (draw(3)) { case 0: r->abortAfterBytes = sizeDraw(60000); break; case 1: r->abortDelay = 1 + draw(10000) * us; break; default: r->abortDelay = 1 + (u64)draw(3000) * ms; } }
	}
}
static int leftReplies() { int n = 0; for (QNetworkAccessManager* m : W->proxy->networkAccessManager()->findChildren<QNetworkAccessManager*>()) n += m->findChildren<QNetworkReply*>().size(); return n; }
static void run(const std::string& prop)
{
	World w; W = &w; w.prop = prop; w.faults = chance(4, 5); net = randomNet(w.faults); w.upFaults = w.faults && chance(prop == "H08" ? 9 : 5, 10); if (chance(1, 4)) net.sndCap = 1 + sizeDraw(5000);
	u32 nu = 1 + wpick({3, 1}); for (u32 i = 0; i < nu; ++i)
	{
		up::Server* s = new up::Server((10u << 24) | (2 << 16) | (i + 1), (u16)(8081 + i)); w.ups.emplace_back(s); s->onRequest = arrived; s->onComplete = completeRequest;
		s->onConnect = [s]() { ConnectPlan p; if (W->upFaults && chance(W->prop == "H08" ? 3 : 1, 15)) { p.k = chance(1, 2) ? ConnectPlan::Refuse : ConnectPlan::Unreachable; W->connectFaults.push_back({s, now}); } return p; };
	}
	w.server = listenVia(drawVia(12), 8080, onReady); w.proxy = chance(1, 2) ? new Pillow::HttpHandlerProxy(QUrl(QString::fromStdString(urlOf(w.ups[0].get())))) : new Pillow::HttpHandlerProxy; if (w.proxy->proxiedUrl().isEmpty()) w.proxy->setProxiedUrl(QUrl(QString::fromStdString(urlOf(w.ups[0].get()) + (chance(1, 2) ? "/" : ""))));
	u32 nc = 1 + (chance(1, 8) ? draw(14) : draw(4)); size_t total = 0;
	for (u32 i = 0; i < nc; ++i)
	{
		std::unique_ptr<HClient> cp(new HClient); HClient* c = cp.get(); c->id = (int)i; w.clients.push_back(std::move(cp)); c->pipeline = chance(1, 3) ? 1 + draw(4) : 1; c->splitSend = 20; slowClient(*c, 60000);
		u32 n = 1 + sizeDraw(nc > 5 ? 2 : 8); addRequests(c, n, false); total += n; c->onDone = onDone; c->onOver = onOver; c->onPartial = onPartial;
		at((u64)draw(20) * ms, "client-start", [c]() { c->start(); });
	}
	if (nu > 1) { u32 k = 1 + draw(3); for (u32 i = 0; i < k; ++i) appLater((u64)draw(2000) * ms, []() { W->target = 1 - W->target; logf("proxied url changed"); W->proxy->setProxiedUrl(QUrl(QString::fromStdString(urlOf(W->ups[W->target].get())))); }); }
	summary(fmt("proxy upstreams=%u clients=%u requests=%zu seg=%d cap=%u%s%s", nu, nc, total, net.segMode, net.sndCap, w.faults ? " faults" : "", w.upFaults ? " upstream-faults" : ""));
	if (!pumpUntilQuiescent()) return;
	HReq* lost = 0; auto waiting = [&]() { for (auto& c : w.clients) for (auto& r : c->reqs) if (!r->over) { if (r->idx > 0 && !c->reqs[r->idx - 1]->over) continue; if (mixed(*r)) continue; if (endLost(*r)) { if (W->truth[r->id].x.empty() || !W->truth[r->id].x.back()->a.invalid) { probe("end-lost"); lost = r.get(); } continue; } Exchange* x = last(*r); violate("H08|H07|H09", "left-waiting", fmt("%s: nothing can happen any more and it has no complete answer (%zu bytes received); the upstream %s", describe(*r).c_str(), r->got, !x ? "was not reached" : x->done ? "answered completely" : x->ended ? "failed" : x->peerGone ? "was abandoned" : "is waiting")); } };
	waiting();
	// once faults have stopped, a new client is served
	w.upFaults = false; w.ending = true; net = NetCfg(); std::unique_ptr<HClient> cp(new HClient); HClient* c = cp.get(); c->id = (int)w.clients.size(); w.clients.push_back(std::move(cp)); addRequests(c, 2, true); c->onDone = onDone; c->onOver = onOver; c->onPartial = onPartial; 
	if (chance(1, 6)) // other clients whose requests the upstream never answers do not keep it waiting
	{
		u32 k = 6 + draw(9); probe("crowd"); for (u32 i = 0; i < k; ++i) { std::unique_ptr<HClient> hp(new HClient); HClient* h = hp.get(); h->id = (int)w.clients.size(); w.clients.push_back(std::move(hp)); addRequests(h, 1, true); HReq* r = h->reqs[0].get(); W->truth[r->id].hold = true; r->abortKind = 1 + draw(2); r->abortDelay = (300 + draw(60)) * sec; h->onDone = onDone; h->onOver = onOver; h->onPartial = onPartial; h->start(); }
		if (!chance(1, 3)) if (pumpFor((1 + draw(3000)) * ms)) return;
	}
	u64 t0 = now; c->start();
	if (!pumpUntilQuiescent()) return; waiting(); for (auto& r : c->reqs) { if (r->over && !(r->done && relayed(*r))) violate("H09|H08", "not-served", fmt("%s: not served although nothing fails any more", describe(*r).c_str())); }
	if (w.lastDone > t0 + 120 * sec) violate("H09|H08", "not-served", fmt("%llu simulated s passed before a new client was served", (unsigned long long)((w.lastDone - t0) / sec)));
	for (auto& k : w.clients) { for (Session* s : k->sessions) { if (!s->stray.empty()) violate("H07|H09", "stray-bytes", fmt("client %d received bytes that belong to no response: %s", k->id, quote(s->stray, 100).c_str())); if (!s->finished && s->waiting.empty() && s->off < s->in.size()) violate("H07|H09", "stray-bytes", fmt("client %d received bytes that belong to no response: %s", k->id, quote(s->in.substr(s->off), 100).c_str())); } }
	for (auto& k : w.clients) { k->stopped = true; for (Session* s : k->sessions) if (!s->finished) { s->finished = true; s->wire->fin(); } }
	if (!pumpUntilQuiescent()) return;
	for (auto& u : w.ups) for (up::SrvConn* sc : u->conns) if (!sc->over && ((sc->cur && !sc->cur->done) || sc->reading)) { HReq* r = (HReq*)(sc->reading ? sc->reading : sc->cur)->owner; violate("H09", "not-abandoned", fmt("%s: its client is gone and the upstream request has not been abandoned", r ? describe(*r).c_str() : "?")); }
	noObjectsLeft("H09", "after every client has gone", true); int left = leftReplies(); if (left) violate("H09", "not-dismantled", fmt("%d upstream requests are still kept after every exchange has ended", left));
	if (chance(1, 4)) // everything goes away during exchanges
	{
		u32 k = 1 + draw(3); probe("deleted-during-exchange"); for (u32 i = 0; i < k; ++i) { std::unique_ptr<HClient> hp(new HClient); HClient* h = hp.get(); h->id = (int)w.clients.size(); w.clients.push_back(std::move(hp)); addRequests(h, 1, true); W->truth[h->reqs[0]->id].hold = true; h->onDone = h->onOver = h->onPartial = [](HReq&) {}; h->start(); }
		if (pumpFor((u64)(1 + draw(3000)) * ms)) return;
	}
	QObject::disconnect(w.server, SIGNAL(requestReady(Pillow::HttpConnection*)), 0, 0); if (chance(1, 2)) { delete w.proxy; delete w.server; } else { delete w.server; delete w.proxy; } pumpFor(sec);
	noObjectsLeft("H09", "after the proxy was deleted"); if (openSimConns()) violate("H09", "socket-leak", "sockets are open after the proxy was deleted");
	if (lost) violate("H08", "end-lost", fmt("%s: Qt did not report the end of the upstream's connection, and its client was left waiting", describe(*lost).c_str()));
}
SCENARIO(proxy, run);
}
