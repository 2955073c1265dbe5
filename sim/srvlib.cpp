#include "srvlib.h"
#include <unistd.h>
#include "tlscert.h"
#include <openssl/rand.h>
namespace srv {
// ------------------------------------------------------------------ request generation
static const char methodChars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$-_.";
static const char uriSafe[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!*'(),:@&=+~\"<>$[]{}|\\^`";
static const char tokenChars[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";
static char pc(const char* s) { return s[draw((u32)strlen(s))]; }
static std::string uriPart(u32 max, bool slash, bool q)
{
	std::string s; u32 n = draw(max + 1);
	for (u32 i = 0; i < n; ++i) switch (wpick({12, 2, 1, 1})) {
		case 0: s += pc(uriSafe); break;
		case 1: s += slash ? '/' : q ? pc("&=/?;") : 'x'; break;
		case 2: { static const char* hexes[] = {"%20", "%41", "%2f", "%2F", "%3D", "%26", "%c3%a9", "%E2%82%AC", "%ff", "%25", "%2B", "%09", "%3f"}; s += hexes[draw(13)]; break; }
		case 3: s += (char)(128 + draw(128)); break;
	}
	return s;
}
std::string refPercentDecode(const std::string& s)
{
	std::string o; auto hv = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 0; };
	for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { o += (char)(hv(s[i + 1]) << 4 | hv(s[i + 2])); i += 2; } else o += s[i];
	return o;
}
QString refDecoded(const std::string& s) { return QString::fromUtf8(refPercentDecode(s).data(), (int)refPercentDecode(s).size()); }

Req genRequest(int id, const GenOpts& o)
{
	Req r; r.id = id; r.version = "HTTP/1.1"; r.method = "GET";
	std::string sid = num(id);
	bool bad = o.invalid && chance(o.invalid, 100);
	if (!o.simple || bad)
	{
		switch (wpick({6, 3, 2, 1, 1, 1})) { case 1: r.method = "POST"; break; case 2: r.method = "PUT"; break; case 3: r.method = "DELETE"; break; case 4: r.method = "OPTIONS"; break; case 5: { u32 n = range(1, 20); r.method.clear(); for (u32 i = 0; i < n; ++i) r.method += pc(methodChars); break; } }
		if (o.head && chance(o.head, 100)) r.method = "HEAD";
		if (r.method == "HEAD0") r.method = "HEA";
	}
	// URI
	bool idInPath = true; int form = o.simple ? 0 : (int)wpick({20, 1, 1});
	if (form == 0) {
		r.path = "/r" + sid; if (!o.simple) { if (chance(1, 4)) r.path += "/" + uriPart(12, true, false); else if (chance(1, 20)) r.path += "/" + blob(id, sizeDraw(3000), 2); if (chance(1, 12)) r.path = "/" + r.path; }
		r.uri = r.path;
		if (!o.simple && chance(1, 3)) { r.query = chance(1, 2) ? "a=" + sid + "&b=" + uriPart(8, false, true) : uriPart(14, false, true); if (chance(1, 3)) r.query += "&a=second&E&=v&"; if (chance(1, 25)) { u32 k = 15 + draw(30); for (u32 i = 0; i < k; ++i) r.query += "&p" + num(i) + "=" + sid + "." + num(i); } r.uri += "?" + r.query; }
	} else if (form == 1) { r.uri = "*"; idInPath = false; r.checkPath = false; }
	else { r.uri = "http://10.1.2.3:8080/r" + sid + "/x"; idInPath = false; r.checkPath = false; if (chance(1, 2)) r.uri += "?q=1"; }
	std::string target = r.uri;
	if (!o.simple && form != 1 && chance(1, 10)) { r.fragment = "f" + uriPart(6, false, true); target += "#" + r.fragment; }
	if (o.versions10 && chance(o.versions10, 100)) { r.version = "HTTP/1.0"; r.http11 = false; }
	// headers
	std::vector<std::pair<std::string, std::string>> hs; // name, raw value (after ": " handling)
	if (!idInPath || chance(1, 2)) hs.push_back({"X-Id", sid});
	if (!o.simple)
	{
		if (chance(1, 3)) hs.push_back({"Host", "10.0.0.1:8080"});
		u32 n = chance(1, 3) ? draw(6) : chance(1, 25) ? draw(60) : 0;
		for (u32 i = 0; i < n; ++i)
		{
			std::string name = "X"; u32 l = draw(10); for (u32 k = 0; k < l; ++k) name += pc(tokenChars); name += num(i);
			std::string v; switch (wpick({6, 2, 1, 1, 1})) { case 0: v = "v" + sid + "-" + num(i); break; case 1: v = ""; break; case 2: v = blob(id, 1 + draw(300), 0) + "  "; break; case 3: { u32 m = 1 + draw(10); for (u32 k = 0; k < m; ++k) { int c = 1 + draw(255); if (c == '\r' || c == '\n' || (k == 0 && c == ' ')) c = 'z'; v += (char)c; } break; } case 4: v = "a: b, c; d=\"e\""; break; }
			hs.push_back({name, v});
		}
		if (chance(o.hugeHeaders, 100)) { probe("huge-request-headers"); hs.push_back({"X-Huge", blob(id, 20000 + draw(10000), 2)}); }
		if (o.connHdr && chance(o.connHdr, 100)) { static const char* c[] = {"close", "keep-alive", "Close", "Keep-Alive", "CLOSE", "upgrade", "KEEP-ALIVE", "", "TE, close", "close, TE", "keep-alive, Upgrade", "te ,\tClose", "closed, xclose", "Upgrade,Keep-Alive", "TE,,"}; std::string v = c[draw(15)]; hs.push_back({chance(1, 4) ? "connection" : "Connection", v}); r.clientKA = r.http11 ? !lists(v, "close") : lists(v, "keep-alive"); }
		else r.clientKA = r.http11;
		for (size_t i = hs.size(); i > 1; --i) std::swap(hs[i - 1], hs[draw((u32)i)]);
	}
	else r.clientKA = r.http11;
	bool body = !o.simple && r.method != "HEAD" && chance(o.bodies, 100);
	i64 len = -1;
	if (body)
	{
		len = chance(1, 10) ? 0 : 1 + sizeDraw(o.maxBody); r.body = blob(id, (size_t)len, (int)wpick({3, 2, 1, 2}));
		std::string v = num(len); if (chance(1, 15)) v = "00" + v;
		bool ex = r.http11 && chance(o.expect, 100);
		auto ins = [&](const std::string& n, const std::string& val) { size_t at = draw((u32)hs.size() + 1); hs.insert(hs.begin() + at, {n, val}); };
		ins(chance(1, 4) ? "content-length" : "Content-Length", v);
		if (ex) { ins(chance(1, 3) ? "expect" : "Expect", chance(1, 3) ? "100-Continue" : "100-continue"); r.expect100 = len > 0; }
	}
	else if (!o.simple && r.http11 && chance(o.expect, 400)) hs.push_back({"Expect", "100-continue"}); // expectation without content
	std::string line = r.method + " " + target + " " + r.version + "\r\n";
	std::string block;
	std::vector<std::string> lines;
	for (auto& h : hs) { std::string sp = o.simple ? " " : wpick({8, 1, 1}) == 0 ? " " : chance(1, 2) ? "" : "   "; lines.push_back(h.first + ":" + sp + h.second + "\r\n"); r.headers.push_back(h); }
	for (auto& l : lines) block += l;
	r.head = line + block + "\r\n";
	if (!bad && r.head.size() > 32760) { GenOpts plain = o; plain.simple = true; plain.invalid = 0; return genRequest(id, plain); }
	if (bad)
	{
		r.valid = false; r.errStatus.insert(400); r.expect100 = false;
		auto lineWith = [&](const std::string& l) { r.head = l + block + "\r\n"; };
		auto hdr = [&](const std::string& l) { size_t at = draw((u32)lines.size() + 1); std::string b; for (size_t i = 0; i <= lines.size(); ++i) { if (i == at) b += l; if (i < lines.size()) b += lines[i]; } r.head = line + b + "\r\n"; };
		auto cl = [&](const std::string& v) { std::string b; for (auto& h : hs) if (!ieq(h.first, "content-length")) b += h.first + ": " + h.second + "\r\n"; b += "Content-Length: " + v + "\r\n"; r.head = line + b + "\r\n"; };
		switch (draw(20)) {
		case 0: r.badness = "lowercase method"; lineWith("get " + target + " HTTP/1.1\r\n"); break;
		case 1: r.badness = "no version"; lineWith("GET " + target + "\r\n"); break;
		case 2: r.badness = "bad version"; lineWith("GET " + target + " HTTP/x.1\r\n"); break;
		case 3: r.badness = "bare LF line ends"; lineWith("GET " + target + " HTTP/1.1\n"); break;
		case 4: r.badness = "method too long"; lineWith("ABCDEFGHIJKLMNOPQRSTU " + target + " HTTP/1.1\r\n"); break;
		case 5: r.badness = "control character in uri"; lineWith("GET /r" + sid + "\x01 HTTP/1.1\r\n"); break;
		case 6: r.badness = "space in uri"; lineWith("GET /r" + sid + " x HTTP/1.1\r\n"); break;
		case 7: r.badness = "bad escape in uri"; lineWith("GET /r" + sid + "%zz HTTP/1.1\r\n"); break;
		case 8: r.badness = "relative uri"; lineWith("GET r" + sid + " HTTP/1.1\r\n"); break;
		case 9: r.badness = "header without colon"; hdr("NoColonHere\r\n"); break;
		case 10: r.badness = "space in header name"; hdr("Bad Name: x\r\n"); break;
		case 11: r.badness = "empty header name"; hdr(": x\r\n"); break;
		case 12: r.badness = "garbage"; r.head = std::string("\x16\x03\x01\x02\x00\x01\xfc\x03\x03", 9) + blob(id, 20, 1); break;
		case 13: r.badness = "lone CR in line"; lineWith("GET /r" + sid + " HTTP/1.1\rX\r\n"); break;
		case 14: r.badness = "negative content length"; cl("-" + num(1 + draw(100000))); break;
		case 15: r.badness = "non-numeric content length"; { static const char* v[] = {"12a", "x", "", "0x10", "1,2", "1 2", "1.5", "1e3"}; cl(v[draw(8)]); } r.errStatus.clear(); r.errStatus.insert(413); break;
		case 16: r.badness = "content length over 128 MiB"; cl(num(134217728ll + 1 + (i64)sizeDraw(2000000000))); r.errStatus.clear(); r.errStatus.insert(413); break;
		case 17: r.badness = "content length overflowing"; { static const char* v[] = {"2147483648", "4294967296", "4294967301", "18446744073709551617", "99999999999999999999999999"}; cl(v[draw(5)]); } r.errStatus.clear(); r.errStatus.insert(413); break;
		case 18: { r.badness = "header section too long"; std::string pad; u32 want = 32 * 1024 + 1 + sizeDraw(40000); if (chance(1, 2)) pad = "X-Pad: " + blob(id, want, 2) + "\r\n"; else while (pad.size() < want) pad += "X-P" + num((i64)pad.size()) + ": " + blob(id, 1 + draw(60), 2) + "\r\n"; hdr(pad); break; }
		case 19: r.badness = "request line too long"; lineWith("GET /r" + sid + blob(id, 33000 + sizeDraw(30000), 2) + (chance(1, 2) ? " HTTP/1.1\r\n" : "")); break;
		}
		if (!body) { r.body.clear(); }
	}
	return r;
}

// ------------------------------------------------------------------ reference model of the response
static const std::map<int, std::string>& statusTable() { static const std::map<int, std::string> t = {{100, "Continue"}, {101, "Switching Protocols"}, {200, "OK"}, {201, "Created"}, {202, "Accepted"}, {203, "Non-Authoritative Information"}, {204, "No Content"}, {205, "Reset Content"}, {206, "Partial Content"}, {207, "Multi-Status"}, {208, "Already Reported"}, {226, "IM Used"}, {300, "Multiple Choices"}, {301, "Moved Permanently"}, {302, "Found"}, {303, "See Other"}, {304, "Not Modified"}, {305, "Use Proxy"}, {307, "Temporary Redirect"}, {308, "Permanent Redirect"}, {400, "Bad Request"}, {401, "Unauthorized"}, {402, "Payment Required"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {406, "Not Acceptable"}, {407, "Proxy Authentication Required"}, {408, "Request Timeout"}, {409, "Conflict"}, {410, "Gone"}, {411, "Length Required"}, {412, "Precondition Failed"}, {413, "Request Entity Too Large"}, {414, "Request-URI Too Long"}, {415, "Unsupported Media Type"}, {416, "Requested Range Not Satisfiable"}, {417, "Expectation Failed"}, {421, "Misdirected Request"}, {422, "Unprocessable Entity"}, {423, "Locked"}, {424, "Failed Dependency"}, {425, "Too Early"}, {426, "Upgrade Required"}, {428, "Precondition Required"}, {429, "Too Many Requests"}, {431, "Request Header Fields Too Large"}, {451, "Unavailable For Legal Reasons"}, {500, "Internal Server Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"}, {504, "Gateway Timeout"}, {505, "HTTP Version Not Supported"}, {506, "Variant Also Negotiates"}, {507, "Insufficient Storage"}, {508, "Loop Detected"}, {511, "Network Authentication Required"}}; return t; }
int statusOf(int s) { return statusTable().count(s) ? s : 500; }
std::string reasonOf(int s) { return statusTable().at(statusOf(s)); }
int anyStatus() { u32 k = 2 + draw((u32)statusTable().size() - 2); auto i = statusTable().begin(); std::advance(i, k); return i->first; } // any final one
static bool parseI64(std::string v, i64& out) { while (!v.empty() && isspace((u8)v[0])) v.erase(0, 1); while (!v.empty() && isspace((u8)v.back())) v.pop_back(); if (v.empty() || v.size() > 17) return false; bool neg = v[0] == '-'; size_t i = neg ? 1 : 0; if (i >= v.size()) return false; i64 x = 0; for (; i < v.size(); ++i) { if (!isdigit((u8)v[i])) return false; x = x * 10 + (v[i] - '0'); } out = neg ? -x : x; return true; }
static void maybeComplete(Req& r) { if (r.m.length >= 0 && (r.m.head || r.m.sent >= r.m.length)) r.m.complete = true; if (r.m.head) r.m.complete = true; }
void modelHeaders(Req& r, int status, const Headers& h, i64 preset)
{
	Req::Model& m = r.m; if (m.started || m.cut) return;
	m.started = true; m.status = statusOf(status); m.length = preset; m.head = r.method == "HEAD"; bool te = false; const std::string* conn = 0;
	for (auto& p : h)
	{
		if (ieq(p.first, "content-length")) { i64 v; if (parseI64(p.second, v) && v >= 0) m.length = v; else m.length = -1; }
		else if (ieq(p.first, "content-type")) { m.hasCT = true; m.contentType = p.second; }
		else if (ieq(p.first, "connection")) conn = &p.second;
		else if (ieq(p.first, "transfer-encoding")) te = ieq(p.second, "chunked");
		else m.custom.push_back(p);
	}
	m.chunked = te && r.http11 && m.length < 0;
	m.keep = r.clientKA && (m.length >= 0 || m.chunked) && !(conn && lists(*conn, "close"));
	maybeComplete(r);
}
void modelContent(Req& r, const std::string& c)
{
	Req::Model& m = r.m; if (!m.started || m.complete || m.cut) return;
	if (m.length >= 0 && m.sent + (i64)c.size() > m.length) return; // refused as a whole
	m.body += c; m.sent += c.size(); maybeComplete(r);
}
void modelEnd(Req& r) { Req::Model& m = r.m; if (!m.started || m.complete || m.cut || m.length >= 0) return; if (!m.chunked) m.keep = false; m.complete = true; }

// ------------------------------------------------------------------ raw transport
struct RawWire : Wire, Actor {
	void up() { logic->up = true; logic->onUp(); }
	void onConnected() override { up(); }
	void onConnectFailed() override { logic->failed = true; logic->onFail(); }
	void onData() override { logic->in += in; in.clear(); logic->onBytes(); }
	void onFin() override { if (logic->ended) return; logic->ended = true; logic->onEnd(); }
	void onReset() override { if (logic->ended) return; logic->ended = true; logic->wasReset = true; logic->onEnd(); }
	void send(const std::string& s) override { Actor::send(s); }
	void fin() override { logic->closedByUs = true; Actor::fin(); }
	void reset() override { logic->closedByUs = true; Actor::reset(); }
	void pause(bool on) override { readPaused = on; if (!on) resumeReading(); }
	bool dead() override { return Actor::dead(); }
	int connId() override { return end ? end->conn->id : 0; } bool notAccepted() override { return end && !end->conn->accepted; }
};
Wire* rawWire(Logic* l, u32 chunk, u64 delay) { RawWire* w = new RawWire; w->logic = l; l->wire = w; w->readChunk = chunk; w->readDelayMax = delay; return w; }
void connectRaw(Wire* w, u16 port) { connectActor(dynamic_cast<Actor*>(w), 0x7f000001, port); }
void connectLocal(Wire* w, const std::string& p) { connectActorLocal(dynamic_cast<Actor*>(w), p); }

// ------------------------------------------------------------------ TLS transport (the client end is OpenSSL on memory BIOs)
static u64 rs = 88172645463325252ull;
static int detBytes(unsigned char* b, int n) { for (int i = 0; i < n; ++i) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; b[i] = (u8)(rs >> 56); } return 1; }
static int detStatus() { return 1; }
static int detSeed(const void*, int) { return 1; }
static void detCleanup() {}
static int detAdd(const void*, int, double) { return 1; }
static SSL_CTX* cctx = 0; static QSslCertificate* gCert = 0; static QSslKey* gKey = 0;
void initTls()
{
	if (cctx) return;
	static RAND_METHOD m = {detSeed, detBytes, detCleanup, detAdd, detBytes, detStatus};
	RAND_set_rand_method(&m);
	cctx = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(cctx, SSL_VERIFY_NONE, 0);
	gCert = new QSslCertificate(QByteArray(tlsCertPem)); gKey = new QSslKey(QByteArray(tlsKeyPem), QSsl::Rsa);
	if (gCert->isNull() || gKey->isNull()) { fprintf(stderr, "cannot load the TLS key\n"); _exit(97); }
}
QSslCertificate tlsCert() { initTls(); return *gCert; } QSslKey tlsKey() { initTls(); return *gKey; }
struct TlsWire : Wire, Actor {
	SSL* ssl = 0; BIO* rb = 0,* wb = 0; bool done = false; TlsOpts o; u64 sent = 0; bool cut = false; std::string pending; bool wantFin = false;
	TlsWire() { initTls(); ssl = SSL_new(cctx); rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(rb, -1); SSL_set_bio(ssl, rb, wb); SSL_set_connect_state(ssl); }
	void flushOut()
	{
		char b[16384]; std::string out; int n; while ((n = BIO_read(wb, b, sizeof b)) > 0) out.append(b, n);
		if (out.empty() || cut) return;
		if (o.cutAt >= 0 && !done && sent + out.size() > (u64)o.cutAt) {
			out.resize((size_t)o.cutAt - sent); cut = true; fault("tls-handshake-cut"); if (o.garbage) out += blob(7, 60, 1);
			Actor::send(out); if (o.cutHow == 0) fin(); else if (o.cutHow == 1) reset(); /* 2: stall */ return;
		}
		sent += out.size(); Actor::send(out);
	}
	void step()
	{
		if (cut) return;
		if (!done) { int r = SSL_do_handshake(ssl); if (r == 1) { done = true; logic->up = true; flushOut(); probe("tls-handshake-done"); logic->onUp(); } else { int e = SSL_get_error(ssl, r); flushOut(); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { probe("tls-handshake-failed"); cut = true; return; } } }
		if (done) { char b[16384]; bool got = false; int n; while ((n = SSL_read(ssl, b, sizeof b)) > 0) { logic->in.append(b, n); got = true; } flushOut(); if (got) logic->onBytes(); }
	}
	void onConnected() override { step(); }
	void onConnectFailed() override { logic->failed = true; logic->onFail(); }
	void onData() override { BIO_write(rb, in.data(), (int)in.size()); in.clear(); step(); }
	void onFin() override { if (logic->ended) return; logic->ended = true; logic->onEnd(); }
	void onReset() override { if (logic->ended) return; logic->ended = true; logic->wasReset = true; logic->onEnd(); }
	void send(const std::string& s) override { if (!done || s.empty() || Actor::dead()) return; SSL_write(ssl, s.data(), (int)s.size()); flushOut(); }
	void fin() override { logic->closedByUs = true; Actor::fin(); }
	void reset() override { logic->closedByUs = true; Actor::reset(); }
	void pause(bool on) override { readPaused = on; if (!on) resumeReading(); }
	bool dead() override { return Actor::dead(); }
	int connId() override { return end ? end->conn->id : 0; } bool notAccepted() override { return end && !end->conn->accepted; }
};
Wire* tlsWire(Logic* l, u32 chunk, u64 delay, const TlsOpts& o) { TlsWire* w = new TlsWire; w->logic = l; l->wire = w; w->readChunk = chunk; w->readDelayMax = delay; w->o = o; return w; }
bool tlsHandshakeDone(Wire* w) { TlsWire* t = dynamic_cast<TlsWire*>(w); return t && t->done; }
}
