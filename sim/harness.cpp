#include <unordered_set>
#include <QtGlobal>
#include "harness.h"
#include <zlib.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
extern quintptr Q_CORE_EXPORT qtHookData[];
namespace sim {
extern bool timeUp; extern u64 stallWindow;
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Register::Register(const char* name, void (*run)(const std::string&)) { Scenario s = {name, run}; scenarios().push_back(s); }
std::string num(i64 v) { return std::to_string((long long)v); }
std::string lower(const std::string& s) { std::string r = s; for (char& c : r) if (c >= 'A' && c <= 'Z') c += 32; return r; }
bool ieq(const std::string& a, const std::string& b) { return lower(a) == lower(b); }
const std::string* findHeader(const Headers& h, const std::string& n) { for (auto& p : h) if (ieq(p.first, n)) return &p.second; return 0; }
int countHeader(const Headers& h, const std::string& n) { int k = 0; for (auto& p : h) if (ieq(p.first, n)) ++k; return k; }
QByteArray qb(const std::string& s) { return QByteArray(s.data(), (int)s.size()); }
std::string sb(const QByteArray& s) { return std::string(s.constData(), (size_t)s.size()); }
bool lists(const std::string& v, const std::string& token)
{
	size_t i = 0; while (i <= v.size()) { size_t e = v.find(',', i); if (e == std::string::npos) e = v.size(); size_t a = i, b = e; while (a < b && (v[a] == ' ' || v[a] == '\t')) ++a; while (b > a && (v[b - 1] == ' ' || v[b - 1] == '\t')) --b; if (ieq(v.substr(a, b - a), token)) return true; i = e + 1; }
	return false;
}
std::pair<std::string, std::string> oddHeader()
{
	static const char* o[][2] = {{"Upgrade", "h2,h2c"}, {"Connectionz", "close"}, {"Connection-Type", "keep-alive"}, {"Content-Lengthx", "5"}, {"Content-Lengt", "7"}, {"Transfer-Encodingx", "chunked"}, {"Transfer-Enc", "chunked"}, {"upgrade", "TLS/1.0"}, {"C", "close"}, {"Con", "close"}, {"Te-X", "chunked"}, {"Upgraded", "h2c"}, {"Proxy-Connectio", "close"}, {"Contents", "1"}, {"T", ""}, {"Cona", "close"}, {"p", "x"}};
	u32 k = draw(17); return {o[k][0], o[k][1]};
}
std::string blob(u32 id, size_t n, int kind)
{
	std::string s; s.reserve(n + 24);
	if (kind == 0) { u32 k = 0; while (s.size() < n) { char b[32]; int l = snprintf(b, sizeof b, "<%u:%u>", id, k++); s.append(b, l); } }
	else if (kind == 1) { u64 x = id * 2654435761u + 12345; while (s.size() < n) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char)(x >> 56); } }
	else if (kind == 2) { s.assign(n, (char)('a' + id % 26)); }
	else { static const char z[] = "\0\r\n\r\nGET / HTTP/1.1\r\n0\r\n\r\n\xff"; u32 k = id; while (s.size() < n) s += z[k++ % (sizeof z - 1)]; }
	s.resize(n); return s;
}
static bool parseHead(const std::string& s, size_t off, Parsed& p)
{
	size_t end = s.find("\r\n\r\n", off), first = s.find("\r\n", off);
	if (first == std::string::npos) return false;
	p.startLine = s.substr(off, first - off);
	if (end == std::string::npos) return false;
	p.headersDone = true; p.headerBytes = end + 4 - off;
	size_t pos = first + 2;
	while (pos < end + 2)
	{
		size_t e = s.find("\r\n", pos); std::string line = s.substr(pos, e - pos); pos = e + 2;
		if (line.empty()) break;
		size_t c = line.find(':');
		if (c == std::string::npos) { p.bad = true; p.err = "header line without colon: " + quote(line); return true; }
		size_t v = c + 1; while (v < line.size() && (line[v] == ' ' || line[v] == '\t')) ++v;
		size_t ve = line.size(); while (ve > v && (line[ve - 1] == ' ' || line[ve - 1] == '\t')) --ve;
		p.headers.push_back(std::make_pair(line.substr(0, c), line.substr(v, ve - v)));
		for (char ch : line.substr(0, c)) if ((unsigned char)ch <= 32 || (unsigned char)ch >= 127) { p.bad = true; p.err = "invalid header name: " + quote(line); }
	}
	return true;
}
static void parseBody(const std::string& s, size_t b, Parsed& p, bool eof)
{
	switch (p.framing) {
	case Parsed::None: p.complete = true; p.consumed = b; return;
	case Parsed::Length: { size_t n = std::min<size_t>((size_t)p.length, s.size() - b); p.body = s.substr(b, n); p.consumed = b + n; p.complete = n == (size_t)p.length; return; }
	case Parsed::UntilClose: p.body = s.substr(b); p.consumed = s.size(); p.complete = eof; return;
	case Parsed::Chunked: {
		size_t pos = b;
		for (;;)
		{
			size_t e = s.find("\r\n", pos); if (e == std::string::npos) { p.consumed = s.size(); return; }
			std::string line = s.substr(pos, e - pos); size_t sc = line.find(';'); std::string hex = sc == std::string::npos ? line : line.substr(0, sc);
			if (hex.empty() || hex.size() > 8) { p.bad = true; p.err = "bad chunk size line " + quote(line, 40); p.consumed = s.size(); return; }
			size_t n = 0; for (char c : hex) { int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (v < 0) { p.bad = true; p.err = "bad chunk size line " + quote(line, 40); p.consumed = s.size(); return; } n = n * 16 + v; }
			pos = e + 2;
			if (n == 0) { // trailers
				for (;;) { size_t t = s.find("\r\n", pos); if (t == std::string::npos) { p.consumed = s.size(); return; } if (t == pos) { p.complete = true; p.consumed = pos + 2; return; } pos = t + 2; }
			}
			size_t have = std::min(n, s.size() - pos); p.body.append(s, pos, have); pos += have;
			if (have < n || s.size() - pos < 2) { p.consumed = s.size(); return; }
			if (s[pos] != '\r' || s[pos + 1] != '\n') { p.bad = true; p.err = "chunk not followed by CRLF"; p.consumed = s.size(); return; }
			pos += 2;
		} }
	}
}
static bool parseLen(const std::string& v, i64& out) { if (v.empty() || v.size() > 15) return false; out = 0; for (char c : v) { if (c < '0' || c > '9') return false; out = out * 10 + (c - '0'); } return true; }
Parsed parseResponse(const std::string& s, size_t off, bool head, bool eof)
{
	Parsed p; if (!parseHead(s, off, p)) return p;
	// HTTP/x.y SSS reason
	const std::string& l = p.startLine;
	if (l.size() < 12 || l.compare(0, 5, "HTTP/") || l[8] != ' ' || !isdigit((u8)l[5]) || l[6] != '.' || !isdigit((u8)l[7]) || !isdigit((u8)l[9]) || !isdigit((u8)l[10]) || !isdigit((u8)l[11]) || (l.size() > 12 && l[12] != ' ')) { p.bad = true; p.err = "bad status line " + quote(l, 100); return p; }
	p.version = l.substr(0, 8); p.status = atoi(l.substr(9, 3).c_str()); p.reason = l.size() > 13 ? l.substr(13) : "";
	if (p.bad) return p;
	const std::string* te = findHeader(p.headers, "transfer-encoding"); const std::string* cl = findHeader(p.headers, "content-length");
	if (cl && !parseLen(*cl, p.length)) { p.bad = true; p.err = "bad content-length " + quote(*cl, 40); return p; }
	if (countHeader(p.headers, "content-length") > 1 || countHeader(p.headers, "transfer-encoding") > 1) { p.bad = true; p.err = "repeated framing header"; return p; }
	if (head || p.status == 304 || p.status == 204 || (p.status >= 100 && p.status < 200)) p.framing = Parsed::None;
	else if (te && ieq(*te, "chunked")) { p.framing = Parsed::Chunked; if (cl) { p.bad = true; p.err = "both content-length and chunked"; return p; } }
	else if (cl) p.framing = Parsed::Length;
	else p.framing = Parsed::UntilClose;
	parseBody(s, off + p.headerBytes, p, eof); return p;
}
Parsed parseRequest(const std::string& s, size_t off)
{
	Parsed p; if (!parseHead(s, off, p)) return p;
	const std::string& l = p.startLine; size_t a = l.find(' '), b = a == std::string::npos ? a : l.find(' ', a + 1);
	if (b == std::string::npos || l.find(' ', b + 1) != std::string::npos) { p.bad = true; p.err = "bad request line " + quote(l, 100); return p; }
	p.method = l.substr(0, a); p.uri = l.substr(a + 1, b - a - 1); p.version = l.substr(b + 1);
	if (p.version != "HTTP/1.1" && p.version != "HTTP/1.0") { p.bad = true; p.err = "bad version " + quote(p.version, 40); return p; }
	if (p.method.empty() || p.uri.empty()) { p.bad = true; p.err = "bad request line " + quote(l, 100); return p; }
	if (p.bad) return p;
	const std::string* te = findHeader(p.headers, "transfer-encoding"); const std::string* cl = findHeader(p.headers, "content-length");
	if (countHeader(p.headers, "content-length") > 1) { p.bad = true; p.err = "repeated content-length"; return p; }
	if (cl && !parseLen(*cl, p.length)) { p.bad = true; p.err = "bad content-length " + quote(*cl, 40); return p; }
	p.framing = te && ieq(*te, "chunked") ? Parsed::Chunked : cl ? Parsed::Length : Parsed::None;
	parseBody(s, off + p.headerBytes, p, false); return p;
}
std::string chunkEncode(const std::string& body, const std::vector<size_t>& sizes, bool up, bool ext, const std::string& trailer)
{
	std::string o; size_t pos = 0, k = 0;
	while (pos < body.size()) { size_t n = sizes.empty() ? body.size() : sizes[k++ % sizes.size()]; if (n == 0) n = 1; n = std::min(n, body.size() - pos); o += fmt(up ? "%zX" : "%zx", n); if (ext) o += ";name=value"; o += "\r\n"; o.append(body, pos, n); o += "\r\n"; pos += n; }
	return o + "0\r\n" + trailer + "\r\n";
}
std::string gz(const std::string& s, int level, bool vary)
{
	z_stream z; memset(&z, 0, sizeof z); int win = vary && chance(1, 3) ? 9 + (int)draw(7) : 15; deflateInit2(&z, level, Z_DEFLATED, 16 + win, vary ? 1 + (int)draw(9) : 8, vary ? (int)draw(5) : Z_DEFAULT_STRATEGY);
	gz_header h; memset(&h, 0, sizeof h); std::string name = "some file.txt", comment(vary ? draw(300) : 0, 'c'), extra(vary ? draw(40) : 0, '\1');
	if (vary && chance(1, 2)) { if (chance(1, 2)) h.name = (Bytef*)name.c_str(); if (!comment.empty() && chance(1, 2)) h.comment = (Bytef*)comment.c_str(); if (!extra.empty() && chance(1, 2)) { h.extra = (Bytef*)extra.data(); h.extra_len = (uInt)extra.size(); } h.hcrc = (int)draw(2); h.os = 3; deflateSetHeader(&z, &h); }
	std::vector<size_t> cuts; if (vary && chance(1, 2)) for (u32 k = 0, n = draw(6); k < n; ++k) cuts.push_back(draw((u32)s.size() + 1)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(s.size());
	std::string o(deflateBound(&z, s.size()) + s.size() / 2 + 4096, 0); z.next_in = (Bytef*)s.data(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size();
	size_t at = 0; for (size_t k = 0; k < cuts.size(); ++k) { z.avail_in = cuts[k] - at; at = cuts[k]; int r = deflate(&z, k + 1 == cuts.size() ? Z_FINISH : chance(1, 2) ? Z_SYNC_FLUSH : Z_FULL_FLUSH); if (k + 1 == cuts.size() ? r != Z_STREAM_END : r != Z_OK && r != Z_BUF_ERROR) violate("*", "harness", fmt("deflate: %d", r)); }
	o.resize(z.total_out); deflateEnd(&z); return o;
}

// ------------------------------------------------ application event loop
struct AppEvent : QEvent { std::function<void()> fn; AppEvent(std::function<void()> f) : QEvent(QEvent::User), fn(f) {} };
struct AppReceiver : QObject { bool event(QEvent* e) override { if (e->type() == QEvent::User) { std::function<void()> f = static_cast<AppEvent*>(e)->fn; f(); return true; } return QObject::event(e); } };
static AppReceiver* receiver() { static AppReceiver* r = new AppReceiver; return r; }
std::function<void(const QString&)> onQtMessage;
void appLater(u64 d, std::function<void()> fn) { AppReceiver* r = receiver(); at(d, "app-timer", [r, fn]() { QCoreApplication::postEvent(r, new AppEvent(fn)); }); }
static bool pump(std::function<bool()> done)
{
	receiver(); quiescent = false; if (done && done()) return false;
	QEventLoop loop;
	QMetaObject::Connection c = QObject::connect(QAbstractEventDispatcher::instance(), &QAbstractEventDispatcher::awake, [&]() { if (quiescent || timeUp || (done && done())) loop.quit(); });
	loop.exec();
	QObject::disconnect(c);
	return quiescent || timeUp;
}
bool pumpUntilQuiescent(std::function<bool()> done) { return pump(done); }
bool pumpFor(u64 ns) { bool* hit = new bool(false); AppReceiver* r = receiver(); at(ns, "pump-end", [hit, r]() { *hit = true; QCoreApplication::postEvent(r, new AppEvent([]() {})); }); bool q = pump([hit]() { return *hit; }); return q; }

// Every QObject made during the run that still exists (Qt reports their making and destruction to debugging tools).
static std::unordered_set<QObject*>* living = 0;
static void onMade(QObject* o) { if (living) living->insert(o); }
static void onGone(QObject* o) { if (living) living->erase(o); }
void watchObjects() { living = new std::unordered_set<QObject*>; qtHookData[3] = (quintptr)&onMade; qtHookData[4] = (quintptr)&onGone; }
void ownObject(QObject* o) { living->erase(o); }
void noObjectsLeft(const char* props, const char* when, bool perRequest)
{
	if (!living || timeUp) return;
	std::map<std::string, int> n; for (QObject* o : *living) { std::string c = o->metaObject()->className(); bool req = c == "Pillow::HttpHandlerFileTransfer" || c == "Pillow::HttpHandlerProxyPipe" || c == "QBuffer" || c == "QFile" || c.compare(0, 13, "QNetworkReply") == 0; if (req || (!perRequest && c.compare(0, 8, "Pillow::") == 0)) ++n[c]; }
	if (n.empty()) return; std::string s; for (auto& x : n) s += fmt("%s%d %s", s.empty() ? "" : ", ", x.second, x.first.c_str());
	violate(props, "object-leak", fmt("objects are left %s: %s", when, s.c_str()));
}

bool nestedLoop(u64 d)
{
	static int depth = 0; if (depth >= 5 || timeUp) return false;
	++depth; probe("nested-event-loop"); logf("app enters a nested event loop (%d)", depth);
	QEventLoop loop; QPointer<QEventLoop> p(&loop); appLater(d, [p]() { if (p) p->quit(); });
	QMetaObject::Connection c = QObject::connect(QAbstractEventDispatcher::instance(), &QAbstractEventDispatcher::awake, [&]() { if (quiescent || timeUp) loop.quit(); });
	loop.exec(); QObject::disconnect(c); --depth; logf("app leaves the nested event loop"); return true;
}
static std::string scratchRoot;
std::string makeScratch()
{
	const char* base = getenv("SIM_SCRATCH"); std::string d = std::string(base ? base : "/tmp/pillow-sim") + "/run";
	scratchRoot = d; ::mkdir(d.c_str(), 0755); scratch = d; return d;
}
void writeFile(const std::string& p, const std::string& data) { int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(98); } scratchFds.erase(fd); size_t o = 0; while (o < data.size()) { ssize_t n = ::write(fd, data.data() + o, data.size() - o); if (n <= 0) break; o += n; } ::close(fd); }
void setMtime(const std::string& p, i64 s) { struct timespec t[2] = {{(time_t)s, 0}, {(time_t)s, 0}}; utimensat(AT_FDCWD, p.c_str(), t, 0); }
}
