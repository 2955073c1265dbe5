// Static file scenario (H01-H03): HttpHandlerFile behind HttpServer, over a directory tree that changes.
#include "hlib.h"
#include <unistd.h>
#include <sys/stat.h>
#include <limits.h>
#include <dirent.h>
using namespace sim; using namespace hc;
namespace {
struct Truth { bool handled = false, expectHandled = false; int expectStatus = 0; std::string content, path; u64 size = 0; bool streamed = false; bool fileTrouble = false; std::string tagOffered; bool tagMatches = false; bool recorded = false; u64 eioBefore = 0; std::string realPath; };
struct World { std::string prop, root, pub; QObject* server = 0; Via via = Tcp; Pillow::HttpHandlerFile* file = 0; std::vector<std::unique_ptr<HClient>> clients; std::map<int, Truth> truth; std::map<std::string, std::string> tagOf, contentOf; std::map<std::string, u32> version; std::vector<std::string> tags; std::map<std::string, int> troubled; u32 maxPending = 0; std::vector<std::string> files; int verNo = 1;
	struct Streaming { int id; size_t limit; }; std::map<Pillow::HttpConnection*, Streaming> streaming; bool eioUsed = false; };
static World* W;
static std::string readAll(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static bool dirInside(const std::string& real, const std::string& pub) { return real.size() > pub.size() + 1 && real.compare(0, pub.size(), pub) == 0 && real[pub.size()] == '/'; }
static std::string pctDecode(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit((u8)s[i + 1]) && isxdigit((u8)s[i + 2])) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }
static std::string pctEncode(const std::string& s, u32 pct) { std::string o; for (char c : s) if (c != '/' ? (u8)c <= 32 || (u8)c >= 127 || c == '%' || c == '?' || c == '#' || chance(pct, 100) : chance(pct / 4, 100)) o += fmt(chance(1, 2) ? "%%%02x" : "%%%02X", (u8)c); else o += c; return o; }
static std::string newContent(size_t n) { int v = W->verNo++; if (n >= 12) { std::string s = fmt("[v%d]", v) + blob(v, n, (int)wpick({4, 1, 1, 1})); s.resize(n); return s; } return blob(v, n, 0).substr(0, n); }

static void onReady(Pillow::HttpConnection* c)
{
	World& w = *W; HReq* r = reqOf(c); if (!r) { violate("*", "harness", "unknown request announced"); return; }
	Truth& t = w.truth[r->id]; t = Truth(); t.recorded = true;
	std::string p = r->uri; size_t q = p.find_first_of("?#"); if (q != std::string::npos) p.resize(q);
	std::string dec = pctDecode(p); t.path = dec; t.eioBefore = eioFired;
	char real[PATH_MAX]; std::string full = w.pub + dec; struct stat st; bool nul = dec.find('\0') != std::string::npos;
	if (!nul && realpath(full.c_str(), real) && stat(full.c_str(), &st) == 0 && S_ISREG(st.st_mode) && dirInside(real, w.pub))
	{
		t.expectHandled = true; t.realPath = real;
		if (openDenied.count(real)) t.expectStatus = 403;
		else { t.size = st.st_size; t.streamed = (i64)t.size > w.file->bufferSize(); int savedEio = fileFault.eio; fileFault.eio = 0; u32 sr = fileFault.shortRead; t.content = readAll(real); fileFault.eio = savedEio; fileFault.shortRead = sr; t.expectStatus = 200;
			const std::string* inm = findHeader(r->headers, "If-None-Match"); if (inm) { t.tagOffered = *inm; auto k = w.tagOf.find(t.content); t.tagMatches = !t.streamed && k != w.tagOf.end() && k->second == *inm; if (t.tagMatches) t.expectStatus = 304; } }
		// what really leads to a file inside, but reaches it through a way out and back in, is fine too
	}
	logf("app handles request %d: expect %s %d size %llu", r->id, t.expectHandled ? "file" : "decline", t.expectStatus, (unsigned long long)t.size);
	w.streaming.erase(c); if (t.streamed) { w.streaming[c] = {r->id, (size_t)std::max(512, w.file->bufferSize()) + 8192}; probe("streamed-file"); }
	std::string id = num(r->id);
	t.handled = w.file->handleRequest(c);
	if (!t.handled) { if (res) res->nontrivial |= 1; c->writeResponse(404, Pillow::HttpHeaderCollection() << Pillow::HttpHeader("X-Declined", qb(id)), "declined"); }
	if (t.handled != t.expectHandled) violate(t.handled ? "H02" : "H01|H02", t.handled ? "served-outside" : "declined-inside", fmt("%s: the path leads to %s, and the file handler %s it", describe(*r).c_str(), t.expectHandled ? "a public file" : "no public file", t.handled ? "served" : "declined"));
}
static void onAnswer(HReq& r)
{
	World& w = *W; Truth& t = w.truth[r.id]; if (!t.recorded) { violate("H01|H02", "phantom-response", fmt("%s was answered without being announced", describe(r).c_str())); return; }
	if (res) res->nontrivial |= 1;
	const std::string* decl = findHeader(r.resp.headers, "x-declined"); int s = r.resp.status;
	if (decl && *decl != num(r.id)) violate("H01|H02|H03", "wrong-response", fmt("%s got the response of request %s", describe(r).c_str(), decl->c_str()));
	if (!t.expectHandled) { if (!decl) violate("H02|H01", "leak", fmt("%s: not a public file, but answered %d: %s", describe(r).c_str(), s, quote(r.resp.body, 80).c_str())); return; }
	if (decl) return; // reported above
	bool trouble = t.fileTrouble || w.troubled[t.realPath] || (w.eioUsed);
	if (t.expectStatus == 403) { if (s != 403) violate("H02|H01", "unreadable", fmt("%s: unreadable file answered %d", describe(r).c_str(), s)); return; }
	if (trouble && s >= 500) { probe("trouble-answered-5xx"); return; }
	if (s == 304) {
		if (t.expectStatus != 304) violate("H03", "wrong-304", fmt("%s: answered 304 although the offered tag %s was not issued for the current content", describe(r).c_str(), quote(t.tagOffered).c_str()));
		if (t.tagMatches) probe("not-modified"); return; }
	if (t.expectStatus == 304) violate("H03", "missing-304", fmt("%s: the offered tag is the current one, but the answer is %d", describe(r).c_str(), s));
	if (s != 200) { violate("H01|H03", "wrong-status", fmt("%s answered %d", describe(r).c_str(), s)); return; }
	if (r.head()) { if (r.resp.length != (i64)t.content.size() && !trouble) violate("H01", "wrong-length", fmt("%s: HEAD declares %lld bytes, the file has %zu", describe(r).c_str(), (long long)r.resp.length, t.content.size())); }
	else if (r.resp.body != t.content)
	{
		size_t k = 0; while (k < r.resp.body.size() && k < t.content.size() && r.resp.body[k] == t.content[k]) ++k;
		violate("H01|H03", "wrong-content", fmt("%s: complete response of %zu bytes differs from the file (%zu bytes) at byte %zu%s", describe(r).c_str(), r.resp.body.size(), t.content.size(), k, trouble ? " (the file could not be read completely)" : ""));
	}
	const std::string* tag = findHeader(r.resp.headers, "etag");
	if (!t.streamed && !(trouble && r.resp.body != t.content && !r.head()))
	{
		if (!tag) { violate("H03", "no-tag", fmt("%s: no ETag", describe(r).c_str())); return; }
		auto a = w.tagOf.find(t.content); if (a != w.tagOf.end() && a->second != *tag) violate("H03", "tag-changed", fmt("%s: equal content got tag %s and earlier %s", describe(r).c_str(), quote(*tag).c_str(), quote(a->second).c_str()));
		auto b = w.contentOf.find(*tag); if (b != w.contentOf.end() && b->second != t.content) violate("H03", "tag-reused", fmt("%s: tag %s was already issued for different content", describe(r).c_str(), quote(*tag).c_str()));
		w.tagOf[t.content] = *tag; w.contentOf[*tag] = t.content; w.tags.push_back(*tag);
	}
}
static void onOver(HReq& r)
{
	World& w = *W; Truth& t = w.truth[r.id]; if (r.aborted) return; if (!t.recorded) return;
	// the server ended the connection before the response was complete: only a file that could not be read to its end justifies that
	bool trouble = t.fileTrouble || w.troubled[t.realPath] || w.eioUsed;
	// (cutting a transfer closes the connection at once: responses before it that are still buffered go with it)
	for (auto& p : w.truth) { HReq* q = reqById(p.first); if (q && q->session == r.session && q->idx > r.idx && p.second.recorded && p.second.streamed && w.troubled[p.second.realPath]) trouble = true; }
	if (!trouble) violate("H01|H02|H03", "truncated", fmt("%s: connection ended after %zu bytes of the response although the file is readable", describe(r).c_str(), r.got));
	else probe("trouble-cut");
}
static void onPartial(HReq& r)
{
	World& w = *W; Truth& t = w.truth[r.id]; if (!t.recorded || !r.resp.headersDone || r.resp.status != 200 || findHeader(r.resp.headers, "x-declined")) return;
	if (r.resp.body.size() > t.content.size() || t.content.compare(0, r.resp.body.size(), r.resp.body)) violate("H01", "wrong-content", fmt("%s: the bytes received are not the file's", describe(r).c_str()));
}
// content of an earlier version with a small difference
static std::string variant(const std::string& f)
{
	std::string c = readAll(f); if (c.empty()) return newContent(1 + draw(20));
	size_t at = chance(1, 3) ? c.size() - 1 - draw(std::min<u32>(3, (u32)c.size())) : chance(1, 3) ? draw(std::min<u32>(16, (u32)c.size())) : draw((u32)c.size());
	switch (wpick({5, 1, 1, 1})) { case 0: c[at] = (char)(c[at] + 1 + draw(255)); break; case 1: c.erase(at, 1); break; case 2: c.insert(at, 1, c[at]); break; case 3: c += '\0'; break; }
	return c;
}
static void mutate(const std::string& prop)
{
	World& w = *W; std::string f = w.files[draw((u32)w.files.size())];
	struct stat st; if (lstat(f.c_str(), &st) || !S_ISREG(st.st_mode)) { ::unlink(f.c_str()); rmdir(f.c_str()); writeFile(f, newContent(sizeDraw(3000))); return; }
	char real[PATH_MAX]; std::string rp = realpath(f.c_str(), real) ? real : f;
	bool inUse = false; for (auto& p : w.truth) if (p.second.recorded && p.second.realPath == rp && p.second.streamed) { HReq* r = reqById(p.first); if (r && !r->over) inUse = true; }
	switch (prop == "H03" ? wpick({6, 2, 1, 1, 1}) : prop == "H02" ? wpick({1, 2, 2, 4, 2}) : wpick({3, 2, 1, 1, 0, 4, 4})) {
	case 0: { std::string t = f + ".new"; std::string c = chance(prop == "H03" ? 2 : 1, 4) ? variant(f) : chance(1, 4) && !w.contentOf.empty() ? w.contentOf[w.tags[draw((u32)w.tags.size())]] : newContent(prop == "H03" && chance(1, 2) ? (size_t)st.st_size : chance(1, 2) ? sizeDraw(3000) : w.file->bufferSize() > 70000 ? sizeDraw(20000) : (size_t)std::max(0, w.file->bufferSize() - 3 + (int)draw(7))); writeFile(t, c); setMtime(t, chance(1, 3) ? (i64)st.st_mtime : 1500000000 + draw(1000)); ::rename(t.c_str(), f.c_str()); logf("file %s replaced (%zu bytes)", f.c_str() + w.root.size(), c.size()); break; }
	case 1: ::unlink(f.c_str()); logf("file %s deleted", f.c_str() + w.root.size()); break;
	case 2: if (!inUse) { std::string c; if (chance(1, 2)) { c = readAll(f); if (!c.empty()) c[draw((u32)c.size())] ^= (char)(1 + draw(255)); } else c = newContent((size_t)st.st_size); writeFile(f, c); setMtime(f, (i64)st.st_mtime); logf("file %s rewritten in place", f.c_str() + w.root.size()); } break; // same size, same mtime
	case 3: { ::unlink(f.c_str()); std::string to; switch (draw(5)) { case 0: to = w.root + "/pub-secret/s.txt"; break; case 1: to = w.root + "/outside.txt"; break; case 2: to = w.pub + "/a.txt"; break; case 3: to = w.root + "/pub-secret"; break; case 4: to = "../pub-secret/s.txt"; break; } if (symlink(to.c_str(), f.c_str())) {} logf("file %s replaced by a link to %s", f.c_str() + w.root.size(), to.c_str() + (to.compare(0, w.root.size(), w.root) ? 0 : w.root.size())); break; }
	case 4: ::unlink(f.c_str()); if (chance(1, 3)) { if (mknod(f.c_str(), S_IFSOCK | 0644, 0)) {} logf("file %s replaced by a socket", f.c_str() + w.root.size()); break; } ::mkdir(f.c_str(), 0755); logf("file %s replaced by a directory", f.c_str() + w.root.size()); break;
	case 5: if (st.st_size > 0) { w.troubled[rp]++; u64 n = chance(1, 4) ? 0 : draw((u32)st.st_size); if (truncate(f.c_str(), (off_t)n)) {} fault("file-shrinks"); logf("file %s truncated to %llu", f.c_str() + w.root.size(), (unsigned long long)n); } break;
	case 6: { bool shrunk = false; for (auto& p : w.truth) if (p.second.recorded && p.second.realPath == rp && p.second.streamed && p.second.content.size() > (size_t)st.st_size) { HReq* r = reqById(p.first); if (r && !r->over) shrunk = true; } if (shrunk) break; // growing again before the transfer noticed: like a rewrite in place
		FILE* o = fopen(f.c_str(), "ab"); if (o) { std::string c = newContent(1 + sizeDraw(100000)); fwrite(c.data(), 1, c.size(), o); fclose(o); fault("file-grows"); logf("file %s grew by %zu", f.c_str() + w.root.size(), c.size()); } break; }
	}
}
static void run(const std::string& prop)
{
	World w; W = &w; w.prop = prop; bool faults = chance(3, 4); net = randomNet(faults); if (chance(1, 3)) net.sndCap = 1 + sizeDraw(5000);
	w.root = makeScratch(); std::string pubName = chance(1, 3) ? "p\xc3\xbc" "b" : "pub"; w.pub = w.root + "/" + pubName;
	bool h1 = prop == "H01", h2 = prop == "H02", h3 = prop == "H03";
	static const u32 bufs[] = {512 * 1024, 4096, 512, 1000, 100, 65536, 1, 0}; u32 buf = bufs[h1 ? wpick({2, 4, 3, 3, 1, 3, 1, 1}) : wpick({4, 3, 1, 0, 0, 1})];
	::mkdir(w.pub.c_str(), 0755); ::mkdir((w.root + "/" + pubName + "-secret").c_str(), 0755); ::mkdir((w.root + "/pub-secret").c_str(), 0755); ::mkdir((w.root + "/other").c_str(), 0755); ::mkdir((w.pub + "/sub").c_str(), 0755); ::mkdir((w.pub + "/sub/deep dir").c_str(), 0755);
	writeFile(w.root + "/outside.txt", newContent(40)); writeFile(w.root + "/" + pubName + "-secret/s.txt", newContent(50)); writeFile(w.root + "/pub-secret/s.txt", newContent(50)); writeFile(w.root + "/other/o.txt", newContent(60)); writeFile(w.root + "/" + pubName + "x", newContent(30));
	static const char* names[] = {"/a.txt", "/index.html", "/sub/b.bin", "/sub/deep dir/c d.css", "/sub/\xc3\xa9t\xc3\xa9.png", "/%41.txt", "/noext", "/.hidden", "/..data"};
	std::vector<std::string> good; u32 nf = h1 ? 2 + draw(3) : 4 + draw(6); 
	for (u32 i = 0; i < nf && i < 9; ++i)
	{
		size_t n; size_t most = std::max<size_t>(3000, (size_t)net.sndCap * 300); u32 sc = h1 ? wpick({3, 3, 4}) : wpick({6, 2, 1}); if (sc && (buf > most || (!h1 && buf > 65536 && i > 0))) sc = 0;
		switch (sc) { case 0: n = sizeDraw(h3 && chance(1, 4) ? 60000 : 2000); if (n > buf && n > most) n = 2000; break; case 1: n = std::max<i64>(0, (i64)buf - 3 + draw(7)); break; default: n = buf + 1 + sizeDraw(chance(1, 4) ? 2000000 : 100000); if (buf < 4096 && n > 300000) n = 300000; n = std::max<size_t>(buf + 1, std::min(n, most)); break; }
		std::string f = w.pub + names[i]; writeFile(f, newContent(n)); setMtime(f, 1500000000 + draw(100)); good.push_back(names[i]); w.files.push_back(f);
	}
	// links
	struct L { const char* name; std::string to; }; std::vector<L> links = {{"/link-in.txt", w.pub + "/a.txt"}, {"/link-out.txt", w.root + "/outside.txt"}, {"/link-sibling.txt", w.root + "/" + pubName + "-secret/s.txt"}, {"/linkdir-out", w.root + "/other"}, {"/linkdir-sibling", w.root + "/" + pubName + "-secret"}, {"/linkdir-in", w.pub + "/sub"}, {"/dangling", w.root + "/nowhere"}, {"/loop", w.pub + "/loop"}, {"/link-rel.txt", "../outside.txt"}, {"/link-root", "/"}};
	if (mknod((w.pub + "/special").c_str(), S_IFSOCK | 0644, 0)) violate("*", "harness", "mknod");
	for (auto& l : links) if (symlink(l.to.c_str(), (w.pub + l.name).c_str())) {}
	std::vector<std::string> wild = {"/", "", "/sub", "/sub/", "/missing", "/../outside.txt", "/../" + pubName + "-secret/s.txt", "/../" + pubName + "x", "-secret/s.txt", "/sub/../../outside.txt", "/sub/../a.txt", "/./a.txt", "//a.txt", "/link-in.txt", "/link-out.txt", "/link-sibling.txt", "/linkdir-out/o.txt", "/linkdir-sibling/s.txt", "/linkdir-in/b.bin", "/dangling", "/loop", "/link-rel.txt", "/link-root/etc/hostname", "/linkdir-out/../outside.txt", "/../" + pubName + "/a.txt", "/linkdir-out/../" + pubName + "/a.txt", "/a.txt/", "/a.txt/.", "/a.txt/../a.txt", "/../../../../../../../../etc/hostname", "/special", "/sub/../special", std::string("/a.txt\0x", 8), "/\xff\xfe", "/sub/\\..\\a.txt", "/ a.txt", "/a.txt ", "/A.TXT"};
	if (chance(1, 12) || (h1 && chance(1, 6))) { std::string f = w.files[draw((u32)w.files.size())]; openDenied.insert(f); fault("open-denied"); }
	w.via = (Via)wpick({6, 2, 1}); w.server = listenVia(w.via, 8080, onReady); {
		std::string given = w.pub; switch (wpick({10, 2, 2, 2, 1})) { case 1: given += "/"; break; case 2: given += "/sub/.."; break; case 3: given = w.root + "/link-to-pub"; if (symlink(chance(1, 2) ? w.pub.c_str() : w.pub.c_str() + w.root.size() + 1, given.c_str())) {} probe("public-path-is-a-link"); break; case 4: given = w.root + "/." + w.pub.substr(w.root.size()) + "//"; break; }
		if (chance(1, 4)) { w.file = new Pillow::HttpHandlerFile(); w.file->setPublicPath(QString::fromStdString(given)); } else w.file = new Pillow::HttpHandlerFile(QString::fromStdString(given));
	}
	if (buf != 512 * 1024) w.file->setBufferSize((int)buf);
	bool trouble = h1 && faults && chance(1, 3);
	u32 nc = 1 + draw(4); size_t total = 0;
	for (u32 i = 0; i < nc; ++i)
	{
		std::unique_ptr<HClient> cp(new HClient); HClient* c = cp.get(); c->id = (int)i; w.clients.push_back(std::move(cp)); c->pipeline = chance(1, 3) ? 1 + draw(5) : 1; c->splitSend = 20; slowClient(*c, 400000);
		u32 n = 1 + sizeDraw(h1 ? 6 : 20);
		for (u32 k = 0; k < n; ++k)
		{
			std::string p = chance(h2 ? 2 : h3 ? 0 : 1, 3) ? wild[draw((u32)wild.size())] : good[draw((u32)good.size())];
			std::string m = chance(1, h1 ? 5 : 12) ? "HEAD" : chance(1, 20) ? "POST" : "GET";
			std::string u = pctEncode(p, chance(1, 4) ? 20 : 0); if (u.empty() || u[0] != '/') u = "/" + (u.empty() ? "" : "..%2f" + pubName + u); if (chance(1, 12)) u += "?x=../y"; 
			HReq* r = c->add(m, u); if (chance(1, 8)) { r->version = "HTTP/1.0"; if (chance(1, 2)) r->headers.push_back({"Connection", "keep-alive"}); } else if (chance(1, 12)) r->headers.push_back({"Connection", "close"});
			if (m == "POST") r->body = blob(r->id, 1 + draw(300));
			r->thinkBefore = chance(1, 3) ? (u64)draw(500) * ms : 0;
			if (chance(h1 ? 12 : 4, 100)) { r->abortKind = 1 + draw(2); if (chance(1, 2)) r->abortAfterBytes = sizeDraw(200000); else r->abortDelay = 1 + draw(100000) * us; }
			total += 1;
		}
		c->beforeSend = [prop](HReq& r) { World& w = *W; if (chance(prop == "H03" ? 60 : 10, 100)) { std::string tag; if (!w.tags.empty() && !chance(1, 6)) tag = chance(2, 3) ? w.tags.back() : w.tags[draw((u32)w.tags.size())]; else { static const char* odd[] = {"*", "", "\"x\"", "d41d8cd98f00b204e9800998ecf8427f", "0"}; tag = odd[draw(5)]; }
			// mostly the tag this very file had last
			if (chance(2, 3)) for (auto it = w.truth.rbegin(); it != w.truth.rend(); ++it) { HReq* q = reqById(it->first); if (q && q != &r && q->uri == r.uri && it->second.recorded && w.tagOf.count(it->second.content)) { tag = w.tagOf[it->second.content]; break; } }
			if (chance(1, 6)) switch (draw(4)) { case 0: tag += "x"; break; case 1: tag += "-gzip"; break; case 2: tag = "x" + tag; break; default: if (!tag.empty()) tag.resize(tag.size() - 1); }
			r.headers.push_back({chance(1, 4) ? "if-none-match" : "If-None-Match", tag}); } };
		c->onDone = onAnswer; c->onOver = onOver; c->onPartial = onPartial;
		at((u64)draw(20) * ms, "client-start", [c]() { c->start(); });
	}
	if (trouble && chance(1, 2)) { w.eioUsed = true; fileFault.eio = 1 + draw(300); }
	fileFault.shortRead = chance(1, 3) ? draw(50) : 0; fileFault.eintr = chance(1, 4) ? draw(100) : 0;
	u32 muts = h3 || h2 ? draw(12) : trouble ? 1 + draw(4) : draw(3);
	for (u32 i = 0; i < muts; ++i) at((u64)draw(h1 ? 2000 : 4000) * ms, "file-change", [prop, trouble]() { if (prop == "H01" && !trouble) { World& w = *W; (void)w; } mutate(prop); });
	summary(fmt("file %s buf=%u clients=%u requests=%zu files=%u changes=%u seg=%d cap=%u%s%s", viaName[w.via], buf, nc, total, nf, muts, net.segMode, net.sndCap, trouble ? " trouble" : "", w.eioUsed ? " eio" : ""));
	// bounded pending output while streaming to a client that does not pipeline
	QMetaObject::Connection watch = QObject::connect(QAbstractEventDispatcher::instance(), &QAbstractEventDispatcher::aboutToBlock, [&w]() { for (Pillow::HttpConnection* c : w.server->findChildren<Pillow::HttpConnection*>()) { auto it = w.streaming.find(c); if (it == w.streaming.end() || !c->outputDevice() || c->state() == Pillow::HttpConnection::Closed) continue; HReq* r = reqById(it->second.id); if (!r || r->client->pipeline > 1) continue; size_t pending = (size_t)c->outputDevice()->bytesToWrite(), limit = it->second.limit; if (QSslSocket* s = qobject_cast<QSslSocket*>(c->outputDevice())) { pending += (size_t)s->encryptedBytesToWrite(); limit += limit / 100 + 1000; } if (pending > limit) violate("H01", "unbounded-pending", fmt("%s: %zu bytes are pending for a slow client, the limit is %zu", describe(*r).c_str(), pending, limit)); } });
	if (!pumpUntilQuiescent()) return;
	for (auto& c : w.clients) for (auto& r : c->reqs) if (!r->over)
	{
		if (!r->sent && r->idx > 0 && !c->reqs[r->idx - 1]->over) continue;
		Truth& t = w.truth[r->id];
		violate("H01|H02|H03", "left-waiting", fmt("%s: never answered completely and the connection stays open (%zu bytes received%s)", describe(*r).c_str(), r->got, t.recorded ? t.streamed ? ", streamed" : "" : ", not announced"));
	}
	for (auto& c : w.clients) for (Session* s : c->sessions) { if (!s->stray.empty()) violate("H01|H03", "stray-bytes", fmt("client %d received bytes that belong to no response: %s", c->id, quote(s->stray, 100).c_str())); if (!s->finished && s->waiting.empty() && s->off < s->in.size()) violate("H01|H03", "stray-bytes", fmt("client %d received bytes that belong to no response: %s", c->id, quote(s->in.substr(s->off), 100).c_str())); if (!s->finished && !s->lastKeep) violate("H01", "not-closed", fmt("client %d: the connection had to be closed and is still open", c->id)); }
	for (auto& c : w.clients) { c->stopped = true; for (Session* s : c->sessions) if (!s->finished) { s->finished = true; s->wire->fin(); } }
	pumpUntilQuiescent();
	int left = 0; { DIR* d = opendir("/proc/self/fd"); while (struct dirent* e = readdir(d)) { char l[PATH_MAX]; ssize_t n = readlinkat(dirfd(d), e->d_name, l, sizeof l - 1); if (n > 0) { l[n] = 0; if (std::string(l).compare(0, w.root.size(), w.root) == 0) ++left; } } closedir(d); }
	if (left) violate("H01", "file-leak", fmt("%d files are still open after every client has gone", left));
	if (openSimConns()) violate("H01", "socket-leak", "sockets are still open after every client has gone");
	noObjectsLeft("H01", "after every client has gone", true);
	bool inTransfer = h1 && chance(1, 3); // the server goes away while it is still sending
	if (inTransfer)
	{
		net = NetCfg(); net.sndCap = 2000; fileFault.eio = 0; openDenied.clear(); std::string content = newContent((size_t)w.file->bufferSize() + 60000); writeFile(w.pub + "/last", content);
		std::unique_ptr<HClient> cp(new HClient); HClient* c = cp.get(); c->id = (int)w.clients.size(); c->chunk = 500; c->delay = 500 * ms; w.clients.push_back(std::move(cp));
		c->onDone = c->onOver = c->onPartial = c->beforeSend = [](HReq&) {}; c->add("GET", "/last"); at(0, "client-start", [c]() { c->start(); }); pumpFor((u64)(1 + draw(3000)) * ms); probe("server-deleted-in-transfer");
		if (chance(1, 2)) c->stopped = true;
	}
	QObject::disconnect(watch); delete w.server; if (inTransfer && chance(1, 2)) pumpFor(ms); delete w.file; pumpFor(ms); noObjectsLeft("H01", "after the server was deleted");
}
SCENARIO(file, run);
}
