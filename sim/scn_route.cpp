// Dispatch scenario (H05): HttpHandlerStack and HttpHandlerSimpleRouter with changing handlers, routes and targets.
#include "hlib.h"
#include "HttpHandlerSimpleRouter.h"
namespace routed {
void respond(Pillow::HttpConnection* c, int uid);
// an application object that routes point to
class Target : public QObject {
	Q_OBJECT
public:
	int uid[3];
	Target(QObject* p = 0) : QObject(p) { uid[0] = uid[1] = uid[2] = 0; }
	Q_INVOKABLE void invokable(Pillow::HttpConnection* c) { respond(c, uid[2]); }
public slots:
	void first(Pillow::HttpConnection* c) { respond(c, uid[0]); }
	void second(Pillow::HttpConnection* c) { respond(c, uid[1]); }
};
}
using namespace sim; using namespace hc; using routed::Target;
namespace {
typedef QMap<QString, QString> Params;
struct Token { enum K { Lit, Param, Splat } k; QString s; };
struct Pattern { std::vector<Token> t; QString path; std::vector<QString> names; };
struct Node;
struct Route { std::string method; Pattern* p; int uid = 0; enum K { Func, Slot, Name, Invokable, Handler, Static } k = Func; QPointer<QObject> target; bool needsTarget = false; Node* node = 0; int status = 200; std::string content; };
struct Node { enum K { Function, Decline, Fixed, Router, Stack, Saboteur, NotFound } k; int uid = 0; QPointer<Pillow::HttpHandler> h; std::vector<std::unique_ptr<Node>> kids; std::vector<Route> routes; bool notFound = false, mismatch = false, methodParam = false; bool hasFunction = true; int status = 200; std::string content; Node* parent = 0; };
struct Outcome { bool handled = false, answered = false; int uid = 0, status = 200; Params params; std::set<QString> touched; std::set<std::string> allow; std::string content; bool hasContent = false; enum Why { Declined, App, Fixed, Static, NotFound404, Unmatched404, Mismatch405 } why = Declined; };
struct Truth { Outcome exp; bool handled = false; std::vector<int> ran; Params seen; std::string path; QString decoded; bool closed = false, answered = false; };
struct World { QObject* server = 0; std::unique_ptr<Node> root; std::vector<std::unique_ptr<HClient>> clients; std::map<int, Truth> truth; std::map<Pillow::HttpConnection*, int> current; std::set<Pillow::HttpConnection*> watched; std::vector<std::unique_ptr<Pattern>> patterns; std::vector<Target*> targets; std::map<Pillow::HttpHandler*, Pillow::HttpHandler*> dummy; int nextUid = 1; int depth = 0; u32 slow = 0; std::vector<std::unique_ptr<Node>> free_; };
static World* W;
static const char* pool[] = {"id", "name", "rest", "a", "b_2", "Key"};
static QString q(const std::string& s) { return QString::fromUtf8(s.data(), (int)s.size()); }
static std::string u(const QString& s) { QByteArray b = s.toUtf8(); return std::string(b.constData(), (size_t)b.size()); }
static std::string hex(const std::string& s) { std::string o; for (u8 c : s) o += fmt("%02x", c); return o; }
// ---- model of path matching
static bool word(QChar c) { return c.isLetterOrNumber() || c.isMark() || c == '_' || c == '-'; }
static bool match(const std::vector<Token>& t, size_t i, const QString& s, int at, std::vector<QString>& caps)
{
	if (i == t.size()) return at == s.size();
	const Token& k = t[i];
	if (k.k == Token::Lit) return s.mid(at, k.s.size()) == k.s && match(t, i + 1, s, at + k.s.size(), caps);
	int most = at; while (most < s.size() && (k.k == Token::Splat || word(s.at(most)))) ++most;
	for (int e = most; e >= at + (k.k == Token::Param ? 1 : 0); --e) { caps.push_back(s.mid(at, e - at)); if (match(t, i + 1, s, e, caps)) return true; caps.pop_back(); }
	return false;
}
static QString paramOf(const Params& p, const QString& n) { for (auto i = p.begin(); i != p.end(); ++i) if (i.key().compare(n, Qt::CaseInsensitive) == 0) return i.value(); return QString(); }
static void setParam(Params& p, const QString& n, const QString& v) { for (auto i = p.begin(); i != p.end(); ++i) if (i.key().compare(n, Qt::CaseInsensitive) == 0) { p.erase(i); break; } p[n] = v; }
static Params queryOf(const HReq& r) { Params p; size_t k = r.uri.find('?'); if (k == std::string::npos) return p; std::string s = r.uri.substr(k + 1); s += '&'; std::string cur; for (char c : s) if (c == '&') { size_t e = cur.find('='); QString n = q(srv::refPercentDecode(cur.substr(0, e))); if (e != std::string::npos && paramOf(p, n).isNull()) p[n] = q(srv::refPercentDecode(cur.substr(e + 1))); cur.clear(); } else cur += c; return p; }
// ---- model of dispatch
static void eval(Node* n, const HReq& r, const QString& path, Params& params, std::set<Node*>& doomed, Outcome& o)
{
	if (!n || !n->h || doomed.count(n)) return;
	switch (n->k) {
	case Node::Function: if (n->hasFunction) { o.handled = true; o.why = Outcome::App; o.uid = n->uid; } return;
	case Node::Decline: return;
	case Node::Fixed: o.handled = true; o.why = Outcome::Fixed; o.uid = n->uid; o.status = n->status; o.content = n->content; o.hasContent = true; return;
	case Node::NotFound: o.handled = true; o.why = Outcome::NotFound404; o.status = 404; return;
	case Node::Saboteur: if (W->depth == 1 && n->parent) for (size_t i = 0; i < n->parent->kids.size(); ++i) { Node* k = n->parent->kids[i].get(); if (k != n && k->h && k->uid == n->status) doomed.insert(k); } return;
	case Node::Stack: for (auto& k : n->kids) { eval(k.get(), r, path, params, doomed, o); if (o.handled) return; } return;
	case Node::Router: {
		std::string m = r.method; if (n->methodParam) { QString v = paramOf(params, "_method"); if (!v.isEmpty()) m = u(v); }
		bool any = false; std::set<std::string> allow;
		for (Route& t : n->routes)
		{
			std::vector<QString> caps; if (!match(t.p->t, 0, path, 0, caps)) continue;
			any = true; allow.insert(t.method);
			if (!t.method.empty() && !ieq(t.method, m)) continue;
			for (size_t i = 0; i < caps.size(); ++i) { setParam(params, t.p->names[i], caps[i]); o.touched.insert(t.p->names[i].toLower()); }
			if (t.needsTarget && !t.target) { probe("route-to-destroyed-target"); return; }
			if (t.k == Route::Static) { o.handled = true; o.why = Outcome::Static; o.uid = t.uid; o.status = t.status; o.content = t.content; o.hasContent = true; return; }
			if (t.k == Route::Handler) { eval(t.node, r, path, params, doomed, o); return; }
			o.handled = true; o.why = Outcome::App; o.uid = t.uid; return;
		}
		if (!any && n->notFound) { o.handled = true; o.why = Outcome::Unmatched404; o.status = 404; }
		if (any && n->mismatch) { o.handled = true; o.why = Outcome::Mismatch405; o.status = 405; o.allow = allow; }
		return; }
	}
}
// ---- the application
static void write(Pillow::HttpConnection* c, int id, int uid)
{
	Truth& t = W->truth[id]; Pillow::HttpHeaderCollection h; h << Pillow::HttpHeader("X-By", qb(num(uid))) << Pillow::HttpHeader("X-Req", qb(num(id)));
	for (auto i = t.seen.begin(); i != t.seen.end(); ++i) h << Pillow::HttpHeader(qb("X-P-" + u(i.key())), qb(hex(u(i.value()))));
	t.answered = true; c->writeResponse(200, h, qb("answer of " + num(uid)));
}
}
namespace routed {
void respond(Pillow::HttpConnection* c, int uid)
{
	World& w = *W; HReq* r = reqOf(c); if (!r) { violate("*", "harness", "unknown request"); return; }
	Truth& t = w.truth[r->id]; t.ran.push_back(uid); logf("handler %d gets request %d", uid, r->id);
	if (t.answered || t.ran.size() > 1) return; // reported below
	for (const char* n : pool) { QString v = c->requestParamValue(n); if (!v.isNull()) t.seen[n] = v; }
	if (chance(w.slow, 100)) { QPointer<Pillow::HttpConnection> p(c); int id = r->id; appLater(draw(200000) * us, [p, id, uid]() { if (p && W->current.count(p) && W->current[p] == id) write(p, id, uid); }); }
	else write(c, r->id, uid);
}
}
namespace {
using routed::respond;
struct Decliner : Pillow::HttpHandler { bool handleRequest(Pillow::HttpConnection*) override { return false; } };
struct Saboteur : Pillow::HttpHandler { Node* n; bool handleRequest(Pillow::HttpConnection*) override { if (W->depth == 1 && n->parent) for (auto& k : n->parent->kids) if (k.get() != n && k->h && k->uid == n->status) { logf("handler %d deletes handler %d", n->uid, k->uid); fault("sibling-deleted"); delete k->h; } return false; } };
static void watch(Pillow::HttpConnection* c)
{
	if (!W->watched.insert(c).second) return;
	QObject::connect(c, &Pillow::HttpConnection::requestCompleted, [](Pillow::HttpConnection* c) { W->current.erase(c); });
	QObject::connect(c, &Pillow::HttpConnection::closed, [](Pillow::HttpConnection* c) { auto i = W->current.find(c); if (i != W->current.end()) { W->truth[i->second].closed = true; W->current.erase(i); } });
}
static std::string outcomeText(const Outcome& o) { switch (o.why) { case Outcome::Declined: return "nobody"; case Outcome::App: return fmt("handler %d", o.uid); case Outcome::Fixed: return fmt("the fixed handler %d", o.uid); case Outcome::Static: return fmt("the static route %d", o.uid); case Outcome::NotFound404: return "the 404 handler"; case Outcome::Unmatched404: return "the router's 404"; default: return "the router's 405"; } }
static void onReady(Pillow::HttpConnection* c)
{
	World& w = *W; HReq* r = reqOf(c); if (!r) { violate("*", "harness", "unknown request announced"); return; }
	watch(c); w.current[c] = r->id; Truth& t = w.truth[r->id]; t.handled = true; if (res) res->nontrivial |= 1;
	t.path = r->uri.substr(0, r->uri.find('?')); t.decoded = q(srv::refPercentDecode(t.path));
	++w.depth; Params params = queryOf(*r); std::set<Node*> doomed; eval(w.root.get(), *r, t.decoded, params, doomed, t.exp); t.exp.params = params;
	logf("request %d %s %s: expected to be handled by %s", r->id, r->method.c_str(), quote(r->uri, 200).c_str(), outcomeText(t.exp).c_str());
	if (t.exp.why == Outcome::App) probe("app-handler"); if (t.exp.why == Outcome::Mismatch405) probe("method-mismatch"); if (t.exp.why == Outcome::Unmatched404) probe("unmatched");
	int id = r->id; bool h = static_cast<Pillow::HttpHandlerStack*>(w.root->h.data())->handleRequest(c); --w.depth;
	if (h != t.exp.handled) violate("H05", h ? "handled-by-none" : "not-handled", fmt("%s was %s, expected to be handled by %s", describe(*r).c_str(), h ? "accepted" : "declined", outcomeText(t.exp).c_str()));
	std::vector<int> want; if (t.exp.why == Outcome::App) want.push_back(t.exp.uid);
	if (t.ran != want) { std::string s; for (int x : t.ran) s += fmt(" %d", x); violate("H05", t.ran.size() > 1 ? "handled-twice" : "wrong-handler", fmt("%s: handlers that ran:%s, expected %s", describe(*r).c_str(), s.c_str(), outcomeText(t.exp).c_str())); }
	if (!h && t.ran.empty() && w.current.count(c) && w.current[c] == id) c->writeResponse(501, Pillow::HttpHeaderCollection() << Pillow::HttpHeader("X-Declined", qb(num(id))), "declined");
}
static void onAnswer(HReq& r)
{
	World& w = *W; Truth& t = w.truth[r.id]; Outcome& o = t.exp; if (!t.handled) { violate("H05", "phantom", fmt("%s was answered without having been announced", describe(r).c_str())); return; }
	std::string d = fmt("%s, to be handled by %s, ", describe(r).c_str(), outcomeText(o).c_str()); int s = r.resp.status; const std::string* by = findHeader(r.resp.headers, "X-By"), *rq = findHeader(r.resp.headers, "X-Req"), *dec = findHeader(r.resp.headers, "X-Declined");
	if (o.why == Outcome::Declined) { if (!dec || *dec != num(r.id)) violate("H05", "wrong-response", d + fmt("was answered %d", s)); return; }
	if (s != o.status) violate("H05", "wrong-status", d + fmt("was answered %d, not %d", s, o.status));
	if (o.why == Outcome::App || o.why == Outcome::Static) { if (!by || *by != num(o.uid)) violate("H05", "wrong-response", d + "was answered by " + (by ? *by : std::string("something else"))); } else if (by || dec) violate("H05", "wrong-response", d + "was answered by something else");
	if (o.why == Outcome::App && (!rq || *rq != num(r.id))) violate("H05", "wrong-response", d + "got the answer of another request");
	if (o.hasContent && !r.head() && r.resp.body != o.content) violate("H05", "wrong-content", d + "got content " + quote(r.resp.body, 100) + ", not " + quote(o.content, 100));
	if (o.why == Outcome::Mismatch405)
	{
		const std::string* a = findHeader(r.resp.headers, "Allow"); std::set<std::string> got; if (a) { std::string cur; for (char c : *a + ",") if (c == ',') { if (!cur.empty()) got.insert(cur); cur.clear(); } else if (c != ' ') cur += c; }
		if (got != o.allow) violate("H05", "wrong-allow", d + "names the methods " + (a ? quote(*a) : std::string("(none)")));
	}
	if (o.why == Outcome::NotFound404 && !r.head()) { if (r.resp.body.find(u(q(t.path))) == std::string::npos) violate("H05", "wrong-content", d + "got a 404 that does not name it: " + quote(r.resp.body, 200)); }
	if (o.why == Outcome::App) for (const char* n : pool)
	{
		QString want = paramOf(o.params, n); std::string name = std::string("X-P-") + n; const std::string* got = findHeader(r.resp.headers, name); bool own = o.touched.count(QString(n).toLower()) > 0; if (own) probe("path-parameter");
		if ((got ? *got : std::string()) != hex(u(want))) violate("H05", own ? "wrong-parameter" : "foreign-parameter", d + fmt("saw parameter %s = %s, its own is %s", n, got ? quote(srv::refPercentDecode(*got)).c_str() : "(none)", quote(u(want)).c_str()));
	}
}
// ---- configuration
static Pattern* newPattern()
{
	World& w = *W; Pattern* p = new Pattern; w.patterns.emplace_back(p); static const char* lits[] = {"a", "users", "x1", "files", "\xc3\xa9t\xc3\xa9", "new doc", "edit", "A"}; std::vector<const char*> names(pool, pool + 6); bool splat = false; u32 n = 1 + draw(4);
	auto take = [&]() { size_t i = draw((u32)names.size()); QString s = names[i]; names.erase(names.begin() + i); p->names.push_back(s); return s; };
	auto add = [&](Token::K k, const QString& s) { Token t; t.k = k; t.s = s; p->t.push_back(t); p->path += k == Token::Lit ? s : k == Token::Param ? ":" + s : "*" + s; };
	for (u32 i = 0; i < n; ++i)
	{
		add(Token::Lit, "/"); u32 k = wpick({5, 4, splat ? 0u : 2u, 1, 1});
		switch (k) { case 0: add(Token::Lit, lits[draw(8)]); break; case 1: add(Token::Param, take()); break; case 2: add(Token::Splat, take()); splat = true; break; case 3: add(Token::Lit, "v,"); add(Token::Param, take()); break; case 4: add(Token::Param, take()); add(Token::Lit, ",v"); break; }
	}
	if (chance(1, 8)) add(Token::Lit, "/");
	return p;
}
static Node* newNode(Node::K k, Node* parent, int depth);
static Target* newTarget() { Target* t = new Target; W->targets.push_back(t); for (int i = 0; i < 3; ++i) t->uid[i] = W->nextUid++; return t; }
static void addRoute(Node* n, int depth)
{
	World& w = *W; auto* router = static_cast<Pillow::HttpHandlerSimpleRouter*>(n->h.data()); Route r; r.p = w.patterns[draw((u32)w.patterns.size())].get();
	static const char* methods[] = {"", "GET", "POST", "DELETE", "get", "PUT", "Post"}; r.method = methods[wpick({4, 4, 3, 2, 1, 1, 1})]; r.uid = w.nextUid++; QByteArray m = qb(r.method); int uid = r.uid; bool noMethod = r.method.empty() && chance(1, 2);
	r.k = (Route::K)wpick({3, 2, 2, 1, 2, 2}); if (r.k == Route::Handler && depth > 2) r.k = Route::Func;
	switch (r.k) {
	case Route::Func: { auto f = [uid](Pillow::HttpConnection* c) { respond(c, uid); }; if (noMethod) router->addRoute(r.p->path, f); else router->addRoute(m, r.p->path, f); break; }
	case Route::Slot: case Route::Name: case Route::Invokable: {
		Target* t = 0; for (Target* x : w.targets) if (chance(1, 2)) { t = x; break; } if (!t) t = newTarget(); r.target = t; r.needsTarget = true; int which = r.k == Route::Invokable ? 2 : (int)draw(2); r.uid = t->uid[which];
		const char* member; if (r.k == Route::Name) { static const char* s[] = {"first", "second"}; member = s[which]; } else if (r.k == Route::Invokable) member = chance(1, 2) ? "invokable" : "invokable(Pillow::HttpConnection*)"; else if (which == 0) member = chance(1, 2) ? SLOT(first(Pillow::HttpConnection*)) : "first(Pillow::HttpConnection*)"; else member = SLOT(second(Pillow::HttpConnection*));
		if (noMethod) router->addRoute(r.p->path, t, member); else router->addRoute(m, r.p->path, t, member); break; }
	case Route::Handler: { static const Node::K ks[] = {Node::Function, Node::Fixed, Node::Router, Node::Stack, Node::Decline}; r.node = newNode(ks[wpick({4, 2, 2, 1, 1})], 0, depth + 1); w.free_.emplace_back(r.node); r.target = r.node->h; r.needsTarget = true; if (noMethod) router->addRoute(r.p->path, r.node->h.data()); else router->addRoute(m, r.p->path, r.node->h.data()); break; }
	case Route::Static: { static const int st[] = {200, 404, 500, 303, 201}; r.status = st[draw(5)]; r.content = chance(1, 5) ? "" : blob((u32)uid, 1 + sizeDraw(300)); Pillow::HttpHeaderCollection h; h << Pillow::HttpHeader("X-By", qb(num(uid))); if (noMethod) router->addRoute(r.p->path, r.status, h, qb(r.content)); else router->addRoute(m, r.p->path, r.status, h, qb(r.content)); break; }
	}
	logf("route %d: %s %s (kind %d)", r.uid, r.method.c_str(), u(r.p->path).c_str(), (int)r.k); n->routes.push_back(r);
}
static void settings(Node* n) { auto* r = static_cast<Pillow::HttpHandlerSimpleRouter*>(n->h.data()); typedef Pillow::HttpHandlerSimpleRouter R; n->notFound = chance(1, 4); n->mismatch = chance(1, 2); n->methodParam = chance(1, 2); r->setUnmatchedRequestAction(n->notFound ? R::Return4xxResponse : R::Passthrough); r->setMethodMismatchAction(n->mismatch ? R::Return4xxResponse : R::Passthrough); r->setAcceptsMethodParam(n->methodParam); }
static void fixedValue(Node* n, bool set) { static const int st[] = {200, 404, 503}; n->status = st[draw(3)]; n->content = chance(1, 5) ? "" : blob((u32)W->nextUid++, 1 + sizeDraw(2000)); if (set) { auto* f = static_cast<Pillow::HttpHandlerFixed*>(n->h.data()); f->setStatusCode(n->status); f->setContent(qb(n->content)); } }
static Node* newNode(Node::K k, Node* parent, int depth)
{
	World& w = *W; Node* n = new Node; n->k = k; n->uid = w.nextUid++; n->parent = parent; QObject* po = parent ? parent->h.data() : 0; int uid = n->uid;
	switch (k) {
	case Node::Function: { std::function<void(Pillow::HttpConnection*)> f = [uid](Pillow::HttpConnection* c) { respond(c, uid); }; if (chance(1, 3)) { n->h = new Pillow::HttpHandlerFunction(po); n->hasFunction = chance(1, 2); if (n->hasFunction) static_cast<Pillow::HttpHandlerFunction*>(n->h.data())->setFunction(f); } else n->h = new Pillow::HttpHandlerFunction(f, po); break; }
	case Node::Decline: n->h = new Decliner; n->h->setParent(po); break;
	case Node::Fixed: fixedValue(n, false); n->h = new Pillow::HttpHandlerFixed(n->status, qb(n->content), po); break;
	case Node::NotFound: n->h = new Pillow::HttpHandler404(po); break;
	case Node::Saboteur: { auto* s = new Saboteur; s->n = n; s->setParent(po); n->h = s; break; }
	case Node::Stack: { n->h = new Pillow::HttpHandlerStack(po); u32 c = draw(4); if (chance(1, 3)) new QObject(n->h); for (u32 i = 0; i < c; ++i) { static const Node::K ks[] = {Node::Decline, Node::Router, Node::Function}; n->kids.emplace_back(newNode(depth > 2 ? Node::Decline : ks[wpick({3, 3, 1})], n, depth + 1)); } break; }
	case Node::Router: { n->h = new Pillow::HttpHandlerSimpleRouter(po); settings(n); u32 c = draw(depth ? 4 : 9); for (u32 i = 0; i < c; ++i) addRoute(n, depth); break; }
	}
	return n;
}
static void collect(Node* n, std::vector<Node*>& out) { if (!n || !n->h) return; out.push_back(n); for (auto& k : n->kids) collect(k.get(), out); for (Route& r : n->routes) collect(r.node, out); }
static void mutate()
{
	World& w = *W; std::vector<Node*> all; collect(w.root.get(), all); Node* n = all[draw((u32)all.size())];
	switch (wpick({3, 3, 2, 2, 2})) {
	case 0: if (n->k == Node::Router) addRoute(n, 2); break;
	case 1: { std::vector<Target*> alive; for (Route& r : n->routes) if (r.needsTarget && r.target) { logf("route target %d destroyed", r.uid); fault("target-destroyed"); QObject* t = r.target; for (auto& x : w.targets) if (x == t) { x = w.targets.back(); w.targets.pop_back(); break; } delete t; break; } break; }
	case 2: if (n != w.root.get()) { logf("handler %d destroyed", n->uid); fault("handler-destroyed"); delete n->h; } break;
	case 3: if (n->k == Node::Router) settings(n); else if (n->k == Node::Fixed) fixedValue(n, true); else if (n->k == Node::Function) { n->hasFunction = !n->hasFunction; int uid = n->uid; static_cast<Pillow::HttpHandlerFunction*>(n->h.data())->setFunction(n->hasFunction ? std::function<void(Pillow::HttpConnection*)>([uid](Pillow::HttpConnection* c) { respond(c, uid); }) : std::function<void(Pillow::HttpConnection*)>()); } break;
	case 4: if (n->k == Node::Stack && n->kids.size() < 8) { static const Node::K ks[] = {Node::Function, Node::Router, Node::Decline, Node::Fixed, Node::NotFound}; n->kids.emplace_back(newNode(ks[draw(5)], n, 2)); } break;
	}
}
static std::string enc(const QString& s, u32 pct) { std::string o; for (char c : u(s)) if ((u8)c <= 32 || (u8)c >= 127 || c == '%' || c == '?' || c == '#' || (c != '/' && chance(pct, 100))) o += fmt(chance(1, 2) ? "%%%02x" : "%%%02X", (u8)c); else o += c; return o; }
static std::string newUri()
{
	World& w = *W; static const char* vals[] = {"42", "a-b_c", "x", "\xc3\xa9", "users", "a b", "x.y", "", "a/b", "100%", "x,v", "new", "_", "-"}; QString s; bool nul = false;
	if (chance(1, 12)) { static const char* odd[] = {"/", "/users", "//", "/nothing/here", "/a/", "/A", "/%"}; s = odd[draw(6)]; }
	else { Pattern* p = w.patterns[draw((u32)w.patterns.size())].get(); for (Token& t : p->t) s += t.k == Token::Lit ? t.s : t.k == Token::Param ? QString::fromUtf8(vals[wpick({6, 4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 2, 1, 1})]) : QString::fromUtf8(vals[draw(14)]) + (chance(1, 2) ? "/more/x.y" : ""); }
	switch (wpick({20, 1, 1, 1, 1, 1})) { case 1: s += "/"; break; case 2: s = s.toUpper(); break; case 3: s += "x"; break; case 4: s = "/p" + s; break; case 5: nul = true; break; }
	if (s.isEmpty() || s[0] != '/') s = "/" + s;
	std::string e = enc(s, chance(1, 4) ? 25 : 0); if (nul) { e += "%00"; if (chance(1, 2)) e += "x"; probe("nul-in-path"); }
	if (chance(1, 3)) { e += "?"; u32 k = draw(4); for (u32 i = 0; i < k; ++i) { if (i) e += "&"; static const char* mv[] = {"DELETE", "post", "PUT", "GET", "", "PATCH"}; if (chance(1, 3)) e += std::string("_method=") + mv[draw(6)]; else e += std::string(pool[draw(6)]) + "=q" + num(w.nextUid++) + (chance(1, 4) ? "%20" : ""); } }
	return e;
}
static void run(const std::string& prop)
{
	World w; W = &w; bool faults = chance(3, 4); net = randomNet(faults); makeScratch(); w.slow = chance(1, 2) ? 0 : draw(60);
	w.server = listenVia(drawVia(), 8080, onReady); u32 np = 1 + draw(6); for (u32 i = 0; i < np; ++i) newPattern();
	w.root.reset(new Node); w.root->k = Node::Stack; w.root->uid = w.nextUid++; w.root->h = new Pillow::HttpHandlerStack; u32 nk = 1 + draw(5); bool sab = false;
	for (u32 i = 0; i < nk; ++i) { static const Node::K ks[] = {Node::Router, Node::Decline, Node::Function, Node::Stack, Node::Saboteur, Node::Fixed}; Node::K k = ks[i == 0 ? wpick({8, 1, 0, 1, 1}) : wpick({5, 2, 1, 2, 1, 1})]; if (k == Node::Saboteur) sab = true; w.root->kids.emplace_back(newNode(k, w.root.get(), 0)); }
	if (chance(1, 2)) w.root->kids.emplace_back(newNode(Node::NotFound, w.root.get(), 0));
	for (auto& k : w.root->kids) if (k->k == Node::Saboteur) k->status = w.root->kids[draw((u32)w.root->kids.size())]->uid;
	u32 nc = 1 + draw(4); size_t total = 0;
	for (u32 i = 0; i < nc; ++i)
	{
		std::unique_ptr<HClient> cp(new HClient); HClient* c = cp.get(); c->id = (int)i; w.clients.push_back(std::move(cp)); c->pipeline = chance(1, 3) ? 1 + draw(5) : 1; c->splitSend = 20; slowClient(*c, 20000);
		u32 n = 1 + sizeDraw(16);
		for (u32 k = 0; k < n; ++k)
		{
			static const char* ms_[] = {"GET", "POST", "DELETE", "PUT", "HEAD", "OPTIONS"}; std::string m = ms_[wpick({6, 4, 2, 1, 1, 1})]; HReq* r = c->add(m, newUri());
			if (chance(1, 8)) { r->version = "HTTP/1.0"; if (chance(1, 2)) r->headers.push_back({"Connection", "keep-alive"}); } else if (chance(1, 15)) r->headers.push_back({"Connection", "close"});
			if (m == "POST" || m == "PUT") r->body = blob(r->id, 1 + sizeDraw(300));
			r->thinkBefore = chance(1, 4) ? (u64)draw(300) * ms : 0;
			if (chance(5, 100)) { r->abortKind = 1 + draw(2); if (chance(1, 2)) r->abortAfterBytes = sizeDraw(3000); else r->abortDelay = 1 + draw(30000) * us; }
			total += 1;
		}
		c->onDone = onAnswer; c->onOver = [](HReq& r) { if (!r.aborted && W->truth[r.id].handled) violate("H05", "not-answered", fmt("%s: the connection ended without a response", describe(r).c_str())); };
		at((u64)draw(100) * ms, "client-start", [c]() { c->start(); });
	}
	u32 changes = chance(2, 3) ? draw(12) : 0;
	for (u32 i = 0; i < changes; ++i) at((u64)draw(3000) * ms, "reconfigure", []() { appLater(0, mutate); });
	std::vector<Node*> all; collect(w.root.get(), all); size_t nroutes = 0; for (Node* n : all) nroutes += n->routes.size();
	summary(fmt("route handlers=%zu routes=%zu patterns=%u clients=%u requests=%zu changes=%u seg=%d%s", all.size(), nroutes, np, nc, total, changes, net.segMode, sab ? " saboteur" : ""));
	if (!pumpUntilQuiescent()) return;
	for (auto& c : w.clients) for (auto& r : c->reqs) if (!r->over) { if (!r->sent && r->idx > 0 && !c->reqs[r->idx - 1]->over) continue; violate("H05", "left-waiting", fmt("%s, to be handled by %s, was never answered", describe(*r).c_str(), outcomeText(w.truth[r->id].exp).c_str())); }
	for (auto& c : w.clients) { c->stopped = true; for (Session* s : c->sessions) if (!s->finished) { s->finished = true; s->wire->fin(); } }
	pumpUntilQuiescent();
	delete w.server; pumpFor(ms); delete w.root->h; for (auto& n : w.free_) delete n->h; for (Target* t : w.targets) delete t; W = 0; pumpFor(ms); noObjectsLeft("H05", "after everything was deleted");
}
SCENARIO(route, run);
}
#include "scn_route.moc"
