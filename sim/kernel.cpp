// Simulation kernel + libc interposition. Compiled without sanitizers.
#include "kernel.h"
#include <limits.h>
#include <sys/stat.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <algorithm>
#include <queue>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/eventfd.h>
#include <linux/futex.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <dlfcn.h>
#include <signal.h>

// ------------------------------------------------------------------ raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
	long ret; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}
static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
	long r = raw6(n, a, b, c, d, e, f);
	if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
	return r;
}

namespace sim {
Result* res = 0; std::string target; bool verbose = false; bool active = false;
u64 now = 1000 * sec; i64 wallSkew = 0; u64 timeLimit = ~0ull, stepLimit = 400000; bool quiescent = false; u64 stepsTaken = 0;
bool timeUp = false;
NetCfg net; AcceptFault acceptFault; u32 connLimit = 0; std::vector<Conn*> conns;
std::function<void(Conn*)> onAppConnect; std::function<void(Conn*, int, const char*, size_t)> onAppWrite;
FileFault fileFault; std::string scratch; std::set<int> scratchFds; u64 eioFired = 0; std::set<std::string> openDenied;
static std::map<int, int> scratchReads;

// ------------------------------------------------------------------ tape
static u64 prng; static const u32* replayTape = 0; static size_t replayLen = 0, replayPos = 0;
static u64 h1 = 1469598103934665603ull, h2 = 1469598103934665603ull;
static inline void mix(u64& h, const void* p, size_t n) { const u8* b = (const u8*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; } }
static u64 splitmix() { u64 z = (prng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void initTape(u64 seed, const u32* r, size_t n) { prng = seed * 0x9e3779b97f4a7c15ull + 0x1234567; splitmix(); replayTape = r; replayLen = n; replayPos = 0; }
u32 draw(u32 n)
{
	if (n <= 1) return 0;
	u32 v;
	if (replayTape) v = replayPos < replayLen ? replayTape[replayPos++] % n : 0;
	else v = (u32)((splitmix() >> 32) * (u64)n >> 32);
	if (res) { if (res->tapeLen < MaxTape) res->tape[res->tapeLen++] = v; res->draws++; }
	return v;
}
u32 sizeDraw(u32 max)
{
	if (max == 0) return 0;
	switch (draw(6)) {
	case 0: return draw(std::min<u32>(max, 8) + 1);
	case 1: return draw(std::min<u32>(max, 128) + 1);
	case 2: return draw(std::min<u32>(max, 2048) + 1);
	case 3: { u32 p = 1u << draw(21); u32 d = draw(3); i64 v = (i64)p + (i64)d - 1; return (u32)std::min<i64>(std::max<i64>(v, 0), max); }
	case 4: return draw(max + 1);
	default: return draw(std::min<u32>(max, 20000) + 1);
	}
}
u32 wpick(std::initializer_list<u32> w) { u32 t = 0; for (u32 x : w) t += x; u32 v = draw(t); u32 i = 0; for (u32 x : w) { if (v < x) return i; v -= x; ++i; } return 0; }

// ------------------------------------------------------------------ log
std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void logf(const char* f, ...)
{
	char b[2048]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	mix(h1, b, n);
	if (verbose) { char o[2200]; int m = snprintf(o, sizeof o, "%12.6f %s\n", (now - 1000 * sec) / 1e9, b); raw(SYS_write, 2, (long)o, m); }
}
static void bump(Counter* c, u32& n, const char* name) { for (u32 i = 0; i < n; ++i) if (!strcmp(c[i].name, name)) { c[i].n++; return; } if (n < MaxCounters) { strncpy(c[n].name, name, NameLen - 1); c[n].n = 1; n++; } }
void fault(const char* k) { if (res) bump(res->faults, res->nFaults, k); logf("FAULT %s", k); }
void probe(const char* k) { if (res) bump(res->probes, res->nProbes, k); }
void summary(const std::string& s) { if (res) { strncpy(res->summary, s.c_str(), sizeof res->summary - 1); } logf("CASE %s", s.c_str()); }
static void fillEnd() { if (!res) return; res->logHash = h1; res->schedHash = h2; res->simNs = now - 1000 * sec; res->steps = stepsTaken; }
void finish() { fillEnd(); if (res) res->finished = 1; raw(SYS_exit_group, 0); __builtin_unreachable(); }
void violate(const char* prop, const char* cls, const std::string& msg)
{
	logf("VIOLATES %s [%s] %s", prop, cls, msg.c_str());
	bool mine = target.empty() || !strcmp(prop, "*"); std::string list = std::string("|") + prop + "|"; if (list.find("|" + target + "|") != std::string::npos) mine = true;
	if (!mine) { if (res) { res->otherViolations++; snprintf(res->otherMsg, sizeof res->otherMsg, "%s [%s] %s", prop, cls, msg.c_str()); } return; }
	if (res) { res->violated = 1; strncpy(res->prop, target.empty() ? prop : target.c_str(), 7); strncpy(res->cls, cls, 63); strncpy(res->msg, msg.c_str(), sizeof res->msg - 1); }
	finish();
}
std::string quote(const std::string& s, size_t max)
{
	std::string o = "\""; for (size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126 || c == '"' || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
	o += "\""; if (s.size() > max) o += fmt("...(%zu bytes)", s.size()); return o;
}

// ------------------------------------------------------------------ events
struct Event { u64 t; u64 seq; const char* label; std::function<void()> fn; };
struct EvCmp { bool operator()(const Event* a, const Event* b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Event*, std::vector<Event*>, EvCmp> queue; static u64 evSeq = 0; static std::set<u64> live;
EventId at(u64 delay, const char* label, std::function<void()> fn) { Event* e = new Event; e->t = now + delay; e->seq = ++evSeq; e->label = label; e->fn = fn; queue.push(e); live.insert(e->seq); return e->seq; }
void cancel(EventId id) { live.erase(id); }
static Event* peekEvent() { while (!queue.empty() && !live.count(queue.top()->seq)) { delete queue.top(); queue.pop(); } return queue.empty() ? 0 : queue.top(); }
static bool inEvent = false; // running simulator code: not a point where threads switch
static void runEvent() { Event* e = peekEvent(); queue.pop(); live.erase(e->seq); if (e->t > now) now = e->t; mix(h2, e->label, strlen(e->label)); std::function<void()> f; f.swap(e->fn); delete e; inEvent = true; f(); inEvent = false; }

// ------------------------------------------------------------------ descriptors
enum { FdBase = 2000 };
struct Lst { int family; std::string key; bool listening; std::deque<Conn*> backlog; sockaddr_storage addr; socklen_t len; int fd; Lst() : family(0), listening(false), len(0), fd(-1) { memset(&addr, 0, sizeof addr); } };
struct SimFd { enum K { Fresh, Sock, Listen, Event } k; int family; bool nonblock; End* end; Lst* lst; u64 counter; SimFd() : k(Fresh), family(0), nonblock(false), end(0), lst(0), counter(0) {} };
static std::map<int, SimFd*> fds; static std::map<std::string, Lst*> appListeners; static std::map<std::string, ActorListener*> actorListeners; static u16 nextPort = 40000; static int nextConn = 1;
static int newFd(SimFd* f) { int fd = FdBase; while (fds.count(fd)) ++fd; fds[fd] = f; return fd; }
static SimFd* get(int fd) { if (fd < FdBase) return 0; auto it = fds.find(fd); return it == fds.end() ? 0 : it->second; }
int openSimFds() { int n = 0; for (auto& p : fds) if (p.second->k != SimFd::Event) ++n; return n; }
int openSimConns() { int n = 0; for (auto& p : fds) if (p.second->k == SimFd::Sock) ++n; return n; }
static int countSockFds() { int n = 0; for (auto& p : fds) if (p.second->k == SimFd::Sock || p.second->k == SimFd::Fresh) ++n; return n; }

Dir& End::rx() { return conn->d[side]; } Dir& End::tx() { return conn->d[1 - side]; } End& End::peer() { return conn->e[1 - side]; }
static std::string keyOf(const sockaddr* a, socklen_t len)
{
	if (a->sa_family == AF_INET) { const sockaddr_in* i = (const sockaddr_in*)a; return fmt("4:%u:%u", (unsigned)ntohl(i->sin_addr.s_addr), (unsigned)ntohs(i->sin_port)); }
	if (a->sa_family == AF_INET6) { const sockaddr_in6* i = (const sockaddr_in6*)a; return fmt("6:1:%u", (unsigned)ntohs(i->sin6_port)); }
	if (a->sa_family == AF_UNIX) { const sockaddr_un* u = (const sockaddr_un*)a; return std::string("u:") + std::string(u->sun_path, strnlen(u->sun_path, len - offsetof(sockaddr_un, sun_path))); }
	return "?";
}
static std::string key4(u32 ip, u16 port) { return fmt("4:%u:%u", (unsigned)ip, (unsigned)port); }
bool appListening(u16 port) { return appListeners.count(key4(0x7f000001, port)) != 0; }
void listenActor(u32 ip, u16 port, ActorListener* l) { actorListeners[ip == 6 ? fmt("6:1:%u", port) : key4(ip, port)] = l; }
void unlistenActor(u32 ip, u16 port) { actorListeners.erase(ip == 6 ? fmt("6:1:%u", port) : key4(ip, port)); }
static void setAddr4(sockaddr_storage& s, socklen_t& l, u32 ip, u16 port) { memset(&s, 0, sizeof s); sockaddr_in* i = (sockaddr_in*)&s; i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(ip); i->sin_port = htons(port); l = sizeof(sockaddr_in); }
static void setAddr6(sockaddr_storage& s, socklen_t& l, u16 port) { memset(&s, 0, sizeof s); sockaddr_in6* i = (sockaddr_in6*)&s; i->sin6_family = AF_INET6; i->sin6_addr.s6_addr[15] = 1; i->sin6_port = htons(port); l = sizeof(sockaddr_in6); }

// ------------------------------------------------------------------ network
static u64 latency(Conn* c) { return (u64)(c->cfg.latMin + (c->cfg.latMax > c->cfg.latMin ? draw(c->cfg.latMax - c->cfg.latMin + 1) : 0)) * us; }
NetCfg randomNet(bool faults)
{
	NetCfg n;
	switch (draw(4)) { case 0: break; case 1: n.latMin = 10; n.latMax = 3000; break; case 2: n.latMin = 100; n.latMax = 200000; break; case 3: n.latMin = 1; n.latMax = 20; break; }
	n.segMode = (int)wpick({3, 5, 2, 2, 2});
	static const u32 caps[] = {1 << 20, 65536, 8192, 2048, 512, 97, 16, 1 << 18};
	n.sndCap = caps[wpick({6, 4, 3, 2, 2, 1, 1, 3})];
	n.delayReturn = chance(1, 2) ? 0 : 10 + draw(50);
	n.subset = chance(1, 2) ? 0 : 50;
	if (faults) {
		n.shortWrite = chance(1, 2) ? 10 + draw(60) : 0;
		n.spuriousEagain = chance(1, 3) ? 50 + draw(200) : 0;
		n.eintr = chance(1, 4) ? 50 : 0;
		n.shortRead = chance(1, 3) ? 30 : 0;
		n.actorSlow = chance(1, 2) ? 30 + draw(60) : 0;
	}
	return n;
}
static void actorRead(End* e); static bool hurry();
static void deliver(Dir* d, End* dst);
static void scheduleDelivery(End* dst)
{
	Dir& d = dst->rx();
	if (d.scheduled || d.rstDelivered) return;
	if (d.inflight.empty() && !(d.finQueued && !d.finDelivered)) return;
	d.scheduled = true;
	at(latency(dst->conn), "deliver", [dst]() { Dir& dd = dst->rx(); dd.scheduled = false; deliver(&dd, dst); });
}
static void deliverRst(End* dst)
{
	Dir& d = dst->rx();
	if (d.rstDelivered) return;
	d.rstDelivered = true; d.endAt = now; d.inflight.clear();
	dst->soErr = ECONNRESET; dst->errConsumed = false;
	dst->tx().inflight.clear();
	logf("net c%d rst->%d", dst->conn->id, dst->side);
	if (dst->actor && !dst->closed) { dst->actor->gotReset = true; dst->actor->onReset(); }
}
void resetConn(Conn* c, int side, u64 delay)
{
	c->e[1 - side].closed = true;
	End* dst = &c->e[side];
	at(delay, "rst", [dst]() { deliverRst(dst); });
}
void breakConn(Conn* c)
{
	for (int i = 0; i < 2; ++i) { End* dst = &c->e[i]; at(latency(c), "rst", [dst]() { deliverRst(dst); }); }
}
static void deliver(Dir* d, End* dst)
{
	Conn* c = dst->conn;
	if (d->rstDelivered) return;
	if (!d->inflight.empty())
	{
		size_t n = d->inflight.size();
		if (!hurry()) switch (c->cfg.segMode) {
		case 1: n = 1 + draw((u32)std::min<size_t>(n, 1u << 30)); if (n < d->inflight.size() && n < 64) { if (d->tiny == 0) n = d->inflight.size(); else d->tiny--; } break;
		case 2: if (d->tiny) { d->tiny--; n = std::min<size_t>(n, 1 + draw(200)); } break;
		case 3: if (d->tiny) { d->tiny--; n = 1; } break;
		case 4: if (d->tiny > 195) { d->tiny--; n = 1 + draw((u32)n); } break;
		}
		if (dst->closed && !dst->actor) { // data for a closed descriptor: the kernel answers with a reset
			d->inflight.clear();
			End* back = &dst->peer(); bool pendingBack = !dst->tx().inflight.empty() || dst->tx().unread() || (dst->tx().finQueued && !dst->tx().finDelivered); (void)back;
			if (!d->finDelivered && !pendingBack) { End* src = &dst->peer(); if (!src->closed) at(latency(c), "rst", [src]() { deliverRst(src); }); d->finDelivered = true; d->endAt = now; }
			return;
		}
		d->rcv.append(d->inflight, 0, n); d->inflight.erase(0, n);
		if (d->rcvOff > 65536 && d->rcvOff * 2 > d->rcv.size()) { d->rcv.erase(0, d->rcvOff); d->rcvOff = 0; }
		logf("net c%d ->%d %zu bytes", c->id, dst->side, n);
		if (dst->actor) actorRead(dst);
		if (!d->inflight.empty()) { scheduleDelivery(dst); return; }
		if (d->finQueued && !d->finDelivered && chance(1, 2)) { scheduleDelivery(dst); return; }
	}
	if (d->inflight.empty() && d->finQueued && !d->finDelivered)
	{
		d->finDelivered = true; d->endAt = now;
		logf("net c%d ->%d fin", c->id, dst->side);
		if (dst->actor) actorRead(dst);
	}
}
static void actorRead(End* e)
{
	if (!e->actor || e->actorReadScheduled) return;
	Actor* a = e->actor; Dir& d = e->rx();
	if (e->closed) { // closed by the actor: data arriving now is answered by a reset
		if (d.unread()) { d.rcvOff = d.rcv.size(); End* p = &e->peer(); if (!p->closed && p->fd >= 0) at(latency(e->conn), "rst", [p]() { deliverRst(p); }); }
		return;
	}
	if (a->readPaused) return;
	bool slow = a->readDelayMax > 0 || (e->conn->cfg.actorSlow && chance(e->conn->cfg.actorSlow, 100));
	auto doRead = [e, a]() {
		e->actorReadScheduled = false;
		if (e->closed) { actorRead(e); return; } if (a->readPaused) return;
		Dir& dd = e->rx();
		size_t n = dd.unread();
		if (a->readChunk && n > a->readChunk && !hurry()) n = a->readChunk;
		if (n) { a->in.append(dd.rcv, dd.rcvOff, n); dd.rcvOff += n; a->onData(); }
		if (e->closed) return;
		if (dd.unread()) actorRead(e);
		else if (dd.inflight.empty() && dd.finDelivered && !a->gotFin) { a->gotFin = true; a->onFin(); }
	};
	if (slow) { e->actorReadScheduled = true; u64 m = a->readDelayMax ? a->readDelayMax : 20 * ms; at((u64)draw(1000) * (m / 1000 + 1), "peer-read", doRead); }
	else doRead();
}
void Actor::resumeReading() { readPaused = false; if (end) actorRead(end); }
bool Actor::dead() const { return !end || end->closed || end->rx().rstDelivered; }
void Actor::send(const std::string& data)
{
	if (!end || end->closed || data.empty() || end->tx().finQueued) return;
	Dir& d = end->tx(); if (d.rstDelivered || end->rx().rstDelivered) return;
	d.inflight += data; d.bytes += data.size();
	logf("peer c%d send %zu", end->conn->id, data.size());
	scheduleDelivery(&end->peer());
}
void Actor::fin() { if (!end || end->closed) return; logf("peer c%d close", end->conn->id); end->closed = true; end->tx().finQueued = true; scheduleDelivery(&end->peer()); }
void Actor::reset() { if (!end || end->closed) return; logf("peer c%d reset", end->conn->id); end->closed = true; End* p = &end->peer(); end->tx().inflight.clear(); at(latency(end->conn), "rst", [p]() { deliverRst(p); }); }

static Conn* newConn(int family)
{
	Conn* c = new Conn; c->id = nextConn++; c->family = family; c->cfg = net;
	for (int i = 0; i < 2; ++i) { c->e[i].conn = c; c->e[i].side = i; c->d[i].cap = net.sndCap; }
	conns.push_back(c); return c;
}
static Conn* connectActorKey(Actor* a, const std::string& key, int family, u32 srcIp)
{
	Conn* c = newConn(family); c->e[0].actor = a; a->end = &c->e[0];
	if (family == AF_UNIX) { for (int i = 0; i < 2; ++i) { memset(&c->addr[i], 0, sizeof c->addr[i]); c->addr[i].ss_family = AF_UNIX; c->addrLen[i] = sizeof(sa_family_t); } }
	else { setAddr4(c->addr[0], c->addrLen[0], srcIp ? srcIp : 0x0a000000 + c->id, 50000 + c->id); }
	logf("net c%d connect %s", c->id, key.c_str());
	at(latency(c), "syn", [c, key]() {
		Actor* a = c->e[0].actor;
		auto it = appListeners.find(key);
		if (it == appListeners.end() || !it->second->listening || it->second->backlog.size() > 200) { c->state = CS_Failed; c->e[0].closed = true; logf("net c%d refused", c->id); a->onConnectFailed(); return; }
		if (c->family != AF_UNIX) { c->addr[1] = it->second->addr; c->addrLen[1] = it->second->len; }
		c->state = CS_Established; it->second->backlog.push_back(c); a->connected = true; logf("net c%d established", c->id); a->onConnected();
	});
	return c;
}
Conn* connectActor(Actor* a, u32 ip, u16 port, u32 srcIp) { return connectActorKey(a, key4(ip, port), AF_INET, srcIp); }
Conn* connectActorLocal(Actor* a, const std::string& path) { return connectActorKey(a, "u:" + path, AF_UNIX, 0); }

// After many steps the network becomes fast, so that slow transfers end within the step limit.
static bool hurry() { return stepsTaken > 120000; }
static size_t capOf(const Dir& d) { return hurry() ? std::max<size_t>(d.cap, 1 << 20) : d.cap; }
// poll status of a simulated descriptor
static short pollState(int fd)
{
	SimFd* f = get(fd);
	if (!f) return POLLNVAL;
	switch (f->k) {
	case SimFd::Event: return (f->counter ? POLLIN : 0) | POLLOUT;
	case SimFd::Listen: return f->lst && !f->lst->backlog.empty() ? POLLIN : 0;
	case SimFd::Fresh: return POLLOUT | POLLHUP;
	case SimFd::Sock: {
		End* e = f->end; Conn* c = e->conn;
		if (c->state == CS_Connecting) return 0;
		if (c->state == CS_Failed) return POLLIN | POLLOUT | POLLERR | POLLHUP;
		Dir& r = e->rx(); Dir& t = e->tx(); short s = 0;
		if (r.unread() || r.finDelivered) s |= POLLIN;
		if (r.rstDelivered) s |= POLLIN | POLLOUT | POLLERR | POLLHUP;
		if (t.inflight.size() + t.unread() < capOf(t) || t.finQueued) s |= POLLOUT;
		return s; }
	}
	return 0;
}

// ------------------------------------------------------------------ threads (token scheduling)
enum TState { T_Run, T_Ready, T_Poll, T_Futex, T_Cond, T_Mutex, T_Join, T_Sleep, T_Dead };
struct Thr { int id; TState st; pollfd* pfd; nfds_t n; u64 deadline; const void* addr; bool timedOut; Thr* joinOn; volatile int sem; void* (*fn)(void*); void* arg; void* ret; pthread_t pt; bool interrupted; };
static std::vector<Thr*> threads; static thread_local Thr* self = 0; static Thr* mainThr = 0;
static void semWait(Thr* t) { while (__atomic_exchange_n(&t->sem, 0, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)&t->sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
static void semPost(Thr* t) { __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE); raw6(SYS_futex, (long)&t->sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static Thr* me() { if (!self && active && threads.empty()) { self = mainThr = new Thr(); self->id = 0; self->st = T_Run; threads.push_back(self); } return self; }
static bool anyReady(Thr* t) { for (nfds_t i = 0; i < t->n; ++i) { int fd = t->pfd[i].fd; if (fd < FdBase) { if (fd < 0) continue; pollfd p = t->pfd[i]; struct timespec z = {0, 0}; if (raw6(SYS_ppoll, (long)&p, 1, (long)&z, 0, 8, 0) > 0) return true; } else if (pollState(fd) & (t->pfd[i].events | POLLERR | POLLHUP | POLLNVAL)) return true; } return false; }
static bool canRun(Thr* t)
{
	switch (t->st) {
	case T_Ready: return true;
	case T_Poll: if (anyReady(t)) return true; if (t->deadline <= now) { t->timedOut = true; return true; } return false;
	case T_Futex: case T_Cond: case T_Sleep: if (t->deadline <= now) { t->timedOut = true; return true; } return false;
	case T_Join: return t->joinOn->st == T_Dead;
	default: return false;
	}
}
u64 stallWindow = 10 * ms;
static u64 spinNow = 0; static u32 spinSteps = 0;
// Give up the token; returns when this thread may run again.
static void reschedule(Thr* s)
{
	for (;;)
	{
		stepsTaken++;
		if (stepsTaken > stepLimit) { if (res) res->nontrivial |= 2; violate("*", "livelock", fmt("no progress: more than %llu scheduler steps in one run", (unsigned long long)stepLimit)); }
		std::vector<Thr*> cand; for (Thr* t : threads) if (t->st != T_Dead && t->st != T_Run && canRun(t)) cand.push_back(t);
		Event* e = peekEvent();
		if (now > timeLimit) { timeUp = true; mainThr->interrupted = true; if (mainThr->st == T_Poll) { cand.clear(); cand.push_back(mainThr); } }
		Thr* next = 0;
		if (!cand.empty())
		{
			if (e && !timeUp && e->t < now) { for (Thr* t : cand) t->timedOut = false; runEvent(); continue; } // a spinning application does not stop the world
			if (e && !timeUp && net.delayReturn && e->t <= now + stallWindow && chance(net.delayReturn, 100)) { for (Thr* t : cand) t->timedOut = false; runEvent(); continue; }
			// computing takes time: a thread that polls until a clock has advanced must see it advance
			if (now != spinNow) { spinNow = now; spinSteps = 0; } else if (++spinSteps > 300) { now += 20 * us; spinNow = now; spinSteps -= 1; }
			next = cand.size() > 1 ? cand[draw((u32)cand.size())] : cand[0];
			for (Thr* t : cand) if (t != next) t->timedOut = false;
		}
		else
		{
			u64 dl = ~0ull; for (Thr* t : threads) if ((t->st == T_Poll || t->st == T_Futex || t->st == T_Cond || t->st == T_Sleep) && t->deadline < dl) dl = t->deadline;
			if (e && e->t <= dl) { runEvent(); continue; }
			if (dl != ~0ull) { if (dl > now) now = dl; continue; }
			if (mainThr->st != T_Poll) { violate("*", "deadlock", "every thread is blocked and nothing is scheduled"); }
			quiescent = true; mainThr->interrupted = true; next = mainThr;
		}
		u32 id = next->id; mix(h2, &id, 4);
		next->st = T_Run;
		if (next == s) return;
		semPost(next);
		if (s->st == T_Dead) return;
		semWait(s);
		return;
	}
}
static void yieldPoint() { if (inEvent) return; Thr* s = me(); if (!s || threads.size() < 2) return; bool other = false; for (Thr* t : threads) if (t != s && t->st != T_Dead) other = true; if (!other || !chance(1, 4)) return; s->st = T_Ready; s->timedOut = false; reschedule(s); }
void schedulePoint(const char*) { yieldPoint(); }
static void* threadMain(void* p) { Thr* t = (Thr*)p; self = t; semWait(t); t->ret = t->fn(t->arg); t->st = T_Dead; reschedule(t); return t->ret; }
static u64 absDeadline(const struct timespec* ts) { return ts ? now + (u64)ts->tv_sec * sec + (u64)ts->tv_nsec : ~0ull; }
static const u64 wallEpoch = 1700000000ull * sec;
static void fillClock(clockid_t c, struct timespec* ts)
{
	u64 v = now; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v = wallEpoch + now + wallSkew; if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) v = now - 1000 * sec;
	ts->tv_sec = v / sec; ts->tv_nsec = v % sec;
}

// ------------------------------------------------------------------ socket calls
static int err(int e) { errno = e; return -1; }
static ssize_t sockRead(End* e, char* buf, size_t len)
{
	Conn* c = e->conn; if (c->state == CS_Connecting) return err(ENOTCONN); if (c->state == CS_Failed) { return err(e->soErr ? e->soErr : ENOTCONN); }
	Dir& r = e->rx();
	if (c->cfg.eintr && chance(c->cfg.eintr, 1000)) { fault("eintr-read"); return err(EINTR); }
	size_t n = std::min(len, r.unread());
	if (n)
	{
		if (n > 1 && c->cfg.shortRead && chance(c->cfg.shortRead, 100)) { n = 1 + draw((u32)n); fault("short-read"); }
		memcpy(buf, r.rcv.data() + r.rcvOff, n); r.rcvOff += n; logf("sys c%d read %zu", c->id, n);
		return (ssize_t)n;
	}
	if (r.rstDelivered) { if (!e->errConsumed) { e->errConsumed = true; logf("sys c%d read ECONNRESET", c->id); return err(ECONNRESET); } return 0; }
	if (r.finDelivered) { logf("sys c%d read eof", c->id); return 0; }
	return err(EAGAIN);
}
static ssize_t sockWrite(End* e, const char* buf, size_t len)
{
	Conn* c = e->conn; if (c->state == CS_Connecting) return err(EAGAIN); if (c->state == CS_Failed) return err(EPIPE);
	Dir& t = e->tx();
	if (e->rx().rstDelivered) { if (!e->errConsumed) { e->errConsumed = true; logf("sys c%d write ECONNRESET", c->id); fault("write-econnreset"); return err(ECONNRESET); } logf("sys c%d write EPIPE", c->id); fault("write-epipe"); return err(EPIPE); }
	if (t.finQueued) return err(EPIPE);
	if (c->cfg.eintr && chance(c->cfg.eintr, 1000)) { fault("eintr-write"); return err(EINTR); }
	if (c->cfg.spuriousEagain && chance(c->cfg.spuriousEagain, 1000)) { fault("write-eagain"); return err(EAGAIN); }
	size_t used = t.inflight.size() + t.unread();
	if (used >= capOf(t)) { probe("send-buffer-full"); return err(EAGAIN); }
	size_t n = std::min(len, capOf(t) - used);
	if (n < len) fault("partial-write");
	if (n > 1 && c->cfg.shortWrite && chance(c->cfg.shortWrite, 100)) { n = 1 + draw((u32)n); fault("short-write"); }
	t.inflight.append(buf, n); t.bytes += n; logf("sys c%d write %zu/%zu", c->id, n, len);
	if (onAppWrite) onAppWrite(c, e->side, buf, n);
	End& p = e->peer();
	if (p.closed && p.actor) { t.inflight.clear(); End* s = e; at(latency(c), "rst", [s]() { if (!s->closed) deliverRst(s); }); }
	else scheduleDelivery(&p);
	return (ssize_t)n;
}
static int doConnect(int fd, SimFd* f, const sockaddr* a, socklen_t len)
{
	if (f->k == SimFd::Sock) {
		Conn* c = f->end->conn;
		if (c->state == CS_Established) return err(EISCONN);
		if (c->state == CS_Connecting) return err(EALREADY);
		int s = f->end->soErr ? f->end->soErr : ECONNREFUSED; return err(s);
	}
	std::string key = keyOf(a, len);
	Conn* c = newConn(a->sa_family); f->k = SimFd::Sock; f->end = &c->e[0]; c->e[0].fd = fd;
	if (a->sa_family == AF_INET6) { setAddr6(c->addr[0], c->addrLen[0], nextPort++); setAddr6(c->addr[1], c->addrLen[1], ntohs(((const sockaddr_in6*)a)->sin6_port)); }
	else if (a->sa_family == AF_INET) { setAddr4(c->addr[0], c->addrLen[0], 0x7f000001, nextPort++); memcpy(&c->addr[1], a, len); c->addrLen[1] = len; }
	else { memset(c->addr, 0, sizeof c->addr); c->addr[0].ss_family = AF_UNIX; c->addrLen[0] = sizeof(sa_family_t); memcpy(&c->addr[1], a, len); c->addrLen[1] = len; }
	logf("sys c%d connect %s", c->id, key.c_str());
	if (onAppConnect) onAppConnect(c);
	auto it = actorListeners.find(key); ActorListener* al = it == actorListeners.end() ? 0 : it->second;
	ConnectPlan plan; if (al) plan = al->plan();
	if (plan.k == ConnectPlan::Hang) { fault("connect-hang"); return err(EINPROGRESS); }
	if (plan.k == ConnectPlan::Timeout) { fault("connect-timeout"); at(20 * sec, "connect-timeout", [c]() { c->state = CS_Failed; c->e[0].soErr = ETIMEDOUT; }); return err(EINPROGRESS); }
	if (plan.k == ConnectPlan::Unreachable) { fault("connect-unreachable"); at(latency(c), "connect-unreach", [c]() { c->state = CS_Failed; c->e[0].soErr = EHOSTUNREACH; }); return err(EINPROGRESS); }
	if (plan.k == ConnectPlan::Refuse) { fault("connect-refused"); at(latency(c), "connect-refused", [c]() { c->state = CS_Failed; c->e[0].soErr = ECONNREFUSED; logf("net c%d refused", c->id); }); return err(EINPROGRESS); }
	bool unix_ = a->sa_family == AF_UNIX;
	auto establish = [c, key]() {
		auto it = actorListeners.find(key); auto ap = appListeners.find(key);
		if (c->e[0].closed) return;
		if (it != actorListeners.end()) {
			Actor* ac = it->second->accept(c);
			if (!ac) { c->state = CS_Failed; c->e[0].soErr = ECONNREFUSED; return; }
			c->state = CS_Established; c->accepted = true; ac->end = &c->e[1]; c->e[1].actor = ac; ac->connected = true; logf("net c%d established", c->id); ac->onConnected();
		} else if (ap != appListeners.end() && ap->second->listening) {
			c->state = CS_Established; ap->second->backlog.push_back(c); logf("net c%d established", c->id);
		} else { c->state = CS_Failed; c->e[0].soErr = ECONNREFUSED; fault("connect-refused"); logf("net c%d refused", c->id); }
	};
	if (unix_) { establish(); if (c->state == CS_Failed) return err(ECONNREFUSED); return 0; }
	at(latency(c) + plan.delay, "connect", establish);
	return err(EINPROGRESS);
}
static int doAccept(SimFd* f, sockaddr* a, socklen_t* len, int flags)
{
	Lst* l = f->lst;
	if (!l || l->backlog.empty()) return err(EAGAIN);
	if (connLimit && (u32)countSockFds() >= connLimit) { fault("accept-emfile"); logf("sys accept EMFILE"); now += 100 * us; return err(EMFILE); }
	if (acceptFault.enabled && acceptFault.per1000 && chance(acceptFault.per1000, 1000)) {
		switch (draw(3)) {
		case 0: { fault("accept-econnaborted"); Conn* c = l->backlog.front(); l->backlog.pop_front(); c->e[1].closed = true; End* p = &c->e[0]; at(latency(c), "rst", [p]() { deliverRst(p); }); logf("sys accept ECONNABORTED"); return err(ECONNABORTED); }
		case 1: fault("accept-emfile"); logf("sys accept EMFILE"); now += 100 * us; return err(EMFILE);
		default: fault("accept-enobufs"); logf("sys accept ENOBUFS"); return err(ENOBUFS);
		}
	}
	Conn* c = l->backlog.front(); l->backlog.pop_front(); c->accepted = true;
	SimFd* n = new SimFd; n->k = SimFd::Sock; n->family = c->family; n->end = &c->e[1]; n->nonblock = flags & SOCK_NONBLOCK;
	int fd = newFd(n); c->e[1].fd = fd;
	if (a && len) { socklen_t k = std::min(*len, c->addrLen[0]); memcpy(a, &c->addr[0], k); *len = c->addrLen[0]; }
	logf("sys c%d accept fd%d", c->id, fd);
	return fd;
}
static int doClose(int fd, SimFd* f)
{
	fds.erase(fd);
	if (f->k == SimFd::Sock) {
		End* e = f->end; e->fd = -1; e->closed = true; logf("sys c%d close", e->conn->id);
		Dir& t = e->tx(); if (!t.finQueued) { t.finQueued = true; }
		if (e->conn->state == CS_Established) scheduleDelivery(&e->peer());
	} else if (f->k == SimFd::Listen && f->lst) {
		appListeners.erase(f->lst->key); logf("sys close listener %s", f->lst->key.c_str());
		for (Conn* c : f->lst->backlog) { c->e[1].closed = true; End* p = &c->e[0]; at(latency(c), "rst", [p]() { deliverRst(p); }); }
		if (f->family == AF_UNIX) { }
		delete f->lst;
	}
	delete f; return 0;
}
static int doBind(int fd, SimFd* f, const sockaddr* a, socklen_t len)
{
	sockaddr_storage s; memset(&s, 0, sizeof s); memcpy(&s, a, len);
	if (s.ss_family == AF_INET && ((sockaddr_in*)&s)->sin_port == 0) ((sockaddr_in*)&s)->sin_port = htons(nextPort++);
	if (s.ss_family == AF_INET6 && ((sockaddr_in6*)&s)->sin6_port == 0) ((sockaddr_in6*)&s)->sin6_port = htons(nextPort++);
	std::string key = keyOf((sockaddr*)&s, len);
	if (appListeners.count(key) || actorListeners.count(key)) return err(EADDRINUSE);
	Lst* l = new Lst; l->family = f->family; l->key = key; l->addr = s; l->len = len; l->fd = fd; f->lst = l; f->k = SimFd::Listen; appListeners[key] = l;
	return 0;
}
static ssize_t eventRead(SimFd* f, void* buf, size_t len) { if (len < 8) return err(EINVAL); if (!f->counter) return err(EAGAIN); memcpy(buf, &f->counter, 8); f->counter = 0; return 8; }
static ssize_t eventWrite(SimFd* f, const void* buf, size_t len) { if (len < 8) return err(EINVAL); u64 v; memcpy(&v, buf, 8); f->counter += v; return 8; }

static ssize_t fileRead(int fd, void* buf, size_t len)
{
	int k = scratchReads[fd]++;
	if (fileFault.eintr && chance(fileFault.eintr, 100)) { fault("file-eintr"); return err(EINTR); }
	if ((fileFault.eioAfterReads >= 0 && k >= fileFault.eioAfterReads) || (fileFault.eio && chance(fileFault.eio, 100))) { fault("file-eio"); eioFired++; return err(EIO); }
	if (len > 1 && fileFault.shortRead && chance(fileFault.shortRead, 100)) { len = 1 + draw((u32)std::min<size_t>(len, 1u << 30)); fault("file-short-read"); }
	ssize_t r = raw(SYS_read, fd, (long)buf, len); logf("sys file read %zd", r); return r;
}
static const u64 randState0 = 0x1234567890abcdefull; static u64 randState = randState0;
static void fillRandom(void* p, size_t n) { u8* b = (u8*)p; for (size_t i = 0; i < n; ++i) { randState = randState * 6364136223846793005ull + 1442695040888963407ull; b[i] = (u8)(randState >> 56); } }
static int doPoll(pollfd* p, nfds_t n, u64 deadline)
{
	Thr* s = me();
	s->pfd = p; s->n = n; s->deadline = deadline; s->timedOut = false; s->interrupted = false; s->st = T_Poll;
	reschedule(s);
	int cnt = 0; std::vector<nfds_t> ready;
	for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (p[i].fd < 0) continue; if (p[i].fd < FdBase) { pollfd q = p[i]; struct timespec z = {0, 0}; if (raw6(SYS_ppoll, (long)&q, 1, (long)&z, 0, 8, 0) > 0) { p[i].revents = q.revents; ++cnt; } continue; } short st = pollState(p[i].fd) & (p[i].events | POLLERR | POLLHUP | POLLNVAL); if (st) { p[i].revents = st; ++cnt; ready.push_back(i); } }
	if (ready.size() > 1 && net.subset && chance(net.subset, 100)) {
		u32 keep = draw((u32)ready.size()); for (size_t k = 0; k < ready.size(); ++k) if (k != keep && chance(1, 2)) { p[ready[k]].revents = 0; --cnt; }
	}
	return cnt;
}
} // namespace sim
using namespace sim;

// ==================================================================== interposed symbols
#define ON (sim::active)
extern "C" {
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

int socket(int domain, int type, int proto)
{
	if (!ON || (domain != AF_INET && domain != AF_INET6 && domain != AF_UNIX)) { if (ON) { errno = EAFNOSUPPORT; return -1; } return (int)raw(SYS_socket, domain, type, proto); }
	if ((type & 0xf) != SOCK_STREAM) { errno = EPROTONOSUPPORT; return -1; }
	SimFd* f = new SimFd; f->family = domain; f->nonblock = type & SOCK_NONBLOCK; return newFd(f);
}
int bind(int fd, const struct sockaddr* a, socklen_t l) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_bind, fd, (long)a, l); return doBind(fd, f, a, l); }
int listen(int fd, int b) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_listen, fd, b); if (!f->lst) { errno = EINVAL; return -1; } f->lst->listening = true; return 0; }
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_accept4, fd, (long)a, (long)l, fl); return doAccept(f, a, l, fl); }
int accept(int fd, struct sockaddr* a, socklen_t* l) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_accept, fd, (long)a, (long)l); return doAccept(f, a, l, 0); }
int connect(int fd, const struct sockaddr* a, socklen_t l) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_connect, fd, (long)a, l); return doConnect(fd, f, a, l); }
int getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
	SimFd* f = get(fd); if (!f) return (int)raw(SYS_getsockname, fd, (long)a, (long)l);
	if (f->k == SimFd::Listen) { memcpy(a, &f->lst->addr, std::min(*l, f->lst->len)); *l = f->lst->len; return 0; }
	if (f->k == SimFd::Sock) { Conn* c = f->end->conn; int s = f->end->side; memcpy(a, &c->addr[s], std::min(*l, c->addrLen[s])); *l = c->addrLen[s]; return 0; }
	sockaddr_storage s; memset(&s, 0, sizeof s); s.ss_family = f->family; socklen_t n = f->family == AF_INET ? sizeof(sockaddr_in) : f->family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sa_family_t); memcpy(a, &s, std::min(*l, n)); *l = n; return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l)
{
	SimFd* f = get(fd); if (!f) return (int)raw(SYS_getpeername, fd, (long)a, (long)l);
	if (f->k != SimFd::Sock || f->end->conn->state != CS_Established || f->end->rx().rstDelivered) { errno = ENOTCONN; return -1; }
	Conn* c = f->end->conn; int s = 1 - f->end->side; memcpy(a, &c->addr[s], std::min(*l, c->addrLen[s])); *l = c->addrLen[s]; return 0;
}
int getsockopt(int fd, int lv, int op, void* v, socklen_t* l)
{
	SimFd* f = get(fd); if (!f) return (int)raw(SYS_getsockopt, fd, lv, op, (long)v, (long)l);
	int x = 0;
	if (lv == SOL_SOCKET && op == SO_TYPE) x = SOCK_STREAM;
	else if (lv == SOL_SOCKET && op == SO_ERROR) { if (f->k == SimFd::Sock && !f->end->errConsumed) { x = f->end->soErr; } }
	else if (lv == SOL_SOCKET && (op == SO_SNDBUF || op == SO_RCVBUF)) x = 65536;
	if (v && l && *l >= sizeof(int)) { memcpy(v, &x, sizeof x); *l = sizeof x; } return 0;
}
int setsockopt(int fd, int lv, int op, const void* v, socklen_t l) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_setsockopt, fd, lv, op, (long)v, l); return 0; }
int shutdown(int fd, int how) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_shutdown, fd, how); if (f->k != SimFd::Sock) { errno = ENOTCONN; return -1; } if (how != SHUT_RD) { f->end->tx().finQueued = true; scheduleDelivery(&f->end->peer()); } return 0; }
int close(int fd)
{
	SimFd* f = get(fd); if (!f) { if (ON) { scratchFds.erase(fd); scratchReads.erase(fd); } return (int)raw(SYS_close, fd); }
	if (f->k == SimFd::Event) { fds.erase(fd); delete f; return 0; }
	return doClose(fd, f);
}
ssize_t read(int fd, void* b, size_t n)
{
	SimFd* f = get(fd); if (!f) { if (ON && scratchFds.count(fd)) return fileRead(fd, b, n); return raw(SYS_read, fd, (long)b, n); }
	if (f->k == SimFd::Event) return eventRead(f, b, n);
	if (f->k != SimFd::Sock) { errno = ENOTCONN; return -1; }
	return sockRead(f->end, (char*)b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
	SimFd* f = get(fd); if (!f) return raw(SYS_write, fd, (long)b, n);
	if (f->k == SimFd::Event) { ssize_t r = eventWrite(f, b, n); yieldPoint(); return r; }
	if (f->k != SimFd::Sock) { errno = EPIPE; return -1; }
	return sockWrite(f->end, (const char*)b, n);
}
ssize_t recv(int fd, void* b, size_t n, int fl) { SimFd* f = get(fd); if (!f) return raw(SYS_recvfrom, fd, (long)b, n, fl, 0, 0); if (f->k != SimFd::Sock) { errno = ENOTCONN; return -1; } if (fl & MSG_PEEK) { Dir& r = f->end->rx(); size_t k = std::min(n, r.unread()); if (k) { memcpy(b, r.rcv.data() + r.rcvOff, k); return (ssize_t)k; } if (r.rstDelivered) { errno = ECONNRESET; return -1; } if (r.finDelivered) return 0; errno = EAGAIN; return -1; } return sockRead(f->end, (char*)b, n); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { SimFd* f = get(fd); if (!f) return raw(SYS_recvfrom, fd, (long)b, n, fl, (long)a, (long)l); return recv(fd, b, n, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) { SimFd* f = get(fd); if (!f) return raw(SYS_sendto, fd, (long)b, n, fl, 0, 0); return write(fd, b, n); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { SimFd* f = get(fd); if (!f) return raw(SYS_sendto, fd, (long)b, n, fl, (long)a, l); return write(fd, b, n); }
ssize_t recvmsg(int fd, struct msghdr* m, int fl) { SimFd* f = get(fd); if (!f) return raw(SYS_recvmsg, fd, (long)m, fl); if (!m->msg_iovlen) return 0; return recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, fl); }
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { SimFd* f = get(fd); if (!f) return raw(SYS_sendmsg, fd, (long)m, fl); if (!m->msg_iovlen) return 0; return write(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len); }
ssize_t readv(int fd, const struct iovec* v, int c) { SimFd* f = get(fd); if (!f) return raw(SYS_readv, fd, (long)v, c); return read(fd, v[0].iov_base, v[0].iov_len); }
ssize_t writev(int fd, const struct iovec* v, int c) { SimFd* f = get(fd); if (!f) return raw(SYS_writev, fd, (long)v, c); return write(fd, v[0].iov_base, v[0].iov_len); }
int ioctl(int fd, unsigned long req, ...)
{
	va_list a; va_start(a, req); long p = va_arg(a, long); va_end(a);
	SimFd* f = get(fd); if (!f) return (int)raw(SYS_ioctl, fd, req, p);
	if (req == FIONREAD) { *(int*)p = f->k == SimFd::Sock ? (int)std::min<size_t>(f->end->rx().unread(), 0x7fffffff) : 0; return 0; }
	if (req == FIONBIO) { f->nonblock = *(int*)p; return 0; }
	return 0;
}
static int fcntlImpl(int fd, int cmd, long arg) { SimFd* f = get(fd); if (!f) return (int)raw(SYS_fcntl, fd, cmd, arg); if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0); if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; } return 0; }
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long p = va_arg(a, long); va_end(a); return fcntlImpl(fd, cmd, p); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long p = va_arg(a, long); va_end(a); return fcntlImpl(fd, cmd, p); }
int eventfd(unsigned int v, int fl) { if (!ON) return (int)raw(SYS_eventfd2, v, fl); SimFd* f = new SimFd; f->k = SimFd::Event; f->counter = v; return newFd(f); }
int eventfd_read(int fd, eventfd_t* v) { return read(fd, v, 8) == 8 ? 0 : -1; }
int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, 8) == 8 ? 0 : -1; }
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t* ss)
{
	if (!ON || !me()) { struct timespec t; if (ts) t = *ts; return (int)raw(SYS_ppoll, (long)p, n, ts ? (long)&t : 0, (long)ss, 8); }
	return doPoll(p, n, absDeadline(ts));
}
int poll(struct pollfd* p, nfds_t n, int to)
{
	if (!ON || !me()) return (int)raw(SYS_poll, (long)p, n, to);
	return doPoll(p, n, to < 0 ? ~0ull : now + (u64)to * ms);
}
int clock_gettime(clockid_t c, struct timespec* ts) { if (!ON) return (int)raw(SYS_clock_gettime, c, (long)ts); fillClock(c, ts); return 0; }
int gettimeofday(struct timeval* tv, void* tz) { if (!ON) return (int)raw(SYS_gettimeofday, (long)tv, (long)tz); struct timespec ts; fillClock(CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
static int sleepImpl(u64 ns) { Thr* s = me(); s->st = T_Sleep; s->timedOut = false; s->deadline = now + ns; reschedule(s); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!ON || !me()) return (int)raw(SYS_nanosleep, (long)a, (long)b); return sleepImpl((u64)a->tv_sec * sec + a->tv_nsec); }
int usleep(useconds_t u) { if (!ON || !me()) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)raw(SYS_nanosleep, (long)&t, 0); } return sleepImpl((u64)u * us); }
int sched_yield() { if (!ON || !me()) return (int)raw(SYS_sched_yield); Thr* s = me(); s->st = T_Ready; reschedule(s); return 0; }

// files
static bool underScratch(const char* p) { return ON && !scratch.empty() && !strncmp(p, scratch.c_str(), scratch.size()); }
static bool deniedOpen(const char* p) { if (openDenied.count(p)) { struct stat st; if (lstat(p, &st) || !S_ISLNK(st.st_mode)) return true; } char r[PATH_MAX]; return realpath(p, r) && openDenied.count(r); }
static int openImpl(const char* p, int fl, mode_t m)
{
	if (!openDenied.empty() && underScratch(p) && (fl & O_ACCMODE) == O_RDONLY && deniedOpen(p)) { fault("open-eacces"); errno = EACCES; return -1; }
	int fd = (int)raw(SYS_openat, AT_FDCWD, (long)p, fl, m);
	if (fd >= 0 && underScratch(p)) { scratchFds.insert(fd); scratchReads[fd] = 0; logf("sys open file"); }
	return fd;
}
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (mode_t)va_arg(a, int); va_end(a); return openImpl(p, fl | O_LARGEFILE, (fl & O_CREAT) ? m : 0); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (mode_t)va_arg(a, int); va_end(a); return openImpl(p, fl, (fl & O_CREAT) ? m : 0); }

// randomness
int getentropy(void* b, size_t n) { if (!ON) { return raw(SYS_getrandom, (long)b, n, 0) == (long)n ? 0 : -1; } fillRandom(b, n); return 0; }
ssize_t getrandom(void* b, size_t n, unsigned fl) { if (!ON) return raw(SYS_getrandom, (long)b, n, fl); fillRandom(b, n); return (ssize_t)n; }

// threads
long syscall(long n, ...)
{
	va_list a; va_start(a, n); long x[6]; for (int i = 0; i < 6; ++i) x[i] = va_arg(a, long); va_end(a);
	if (!ON) return raw(n, x[0], x[1], x[2], x[3], x[4], x[5]);
	if (n == SYS_getrandom) { fillRandom((void*)x[0], (size_t)x[1]); return x[1]; }
	if (n == SYS_futex && me())
	{
		int op = (int)x[1] & 127; int* addr = (int*)x[0];
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
		{
			if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)x[2]) { errno = EAGAIN; return -1; }
			Thr* s = me(); s->st = T_Futex; s->addr = addr; s->timedOut = false; s->deadline = x[3] ? now + (u64)((struct timespec*)x[3])->tv_sec * sec + ((struct timespec*)x[3])->tv_nsec : ~0ull;
			reschedule(s);
			if (s->timedOut) { errno = ETIMEDOUT; return -1; } return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET || op == FUTEX_WAKE_OP)
		{
			std::vector<Thr*> w; for (Thr* t : threads) if (t->st == T_Futex && t->addr == addr) w.push_back(t);
			long k = 0; while (!w.empty() && k < x[2]) { size_t i = w.size() > 1 ? draw((u32)w.size()) : 0; w[i]->st = T_Ready; w.erase(w.begin() + i); ++k; }
			if (op == FUTEX_WAKE_OP) { int* a2 = (int*)x[4]; int opa = ((int)x[5] >> 12) & 0xfff; __atomic_store_n(a2, opa, __ATOMIC_SEQ_CST); for (Thr* t : threads) if (t->st == T_Futex && t->addr == a2) { t->st = T_Ready; ++k; } }
			yieldPoint();
			return k;
		}
	}
	return raw(n, x[0], x[1], x[2], x[3], x[4], x[5]);
}
int pthread_create(pthread_t* pt, const pthread_attr_t* at_, void* (*fn)(void*), void* arg)
{
	static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
	if (!ON || !me()) return real(pt, at_, fn, arg);
	Thr* t = new Thr(); t->id = (int)threads.size(); t->st = T_Ready; t->fn = fn; t->arg = arg; t->sem = 0; t->deadline = ~0ull; threads.push_back(t);
	int r = real(pt, at_, threadMain, t); t->pt = *pt; logf("thread %d created", t->id); yieldPoint(); return r;
}
int pthread_join(pthread_t pt, void** ret)
{
	static int (*real)(pthread_t, void**) = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
	if (ON && me()) for (Thr* t : threads) if (t->pt == pt && t->id) { if (t->st != T_Dead) { Thr* s = me(); s->st = T_Join; s->joinOn = t; reschedule(s); } break; }
	return real(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
	static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if (!ON || threads.size() < 2 || !self) return real(m);
	while (pthread_mutex_trylock(m) == EBUSY) { Thr* s = self; s->st = T_Ready; reschedule(s); }
	return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline)
{
	Thr* s = me(); s->st = T_Cond; s->addr = c; s->timedOut = false; s->deadline = deadline;
	pthread_mutex_unlock(m); reschedule(s); bool to = s->timedOut; pthread_mutex_lock(m); return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	static int (*real)(pthread_cond_t*, pthread_mutex_t*) = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
	if (!ON || !me()) return real(c, m); return condWait(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	static int (*real)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*) = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlsym(RTLD_NEXT, "pthread_cond_timedwait");
	if (!ON || !me()) return real(c, m, ts);
	u64 t = (u64)ts->tv_sec * sec + ts->tv_nsec; if (t > wallEpoch / 2) t = t > wallEpoch + wallSkew ? t - wallEpoch - wallSkew : 0; return condWait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t* c)
{
	static int (*real)(pthread_cond_t*) = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal");
	if (!ON || !me()) return real(c);
	std::vector<Thr*> w; for (Thr* t : threads) if (t->st == T_Cond && t->addr == c) w.push_back(t);
	if (!w.empty()) w[w.size() > 1 ? draw((u32)w.size()) : 0]->st = T_Ready; return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	static int (*real)(pthread_cond_t*) = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
	if (!ON || !me()) return real(c);
	for (Thr* t : threads) if (t->st == T_Cond && t->addr == c) t->st = T_Ready; return 0;
}
} // extern "C"
