// Scripted HTTP servers outside the process under test (upstreams of the proxy, servers of the network access manager).
#pragma once
#include "harness.h"
namespace up {
using namespace sim;
struct Answer {
	int status = 200; std::string reason = "OK", version = "HTTP/1.1"; Headers headers; // as sent
	std::string body, payload;        // payload: as sent (possibly gzip)
	enum F { None, Length, Chunked, UntilClose } framing = Length; bool gzip = false, invalid = false;
	std::string wire; size_t hundred = 0, headerEnd = 0; bool keep = true, closes = false; u64 closeDelay = 0;
	i64 cut = -1; int cutKind = 1; i64 stall = -1; u64 stallFor = 0;   // stallFor 0: for good
	u64 delay = 0, pause = 0; u32 piece = 0; bool early = false; u64 idleClose = 0; int idleKind = 1;
	bool cutBeforeHeaders() const { return cut >= 0 && (size_t)cut < headerEnd; }
	bool faulty() const { return cut >= 0 || (stall >= 0 && !stallFor) || invalid; }
};
struct Opts { bool faults = false, head = false, data = false; u32 cut = 10, stall = 4, gzip = 10, invalid = 3, idle = 8, untilClose = 1; size_t maxBody = 60000; bool trailers = true, hundred = true, oddStatus = true, auth = false; std::string mark; Headers extra; };
Answer makeAnswer(u32 id, const Opts& o);
struct SrvConn; struct Server;
struct Exchange { // one request as it arrived at a server
	SrvConn* conn = 0; Server* server = 0; Parsed req; Answer a; void* owner = 0; u64 arrivedAt = 0, endedAt = 0, stalledAt = 0; bool complete = false; // complete: the whole request has arrived
	bool started = false, done = false, ended = false, wasReset = false, peerGone = false; size_t base = 0, sent = 0; // ended: the server ended the connection; peerGone: the requester did
	size_t delivered() const; size_t readByApp() const;
};
struct SrvConn : Actor { size_t seenOff = 0, seenNeed = 0, seenAt = 0;
	Server* s = 0; size_t off = 0; std::vector<std::shared_ptr<Exchange>> ex; std::shared_ptr<Exchange> cur, reading; bool over = false, checkQueued = false; u64 closedAt = 0;
	void onData() override; void onFin() override; void onReset() override; void check(); void next(); void step(std::shared_ptr<Exchange> x); void gone();
	bool closedByServer() { return end->closed || toApp().finQueued || toApp().rstDelivered; }
	Dir& toApp() { return end->conn->d[1 - end->side]; }
};
struct Server : ActorListener {
	u32 ip; u16 port; std::vector<SrvConn*> conns; u32 attempts = 0; u64 lastServerClose = 0; bool everClosed = false; std::vector<u64> closes; // when connections were closed by this server without being asked to
	std::function<ConnectPlan()> onConnect;
	std::function<void(std::shared_ptr<Exchange>)> onRequest; // headers have arrived: fill in a (and owner)
	std::function<void(std::shared_ptr<Exchange>)> onComplete; // the whole request has arrived
	std::function<void(std::shared_ptr<Exchange>)> onGone;  // the requester closed the connection before the response was all sent
	Server(u32 i, u16 p) : ip(i), port(p) { listenActor(ip, port, this); }
	ConnectPlan plan() override { ++attempts; ConnectPlan p; p.delay = draw(2000) * us; if (onConnect) { ConnectPlan q = onConnect(); q.delay = p.delay; return q; } return p; }
	Actor* accept(Conn* c) override;
	bool mayBeStale(u64 since) { for (SrvConn* c : conns) if (c->end && (c->end->closed || c->toApp().finQueued) && (!c->toApp().endAt || c->toApp().endAt + 100 * ms >= since)) return true; return false; } // a connection the requester could believe open then
	int open() const { int n = 0; for (SrvConn* c : conns) if (c->end && !c->over) ++n; return n; }
};
}
