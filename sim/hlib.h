// A simulated HTTP client that runs a list of requests against the server under test (handlers' scenarios).
#pragma once
#include "srvlib.h"
namespace hc {
using namespace sim;
struct HClient; struct Session;
enum Via { Tcp, Tls, Local };
extern const char* viaName[];
QObject* listenVia(Via v, u16 port, void (*ready)(Pillow::HttpConnection*)); // a server of that kind; clients made from now on connect to it
Via drawVia(u32 tcp = 10);
extern Via currentVia;
struct HReq {
	int id = 0; HClient* client = 0; int idx = 0;
	std::string method = "GET", uri, version = "HTTP/1.1", body; Headers headers;
	std::string wire() const;
	bool head() const { return method == "HEAD"; }
	// client behaviour while this request is outstanding
	i64 abortAfterBytes = -1; u64 abortDelay = 0; int abortKind = 0; // 1 fin, 2 reset
	u64 thinkBefore = 0;
	// results
	Session* session = 0; u64 sentAt = 0, doneAt = 0; bool sent = false, done = false, over = false, aborted = false, ended = false; // ended: connection ended before the response was complete
	bool wasReset = false; Parsed resp; size_t got = 0, parsedAt = 0, respOff = 0; // got: bytes received for this response
};
struct Session : srv::Logic {
	HClient* c = 0; int n = 0; size_t off = 0; std::deque<HReq*> waiting; bool checkQueued = false, finished = false, aborted = false; bool lastKeep = true; std::string stray; HReq* lastDone = 0;
	void onUp() override; void onBytes() override; void onEnd() override; void onFail() override;
	void check(); void finishAll(); void abort(HReq* r);
};
struct HClient {
	int id = 0; u16 port = 8080; Via via = currentVia; std::vector<std::shared_ptr<HReq>> reqs; size_t next = 0; u32 pipeline = 1; u32 chunk = 0; u64 delay = 0; u32 pausePeriod = 0; bool pauseEach = false; u32 splitSend = 0; Session* cur = 0; std::vector<Session*> sessions; int fails = 0; bool stopped = false;
	std::function<void(HReq&)> onDone;   // complete response
	std::function<void(HReq&)> onOver;   // ended without a complete response
	std::function<void(HReq&)> beforeSend;
	std::function<void(HReq&)> onPartial; // more bytes of the response have arrived
	void start(); void more(); void send(HReq* r);
	HReq* add(const std::string& method, const std::string& uri);
	bool allOver() const { for (auto& r : reqs) if (!r->over) return false; return true; }
};
extern int nextReqId; HReq* reqById(int id);
HReq* reqOf(Pillow::HttpConnection* c); // by its X-Id header
bool keepAnnounced(const HReq& r);
void slowClient(HClient& c, u32 maxResponse); // draw reading behaviour
std::string describe(const HReq& r);
Pillow::HttpHeaderCollection toPillow(const Headers& h);
}
