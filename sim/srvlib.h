// Shared server-side machinery: request generation, reference model of responses, client actors.
#pragma once
#include "harness.h"
#include "HttpServer.h"
#include "HttpsServer.h"
#include "HttpConnection.h"
#include "HttpHandler.h"
#include <openssl/ssl.h>

namespace srv {
using namespace sim;

// ------------------------------------------------------------------ requests
struct Req {
	int id = 0, client = 0, idx = 0;
	bool valid = true; std::set<int> errStatus; // acceptable status when refused
	std::string badness;                         // what is wrong with it
	std::string head, body;                      // on the wire (body: everything after the header section)
	std::string method, uri, path, query, fragment, version; Headers headers;
	bool checkPath = true; // absolute-form and * targets have no path to speak of
	bool http11 = true, expect100 = false, clientKA = true; // expect100: interim response is due
	std::string wire() const { return head + body; }
	// history
	bool announced = false, completedSignal = false, answeredAll = false; u64 announcedAt = 0; void* conn = 0;
	// what a correct server has put on the wire for it (built from the calls the application made)
	struct Model {
		bool started = false, complete = false, cut = false; // cut: application closed the connection before the end
		int status = 0; Headers custom; std::string contentType; bool hasCT = false; i64 length = -1; bool chunked = false, keep = true, head = false; std::string body; i64 sent = 0;
	} m;
};
struct GenOpts {
	u32 invalid = 0;      // out of 100
	u32 expect = 10;      // out of 100
	u32 bodies = 40; u32 maxBody = 20000; u32 hugeHeaders = 2; u32 versions10 = 15; u32 connHdr = 25; u32 head = 10; bool simple = false;
};
std::string refPercentDecode(const std::string& s); // bytes
QString refDecoded(const std::string& s);
Req genRequest(int id, const GenOpts& o);
int statusOf(int s);  // status a correct server reports for an application status
std::string reasonOf(int s);
int anyStatus();

// model updates, one per API call
void modelHeaders(Req& r, int status, const Headers& h, i64 preset);
void modelContent(Req& r, const std::string& c);
void modelEnd(Req& r);
// compare the stream received by a client with what it should have got
struct Expect { std::vector<Req*> reqs; bool ended; bool aborted; }; 

// ------------------------------------------------------------------ client side transports
struct Logic; 
struct Wire { // a client connection over some transport; bytes are plaintext HTTP
	Logic* logic = 0; virtual ~Wire() {}
	virtual void send(const std::string& s) = 0; virtual void fin() = 0; virtual void reset() = 0; virtual void pause(bool on) = 0; virtual bool dead() = 0; virtual int connId() { return 0; } virtual bool notAccepted() { return false; }
};
struct Logic { // what the client does
	Wire* wire = 0; std::string in; bool up = false, ended = false, wasReset = false, failed = false, closedByUs = false;
	virtual ~Logic() {}
	virtual void onUp() {} virtual void onBytes() {} virtual void onEnd() {} virtual void onFail() {}
};
Wire* rawWire(Logic* l, u32 readChunk, u64 readDelay);       // connect with connectRaw
void connectRaw(Wire* w, u16 port); void connectLocal(Wire* w, const std::string& path);
struct TlsOpts { int cutAt = -1; int cutHow = 0; bool garbage = false; bool split = false; };
Wire* tlsWire(Logic* l, u32 readChunk, u64 readDelay, const TlsOpts& o); // connect with connectRaw
bool tlsHandshakeDone(Wire* w);
QSslCertificate tlsCert(); QSslKey tlsKey();
void initTls(); // before fork if possible
}
