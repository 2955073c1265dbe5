#pragma once
#include "kernel.h"
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>

namespace sim {
struct Scenario { const char* name; void (*run)(const std::string& prop); };
struct Register { Register(const char* name, void (*run)(const std::string&)); };
#define SCENARIO(name, fn) static sim::Register reg_##name(#name, fn)
std::vector<Scenario>& scenarios();
u64 realNow();

// ------------------------------------------------ HTTP utilities, independent of the code under test
typedef std::vector<std::pair<std::string, std::string>> Headers;
bool lists(const std::string& value, const std::string& token); // a comma separated list
std::pair<std::string, std::string> oddHeader(); // one whose name looks like that of a header with a meaning
std::string lower(const std::string& s);
bool ieq(const std::string& a, const std::string& b);
const std::string* findHeader(const Headers& h, const std::string& name);
int countHeader(const Headers& h, const std::string& name);
std::string blob(u32 id, size_t n, int kind = 0); // unique, position dependent content

struct Parsed { // one message parsed from a byte stream
	bool headersDone, complete, bad; std::string err;
	std::string startLine; Headers headers; std::string body; size_t consumed; size_t headerBytes;
	int status; std::string reason, version, method, uri;
	enum Framing { None, Length, Chunked, UntilClose } framing; i64 length;
	Parsed() : headersDone(false), complete(false), bad(false), consumed(0), headerBytes(0), status(0), framing(None), length(-1) {}
};
// Parse a response at s[off..]; headRequest: no body; eof: the stream ended
Parsed parseResponse(const std::string& s, size_t off, bool headRequest, bool eof);
Parsed parseRequest(const std::string& s, size_t off);
std::string chunkEncode(const std::string& body, const std::vector<size_t>& sizes, bool upper, bool ext, const std::string& trailer);
std::string gz(const std::string& s, int level, bool vary = false);
std::string num(i64 v);

// application-side timers (simulated) that run in the application's event loop
void appLater(u64 delayNs, std::function<void()> fn);
void watchObjects(); // from now on
void ownObject(QObject* o); // the scenario's own
void noObjectsLeft(const char* props, const char* when, bool perRequest = false); // per request: transfers, pipes, replies, buffers; otherwise anything of pillow, too
bool nestedLoop(u64 ns); // the application runs its own event loop inside a notification for that long
extern std::function<void(const QString&)> onQtMessage; // sees what the code under test tells qDebug() and qWarning()
QByteArray qb(const std::string& s); std::string sb(const QByteArray& s);
std::string makeScratch(); // per process scratch directory (real file system), removed by the parent
void writeFile(const std::string& path, const std::string& data); void setMtime(const std::string& path, i64 secs);
bool readPattern(u32& out);
}
