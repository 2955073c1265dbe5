// Deterministic simulation kernel: choice tape, simulated clock, event queue, simulated sockets,
// token-scheduled threads. Everything nondeterministic that Qt/pillow ask of the operating system is
// answered here (see interpose.cpp for the libc symbols that are taken over).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/un.h>
#include <poll.h>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8; typedef uint16_t u16;

// ---------------------------------------------------------------- shared result block
enum { MaxTape = 1 << 20, MaxCounters = 160, NameLen = 56 };
struct Counter { char name[NameLen]; u64 n; };
struct Result {
	volatile u32 finished;          // run reached its end (0 = crashed or killed)
	u32 violated;
	char prop[8];
	char cls[64];
	char msg[4096];
	u64 logHash, schedHash, simNs, steps, draws;
	u32 nontrivial;
	u32 nFaults, nProbes;
	Counter faults[MaxCounters];    // faults that really fired, by kind
	Counter probes[MaxCounters];    // rare conditions reached
	u32 otherViolations;            // oracle hits for properties other than the one checked
	char otherMsg[512];
	char summary[1024];             // a one line description of the case (for evidence samples)
	u32 tapeLen;
	u32 tape[MaxTape];
};
extern Result* res;
extern std::string target;          // property being checked ("" = any)
extern bool verbose;                // print the trace on stderr
extern bool active;                 // simulation is on (interposers divert)

// ---------------------------------------------------------------- choices
void initTape(u64 seed, const u32* replay, size_t n); // replay != 0: choices come from it, 0 beyond its end
u32 draw(u32 n);                    // 0..n-1; 0 is the simplest choice
inline bool chance(u32 num, u32 den) { return draw(den) >= den - num; } // 0 -> false
inline u32 range(u32 lo, u32 hi) { return hi <= lo ? lo : lo + draw(hi - lo + 1); } // inclusive
u32 sizeDraw(u32 max);              // 0..max, biased to small values and powers of two
template <class T> const T& pick(const std::vector<T>& v) { return v[draw((u32)v.size())]; }
u32 wpick(std::initializer_list<u32> weights); // index by weight; index 0 simplest

// ---------------------------------------------------------------- log, oracles
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fault(const char* kind);       // a fault was injected (fired)
void probe(const char* name);       // a rare condition was reached
void summary(const std::string& s);
void violate(const char* prop, const char* cls, const std::string& msg); // does not return if prop is the target
[[noreturn]] void finish();         // end the run normally
std::string quote(const std::string& s, size_t max = 200);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- time and events
extern u64 now;                     // monotonic simulated nanoseconds
extern i64 wallSkew;                // wall clock = epoch + now + wallSkew
const u64 us = 1000ull, ms = 1000000ull, sec = 1000000000ull;
typedef u64 EventId;
EventId at(u64 delay, const char* label, std::function<void()> fn);
void cancel(EventId id);
extern u64 timeLimit, stepLimit;
bool pumpUntilQuiescent(std::function<bool()> done = std::function<bool()>()); // runs the Qt event loop; true if quiescent (nothing can happen any more), false if done() stopped it
bool pumpFor(u64 ns);
extern bool quiescent;              // set by the scheduler: nothing can happen without a new stimulus
extern u64 stepsTaken;

// ---------------------------------------------------------------- network
struct NetCfg {                     // per run knobs (swarm)
	u32 latMin, latMax;             // microseconds
	int segMode;                    // 0 whole, 1 random, 2 small pieces, 3 single bytes (with a budget), 4 split once
	u32 sndCap;                     // bytes in flight + unread allowed per direction (socket buffer)
	u32 shortWrite;                 // out of 100: a write accepts less than it could
	u32 spuriousEagain;             // out of 1000 per write
	u32 eintr;                      // out of 1000 per read/write/accept/poll
	u32 delayReturn;                // out of 100: let another event happen before running the application
	u32 subset;                     // out of 100: report only some of the ready descriptors
	u32 shortRead;                  // out of 100: a read returns less than available
	u32 actorSlow;                  // out of 100: a peer's read is delayed
	NetCfg() : latMin(50), latMax(50), segMode(0), sndCap(1 << 20), shortWrite(0), spuriousEagain(0), eintr(0), delayReturn(0), subset(0), shortRead(0), actorSlow(0) {}
};
extern NetCfg net;
NetCfg randomNet(bool faults);

struct Conn; struct End; struct Listener;
struct Actor { // a simulated peer living outside the process under test
	End* end;
	std::string in;                 // bytes received and read so far (actors may consume from it)
	bool gotFin, gotReset, connected;
	Actor() : end(0), gotFin(false), gotReset(false), connected(false) {}
	virtual ~Actor() {}
	virtual void onConnected() {}
	virtual void onConnectFailed() {}
	virtual void onData() {}        // `in` has grown
	virtual void onFin() {}
	virtual void onReset() {}
	virtual void onPeerClosedFd() {}
	// helpers
	void send(const std::string& data);     // queue bytes into the network (not limited by window)
	void fin();                              // orderly close of our side for sending and receiving
	void reset();                            // abortive close
	bool dead() const;
	// reading behaviour
	bool readPaused = false;
	u32 readChunk = 0;                       // 0: unlimited
	u64 readDelayMax = 0;                    // ns
	void resumeReading();
};
struct Dir { // one direction of a connection
	std::string inflight;           // written, not yet delivered
	std::string rcv; size_t rcvOff; // delivered, not yet read
	u32 cap;
	bool finQueued, finDelivered, rstDelivered;
	bool scheduled;
	u32 tiny;                       // budget of tiny segments
	u64 bytes;                      // total bytes ever written
	u64 endAt;                      // when its end (FIN or RST) was delivered
	Dir() : rcvOff(0), cap(1 << 20), finQueued(false), finDelivered(false), rstDelivered(false), scheduled(false), tiny(200), bytes(0), endAt(0) {}
	size_t unread() const { return rcv.size() - rcvOff; }
};
struct End {
	Conn* conn; int side;
	int fd; Actor* actor;
	bool closed;                    // this end is gone (fd closed / actor closed)
	int soErr;
	bool errConsumed;
	bool actorReadScheduled;
	End() : conn(0), side(0), fd(-1), actor(0), closed(false), soErr(0), errConsumed(false), actorReadScheduled(false) {}
	Dir& rx(); Dir& tx(); End& peer();
};
enum ConnState { CS_Connecting, CS_Established, CS_Failed };
struct Conn {
	int id; ConnState state; End e[2]; Dir d[2]; // d[i]: data flowing to e[i]
	sockaddr_storage addr[2]; socklen_t addrLen[2]; // addresses of both ends
	int family; NetCfg cfg;
	bool accepted;
	Conn() : id(0), state(CS_Connecting), family(AF_INET), accepted(false) {}
};
struct ConnectPlan { enum K { Accept, Refuse, Timeout, Unreachable, Hang } k; u64 delay; ConnectPlan() : k(Accept), delay(0) {} };
struct ActorListener { // a simulated server
	virtual ~ActorListener() {}
	virtual ConnectPlan plan() { return ConnectPlan(); }
	virtual Actor* accept(Conn* c) = 0;
};
void listenActor(u32 ip, u16 port, ActorListener* l);
void unlistenActor(u32 ip, u16 port);
Conn* connectActor(Actor* a, u32 ip, u16 port, u32 srcIp = 0); // actor connects to an application listener; result by callbacks
Conn* connectActorLocal(Actor* a, const std::string& path);
void resetConn(Conn* c, int towardsSide, u64 delay); // RST delivered to that side (and the other side is dead)
void breakConn(Conn* c); // something on the way breaks it: both sides see a RST, each at its own time
int openSimFds();                    // sockets (not eventfds) the process under test holds
int openSimConns();
bool appListening(u16 port);
struct AcceptFault { u32 per1000; bool enabled; }; extern AcceptFault acceptFault;
extern u32 connLimit;                // socket descriptors the process may hold before accept fails with EMFILE (0 = unlimited)
extern std::vector<Conn*> conns;
extern std::function<void(Conn*)> onAppConnect;   // the application opened a connection
extern std::function<void(Conn*, int side, const char*, size_t)> onAppWrite;

// ---------------------------------------------------------------- files
struct FileFault { u32 eintr, shortRead, eio; int eioAfterReads; FileFault() : eintr(0), shortRead(0), eio(0), eioAfterReads(-1) {} };
extern FileFault fileFault;
extern std::string scratch;          // only files below it are subject to faults
extern std::set<int> scratchFds;
extern u64 eioFired;
extern std::set<std::string> openDenied;

// ---------------------------------------------------------------- used by interpose.cpp
struct SimFd; 
void schedulePoint(const char* why);
}
