// Shared by the demonstrations: a tiny HTTP client over loopback and an event loop with a deadline.
#pragma once
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
#include <functional>
#include <cstdio>
#include "HttpServer.h"
#include "HttpConnection.h"
#include "HttpHandler.h"
static bool waitFor(const std::function<bool()>& done, int ms = 10000)
{
	QElapsedTimer t; t.start();
	while (!done()) { if (t.elapsed() > ms) return false; QCoreApplication::processEvents(QEventLoop::AllEvents | QEventLoop::WaitForMoreEvents, 20); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); }
	return true;
}
static void idle(int ms) { QElapsedTimer t; t.start(); waitFor([&]() { return t.elapsed() > ms; }, ms + 1000); }
struct Client
{
	QTcpSocket s; QByteArray in; bool closed = false;
	Client(quint16 port, qint64 readBuffer = 0) { if (readBuffer) s.setReadBufferSize(readBuffer); QObject::connect(&s, &QTcpSocket::disconnected, [this]() { take(); closed = true; }); if (!readBuffer) QObject::connect(&s, &QTcpSocket::readyRead, [this]() { take(); }); s.connectToHost(QHostAddress::LocalHost, port); s.waitForConnected(5000); }
	void take() { in += s.readAll(); }
	void send(const QByteArray& d) { s.write(d); s.flush(); }
	bool got(const QByteArray& d, int ms = 10000) { return waitFor([&]() { return in.contains(d); }, ms); }
};
struct Server : Pillow::HttpServer
{
	Server() : Pillow::HttpServer(QHostAddress(QHostAddress::LocalHost), 0) {}
	int port() const { return serverPort(); }
};
#define CHECK(cond, what) do { if (!(cond)) { fprintf(stderr, "BROKEN: %s\n", what); return 1; } } while (0)
