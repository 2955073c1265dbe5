From ca4d3e346f415c3a2143b30e85759b4eba38302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 01/70] fix: a failed read on the input device must not shrink
 the request buffer

---
 pillowcore/HttpConnection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..34fd826 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -164,8 +164,11 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 		if (_requestBuffer.capacity() < (_requestBuffer.size() + bytesAvailable + 1))
 			_requestBuffer.reserve(_requestBuffer.size() + bytesAvailable + 1);
 		const qint64 bytesRead = _inputDevice->read(_requestBuffer.data() + _requestBuffer.size(), bytesAvailable);
-		_requestBuffer.data_ptr()->size += bytesRead;
-		_requestBuffer.data()[_requestBuffer.data_ptr()->size] = '\0'; // The parser requires the string to be null terminated.
+		if (bytesRead > 0)
+		{
+			_requestBuffer.data_ptr()->size += bytesRead;
+			_requestBuffer.data()[_requestBuffer.data_ptr()->size] = '\0'; // The parser requires the string to be null terminated.
+		}
 	}
 
 	if (_state == Pillow::HttpConnection::ReceivingHeaders)
-- 
2.43.0


From a0e7dfb7e5a3cabd063e594b73f467cf9c075806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 02/70] fix: requestUri ends with a null character when the
 query string is empty

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 34fd826..b32dd7e 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -266,7 +266,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.query_string_len == 0 && _parser.request_path_len == _parser.request_uri_len)
 	{
 		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
 		// will not destroy the uri (which does not include the fragment).
-- 
2.43.0


From 4705ac50f573c9b50e4675fa54c0c98392e489b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 03/70] fix: do not keep using a connection that got closed
 while completing a request

---
 pillowcore/HttpConnection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index b32dd7e..2b45c0d 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -326,9 +326,11 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_state == Pillow::HttpConnection::Closed)
 	{
 		qWarning() << "HttpConnection::transitionToCompleted called while the request is in the closed state.";
+		return;
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // The connection was closed by a slot.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -347,6 +349,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // The connection was lost while flushing.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From 834bc8bbf81d502f2cb25c5628c4916859463876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 04/70] fix: unknown status codes must produce a status line
 with a status code

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 2b45c0d..39eb9e9 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -462,7 +462,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(500); // Internal server error.
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 05bcc6954f62afff66ed8b59848418f8b4ae6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 05/70] fix: negative and large response content lengths

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 39eb9e9..8bc2637 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -482,7 +482,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		{
 			bool ok = false;
 			_responseContentLength = header->second.toLongLong(&ok);
-			if (!ok)
+			if (!ok || _responseContentLength < 0)
 			{
 				// Somebody trying to be a bad server? Pretend we don't know the length.
 				qWarning() << "HttpConnection::writeHeaders: Invalid content-length header specified. Sending response as if content-length was unknown.";
@@ -549,7 +549,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From 69ed532f83d88d9b0b4f2c9244501ab10cc11a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 06/70] fix: never write a response's content into the next
 response of the connection

---
 pillowcore/HttpConnection.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 8bc2637..eb92c02 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -108,7 +108,7 @@ namespace Pillow
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
 		void transitionToSendingHeaders();
-		void transitionToSendingContent();
+		bool transitionToSendingContent(); // Returns whether the response still expects content.
 		void transitionToCompleted();
 		void flush();
 		void drain();
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		bool writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection()); // Returns whether the response still expects content.
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -300,9 +300,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	emit q_ptr->requestReady(q_ptr);
 }
 
-inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
+inline bool Pillow::HttpConnectionPrivate::transitionToSendingContent()
 {
-	if (_state == Pillow::HttpConnection::SendingContent) return;
+	if (_state == Pillow::HttpConnection::SendingContent) return true;
 	_state = Pillow::HttpConnection::SendingContent;
 
 	if (_responseHeadersBuffer.capacity() > 4096)
@@ -310,14 +310,18 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
 	else
 		_responseHeadersBuffer.data_ptr()->size = 0;
 
-	if (_responseContentLength == 0 || _requestMethod == headToken)
-		transitionToCompleted();
-
 	if (_responseContentLength < 0 && !_responseChunkedTransferEncoding)
 	{
 		// The response content length needs to be specified or chunked transfer encoding used to support keep-alive. Forcefully disable it.
 		_responseConnectionKeepAlive = false;
 	}
+
+	if (_responseContentLength == 0 || _requestMethod == headToken)
+	{
+		transitionToCompleted(); // Note: The connection may be processing its next request by the time this returns.
+		return false;
+	}
+	return true;
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
@@ -445,16 +449,15 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	if (writeHeaders(statusCode, headers) && !content.isEmpty()) writeContent(content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
 		qWarning() << "HttpConnection::writeHeaders called while state is not 'SendingHeaders', not proceeding with sending headers.";
-		return;
+		return false;
 	}
 
 	const char* statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
@@ -555,7 +558,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
 	_outputDevice->write(_responseHeadersBuffer);
-	transitionToSendingContent();
+	return transitionToSendingContent();
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From 2dfa9215ae4678fe929b6d9ecc8c982358c1225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 07/70] fix: handle pipelined requests in a loop instead of
 recursing once per request

---
 pillowcore/HttpConnection.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index eb92c02..f7176e6 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -4,6 +4,7 @@
 #include "parser/parser.h"
 #include <QtCore/QIODevice>
 #include <QtCore/QTimer>
+#include <QtCore/QPointer>
 #include <QtCore/QUrl>
 #include <QtCore/QStringBuilder>
 #include <QtNetwork/QTcpSocket>
@@ -80,6 +81,7 @@ namespace Pillow
 		Pillow::HttpConnection::State _state;
 		QIODevice* _inputDevice,* _outputDevice;
 		http_parser _parser;
+		bool _processingInput, _moreInput; // Whether processInput is active, and whether it needs to go through the input once more.
 
 		// Request fields.
 		ByteArray _requestBuffer;
@@ -104,6 +106,7 @@ namespace Pillow
 	public:
 		void initialize();
 		void processInput();
+		void processAvailableInput();
 		void setupRequestHeaders();
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
@@ -129,7 +132,7 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _processingInput(false), _moreInput(false)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -155,6 +158,21 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 }
 
 inline void Pillow::HttpConnectionPrivate::processInput()
+{
+	_moreInput = true;
+	if (_processingInput) return; // Already processing: the loop below will go on with whatever input there is.
+
+	QPointer<HttpConnection> self(q_ptr); // A slot may delete the connection.
+	_processingInput = true;
+	do
+	{
+		_moreInput = false;
+		processAvailableInput();
+	} while (self && _moreInput);
+	if (self) _processingInput = false;
+}
+
+inline void Pillow::HttpConnectionPrivate::processAvailableInput()
 {
 	if (_state != Pillow::HttpConnection::ReceivingHeaders && _state != Pillow::HttpConnection::ReceivingContent) return;
 
-- 
2.43.0


From e926fcc84a9ec6cf5ba0250a5ce341f7dd07df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 08/70] fix: do not share the request's memory with the output
 device's write buffer

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index f7176e6..7750f76 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -575,7 +575,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
-	_outputDevice->write(_responseHeadersBuffer);
+	_outputDevice->write(_responseHeadersBuffer.constData(), _responseHeadersBuffer.size()); // No shallow copy: the buffer gets reused.
 	return transitionToSendingContent();
 }
 
@@ -605,7 +605,7 @@ inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &conten
 			QByteArray buffer; appendNumber<int, 16>(buffer, content.size()); buffer.append("\r\n", 2);
 			_outputDevice->write(buffer);
 		}
-		_outputDevice->write(content);
+		_outputDevice->write(content.constData(), content.size()); // No shallow copy: the content may refer to our request buffer (an echoed request content).
 
 		if (_responseChunkedTransferEncoding)
 			_outputDevice->write("\r\n", 2);
-- 
2.43.0


From 29bcb1a79ec92f541cf7e069cf8d9de4607b5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 09/70] fix: do not delete idle connections while they may
 still be on the call stack

---
 pillowcore/HttpServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index 395c2dc..d6df483 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -52,7 +52,7 @@ namespace Pillow
 		void putConnection(HttpConnection* connection)
 		{
 			while (reservedConnections.size() >= MaximumReserveCount)
-				delete reservedConnections.takeLast();
+				reservedConnections.takeLast()->deleteLater();
 
 			reservedConnections.append(connection);
 		}
-- 
2.43.0


From 3c9116c32d8668b157ba7824013872b4ace36ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 10/70] fix: keep accepting connections after a failed accept

---
 pillowcore/HttpServer.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index d6df483..168e699 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -1,5 +1,6 @@
 #include "HttpServer.h"
 #include "HttpConnection.h"
+#include <QtCore/QTimer>
 #include <QtNetwork/QTcpSocket>
 #include <QtNetwork/QLocalSocket>
 using namespace Pillow;
@@ -59,16 +60,32 @@ namespace Pillow
 	};
 }
 
+// QTcpServer pauses accepting when accept() fails, for example while the process is out of file descriptors. Try again after a while.
+static void resumeAcceptingAfterErrors(QTcpServer* server)
+{
+#if QT_VERSION >= QT_VERSION_CHECK(5, 0, 0)
+	QTimer* timer = new QTimer(server);
+	timer->setSingleShot(true);
+	timer->setInterval(250);
+	QObject::connect(server, SIGNAL(acceptError(QAbstractSocket::SocketError)), timer, SLOT(start()));
+	QObject::connect(timer, &QTimer::timeout, server, &QTcpServer::resumeAccepting);
+#else
+	Q_UNUSED(server);
+#endif
+}
+
 HttpServer::HttpServer(QObject *parent)
 : QTcpServer(parent), d_ptr(new HttpServerPrivate(this))
 {
 	setMaxPendingConnections(128);
+	resumeAcceptingAfterErrors(this);
 }
 
 HttpServer::HttpServer(const QHostAddress &serverAddress, quint16 serverPort, QObject *parent)
 :	QTcpServer(parent), d_ptr(new HttpServerPrivate(this))
 {
 	setMaxPendingConnections(128);
+	resumeAcceptingAfterErrors(this);
 	if (!listen(serverAddress, serverPort))
 		qWarning() << QString("HttpServer::HttpServer: could not bind to %1:%2 for listening: %3").arg(serverAddress.toString()).arg(serverPort).arg(errorString());
 }
-- 
2.43.0


From 133ffa27be7156de804fdcbd9fa7658c96ca7964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 11/70] fix: reinitializing a connection whose request buffer
 was released wrote to shared memory

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 7750f76..6efe2d2 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -146,8 +146,8 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 	_parser.http_field = &HttpConnectionPrivate::parser_http_field;
 
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
-	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	if (_requestBuffer.capacity() > Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.clear();
+	else if (!_requestBuffer.isEmpty()) _requestBuffer.data_ptr()->size = 0; // Never touch the size of the global shared null.
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
-- 
2.43.0


From 7969410c1ff47488134d79574098fc62f0c3403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 12/70] fix: wait for encrypted data to be flushed before
 closing a secure connection

---
 pillowcore/HttpConnection.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 6efe2d2..34486d7 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -8,6 +8,7 @@
 #include <QtCore/QUrl>
 #include <QtCore/QStringBuilder>
 #include <QtNetwork/QTcpSocket>
+#include <QtNetwork/QSslSocket>
 #include <QtNetwork/QLocalSocket>
 #include <QtCore/QVarLengthArray>
 
@@ -114,6 +115,7 @@ namespace Pillow
 		bool transitionToSendingContent(); // Returns whether the response still expects content.
 		void transitionToCompleted();
 		void flush();
+		qint64 bytesToFlush() const;
 		void drain();
 		void transitionToFlushing();
 		void transitionToClosed();
@@ -392,11 +394,20 @@ inline void Pillow::HttpConnectionPrivate::flush()
 	}
 }
 
+inline qint64 Pillow::HttpConnectionPrivate::bytesToFlush() const
+{
+	qint64 bytes = _outputDevice->bytesToWrite();
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	if (QSslSocket* sslSocket = qobject_cast<QSslSocket*>(_outputDevice)) bytes += sslSocket->encryptedBytesToWrite(); // Encrypted, but not written to the network yet.
+#endif
+	return bytes;
+}
+
 inline void Pillow::HttpConnectionPrivate::drain()
 {
 	if (_state != Pillow::HttpConnection::Flushing) return;
 	flush();
-	if (_outputDevice != 0 && _outputDevice->bytesToWrite() == 0) transitionToClosed();
+	if (_outputDevice != 0 && bytesToFlush() == 0) transitionToClosed();
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToFlushing()
@@ -408,7 +419,12 @@ inline void Pillow::HttpConnectionPrivate::transitionToFlushing()
 
 	drain(); // Will transition to closed also if there was no data at all to flush.
 	if (_state == Pillow::HttpConnection::Flushing) // A first flush was not enough. Schedule more flushes.
+	{
 		QObject::connect(_outputDevice, SIGNAL(bytesWritten(qint64)), q_ptr, SLOT(drain()));
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+		if (qobject_cast<QSslSocket*>(_outputDevice)) QObject::connect(_outputDevice, SIGNAL(encryptedBytesWritten(qint64)), q_ptr, SLOT(drain()));
+#endif
+	}
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToClosed()
-- 
2.43.0


From 033d777acc4754247a07d7be2cea739164eca325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 13/70] fix: discarded idle connections must go away without an
 outer event loop

---
 pillowcore/HttpServer.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index 168e699..81b8714 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -1,6 +1,8 @@
 #include "HttpServer.h"
 #include "HttpConnection.h"
 #include <QtCore/QTimer>
+#include <QtCore/QCoreApplication>
+#include <QtCore/QEvent>
 #include <QtNetwork/QTcpSocket>
 #include <QtNetwork/QLocalSocket>
 using namespace Pillow;
@@ -11,7 +13,7 @@ using namespace Pillow;
 
 namespace Pillow
 {
-	class HttpServerPrivate
+	class HttpServerPrivate : private QObject
 	{
 	public:
 		enum { MaximumReserveCount = 25 };
@@ -19,6 +21,7 @@ namespace Pillow
 	public:
 		QObject* q_ptr;
 		QList<HttpConnection*> reservedConnections;
+		QList<HttpConnection*> discardedConnections; // May still be on the call stack: deleted from the event loop.
 
 	public:
 		HttpServerPrivate(QObject* server)
@@ -32,6 +35,18 @@ namespace Pillow
 		{
 			while (!reservedConnections.isEmpty())
 				delete reservedConnections.takeLast();
+			deleteDiscardedConnections();
+		}
+
+		void deleteDiscardedConnections()
+		{
+			while (!discardedConnections.isEmpty())
+				delete discardedConnections.takeLast();
+		}
+
+		void customEvent(QEvent*)
+		{
+			deleteDiscardedConnections();
 		}
 
 		HttpConnection* createConnection()
@@ -53,7 +68,10 @@ namespace Pillow
 		void putConnection(HttpConnection* connection)
 		{
 			while (reservedConnections.size() >= MaximumReserveCount)
-				reservedConnections.takeLast()->deleteLater();
+			{
+				if (discardedConnections.isEmpty()) QCoreApplication::postEvent(this, new QEvent(QEvent::User));
+				discardedConnections.append(reservedConnections.takeLast());
+			}
 
 			reservedConnections.append(connection);
 		}
-- 
2.43.0


From 904954b8f21ee307f1086ed6be34b9e40791d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 14/70] fix: the file handler served files of directories whose
 name starts like the public path

---
 pillowcore/HttpHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..fafc742 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -284,7 +284,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath.endsWith('/') ? _publicPath : _publicPath + '/'))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From 139a581fbddd64564183a3f3a974af7632d41488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 15/70] fix: do not present a file that could not be read
 completely as a complete response

---
 pillowcore/HttpHandler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index fafc742..924b9f6 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -310,6 +310,13 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file fully fits in the supported buffer size. Read it and calculate an ETag for caching.
 			QByteArray content = file->readAll();
+			if (file->error() != QFile::NoError)
+			{
+				connection->writeResponse(500);
+				delete file;
+				return true;
+			}
+
 			QCryptographicHash md5sum(QCryptographicHash::Md5); md5sum.addData(content);
 			QByteArray etag = md5sum.result().toHex();
 			headers << HttpHeader("ETag", etag);
-- 
2.43.0


From 1423a97a8a865351e98d1a7fbe87e2fd17f75d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 16/70] fix: end the transfer of a file with its response, and
 close the connection if the file ends early

---
 pillowcore/HttpHandler.cpp | 33 +++++++++++++++++++++++++--------
 pillowcore/HttpHandler.h   |  4 ++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 924b9f6..751dc16 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -332,12 +332,12 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
-			connection->writeHeaders(200, headers);
-
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
 			file->setParent(transfer);
 			//transfer->setParent(this);
 			connect(transfer, SIGNAL(finished()), transfer, SLOT(deleteLater()));
+
+			connection->writeHeaders(200, headers); // Note: this may already complete the request and stop the transfer.
 			transfer->writeNextPayload();
 		}
 	}
@@ -350,7 +350,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 //
 
 HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpConnection *connection, int bufferSize)
-	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize)
+	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize), _bytesTransferred(0)
 {
 	if (bufferSize < 512)
 	{
@@ -359,8 +359,8 @@ HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpCo
 	}
 
 	connect(sourceDevice, SIGNAL(destroyed()), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
+	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(stop()));
+	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(stop()));
 	connect(_connection, SIGNAL(destroyed()), this, SLOT(deleteLater()));
 	connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
 }
@@ -371,14 +371,31 @@ void HttpHandlerFileTransfer::writeNextPayload()
 
 	qint64 bytesToRead = _bufferSize - _connection->outputDevice()->bytesToWrite();
 	if (bytesToRead <= 0) return;
-	qint64 bytesAvailable = _sourceDevice->size() - _sourceDevice->pos();
+	bool lengthDeclared = _connection->responseContentLength() >= 0;
+	qint64 bytesAvailable = lengthDeclared ? _connection->responseContentLength() - _bytesTransferred : _sourceDevice->size() - _sourceDevice->pos();
 	if (bytesToRead > bytesAvailable) bytesToRead = bytesAvailable;
 
 	if (bytesToRead > 0)
 	{
-		_connection->writeContent(_sourceDevice->read(bytesToRead));
+		QByteArray data = _sourceDevice->read(bytesToRead);
+		if (data.isEmpty() && lengthDeclared)
+		{
+			// The source can not provide the content announced in the headers: all that is left to do is not to present the response as complete.
+			qWarning() << "HttpHandlerFileTransfer::writeNextPayload: could not read" << bytesAvailable << "more bytes. Closing the connection.";
+			_connection->close();
+			return;
+		}
 
-		if (_sourceDevice->atEnd())
+		_bytesTransferred += data.size();
+		_connection->writeContent(data);
+
+		if (lengthDeclared ? data.size() == bytesAvailable : (_sourceDevice && _sourceDevice->atEnd()))
 			emit finished();
 	}
 }
+
+void HttpHandlerFileTransfer::stop()
+{
+	_connection = NULL; // It may already be processing its next request.
+	deleteLater();
+}
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 5f26961..620e94a 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -204,6 +204,7 @@ namespace Pillow
 		QPointer<QIODevice> _sourceDevice;
 		QPointer<HttpConnection> _connection;
 		int _bufferSize;
+		qint64 _bytesTransferred;
 
 	public:
 		HttpHandlerFileTransfer(QIODevice* sourceDevice, Pillow::HttpConnection* connection, int bufferSize = HttpHandlerFile::DefaultBufferSize);
@@ -211,6 +212,9 @@ namespace Pillow
 	public slots:
 		void writeNextPayload();
 
+	private slots:
+		void stop();
+
 	signals:
 		void finished();
 	};
-- 
2.43.0


From 8ad2bd48f6a4d84781b4efc9ebd5bfcb89468092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 17/70] fix: decline paths with an encoded null character
 instead of serving the file named before it

---
 pillowcore/HttpHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 751dc16..0506fcb 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -276,7 +276,8 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 {
 	if (_publicPath.isEmpty()) { return false; } // Just don't allow access to the root filesystem unless really configured for it.
 
-	QString requestPath = QByteArray::fromPercentEncoding(connection->requestPath());
+	QByteArray requestPathBytes = QByteArray::fromPercentEncoding(connection->requestPath());
+	QString requestPath = QString::fromUtf8(requestPathBytes.constData(), requestPathBytes.size()); // Keeps null characters, file names with those never exist.
 	QString resultPath = _publicPath + requestPath;
 	QFileInfo resultPathInfo(resultPath);
 
-- 
2.43.0


From 86de136395a9475c66a2deec31383dcecb70024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 18/70] fix: also notice a short read of a small file when
 QFile reports no error

---
 pillowcore/HttpHandler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 0506fcb..3ff74ff 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -307,11 +307,12 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		HttpHeaderCollection headers; headers.reserve(2);
 		headers << HttpHeader("Content-Type", HttpMimeHelper::getMimeTypeForFilename(requestPath));
 
-		if (file->size() <= bufferSize())
+		const qint64 fileSize = file->size();
+		if (fileSize <= bufferSize())
 		{
 			// The file fully fits in the supported buffer size. Read it and calculate an ETag for caching.
 			QByteArray content = file->readAll();
-			if (file->error() != QFile::NoError)
+			if (file->error() != QFile::NoError || content.size() < fileSize)
 			{
 				connection->writeResponse(500);
 				delete file;
-- 
2.43.0


From 904482cfe1ca11652a06be167bbc41ddef1eca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 19/70] fix: send / as the path of an URL that has none

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..3817c6a 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -654,6 +654,7 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
+	if (uri.isEmpty()) uri.append('/');
 	const QByteArray query = _request.url.encodedQuery();
 	if (!query.isEmpty()) uri.append('?').append(query);
 
-- 
2.43.0


From cf8760ed50b3be880484ef062e5393eb5ed6d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 20/70] fix: put IPv6 addresses in brackets in the client's
 Host header

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 3817c6a..231a6eb 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -646,6 +646,8 @@ void Pillow::HttpClient::sendRequest()
 	if (_hostHeaderValue.isEmpty())
 	{
         _hostHeaderValue = _request.url.encodedHost();
+		if (_hostHeaderValue.contains(':') && !_hostHeaderValue.startsWith('['))
+			_hostHeaderValue.prepend('[').append(']'); // IPv6 address.
 		if (_request.url.port(80) != 80)
 		{
 			_hostHeaderValue.append(':');
-- 
2.43.0


From b2f28b43b97e379281f28b288f24f27fc22fa461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 21/70] fix: do not carry the trailers of a response over to
 the headers of the next one

---
 pillowcore/HttpClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 231a6eb..4bbff98 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -241,6 +241,9 @@ void Pillow::HttpResponseParser::clear()
 	http_parser_init(&parser, HTTP_RESPONSE);
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
+	_lastWasValue = false;
 
 	if (_parsing) pause(); // clear() got called from a callback. gracefully recover by pausing the parser.
 }
@@ -255,6 +258,8 @@ void Pillow::HttpResponseParser::messageBegin()
 {
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
 	_lastWasValue = false;
 }
 
-- 
2.43.0


From 9f10ed4dc2694e7a1aceea54b2e18a4e59e02700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 22/70] fix: treat an explicit port 80 and the default port as
 the same server

---
 pillowcore/HttpClient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 4bbff98..7086c54 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -477,7 +477,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 	// We can reuse an active connection if the request is for the same host and port, so make note of those parameters before they are overwritten.
 	const QString previousHost = _request.url.host();
-	const int previousPort = _request.url.port();
+	const int previousPort = _request.url.port(80);
 
 	_request = request;
 	_responsePending = true;
@@ -485,7 +485,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 	clear();
 
 	const bool isConnected = _device->state() == QAbstractSocket::ConnectedState;
-	const bool sameServer = _request.url.host() == previousHost && _request.url.port() == previousPort;
+	const bool sameServer = _request.url.host() == previousHost && _request.url.port(80) == previousPort;
 	const bool keepAliveTimeoutExpired = sameServer && (_keepAliveTimeout >= 0 && _keepAliveTimeoutTimer.isValid() && _keepAliveTimeoutTimer.hasExpired(_keepAliveTimeout));
 	const bool reuseExistingConnection = isConnected && sameServer && !keepAliveTimeoutExpired;
 
-- 
2.43.0


From be6f520fe7341ff9bd72b2e12a87eaba72456f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 23/70] fix: never decode a response with the decoder of an
 earlier one

---
 pillowcore/HttpClient.cpp | 10 ++++++++++
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 7086c54..c4984cb 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -345,6 +345,11 @@ inline void Pillow::HttpResponseParser::pushHeader()
 // Pillow::HttpClient
 //
 
+Pillow::HttpClient::~HttpClient()
+{
+	delete _contentDecoder;
+}
+
 Pillow::HttpClient::HttpClient(QObject *parent)
 	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
@@ -483,6 +488,8 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 	_responsePending = true;
 	_error = NoError;
 	clear();
+	delete _contentDecoder; // Left over if the previous response did not complete.
+	_contentDecoder = 0;
 
 	const bool isConnected = _device->state() == QAbstractSocket::ConnectedState;
 	const bool sameServer = _request.url.host() == previousHost && _request.url.port(80) == previousPort;
@@ -701,7 +708,10 @@ void Pillow::HttpClient::headersComplete()
 			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("content-encoding")))
 			{
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
+				{
 					_contentDecoder = new Pillow::GunzipContentTransformer();
+					break;
+				}
 			}
 		}
 #endif // PILLOW_ZLIB
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbf25fb..e38b6f8 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -174,6 +174,7 @@ namespace Pillow
 
 	public:
 		HttpClient(QObject* parent = 0);
+		~HttpClient();
 
 		// keepAliveTimeout: Maximum time, in milliseconds, for which the client will keep an established connection channel
 		//                   between requests to the same host. Use 0 to disable keep-alive.
-- 
2.43.0


From bbc61c88655df871ccdfbdec3704174c10ec5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 24/70] fix: do not go on with a response aborted from
 headersCompleted()

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index c4984cb..3cda6da 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -694,6 +694,8 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
+	if (!_responsePending) return; // Aborted from a slot.
+
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
 	{
 		pause();
-- 
2.43.0


From 060a4c957a28a666bee5bc785005bf3345de97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 25/70] fix: deliver all of the inflated content of a gzip
 response

---
 pillowcore/HttpClient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 3cda6da..6d9c45b 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -65,7 +65,8 @@ namespace Pillow
 				_inflateStream.next_out = buffer;
 				_inflateStream.avail_out = sizeof(buffer);
 
-				if (_streamBad || inflate(&_inflateStream, Z_NO_FLUSH) < 0) // Less than 0 is error.
+				const int result = _streamBad ? Z_DATA_ERROR : inflate(&_inflateStream, Z_NO_FLUSH);
+				if (result < 0 && result != Z_BUF_ERROR) // Less than 0 is error, except when there just is nothing left to do.
 				{
 					qWarning("Pillow::GunzipContentTransformer::transform: error inflating input stream passing original content through.");
 					_streamBad = true;
@@ -74,7 +75,7 @@ namespace Pillow
 
 				_inflatedBuffer.append(reinterpret_cast<const char*>(buffer), sizeof(buffer) - _inflateStream.avail_out);
 			}
-			while (_inflateStream.avail_in > 0 && _inflateStream.avail_out == 0);
+			while (_inflateStream.avail_out == 0); // There may be more output even when all of the input was consumed.
 
 			if (_streamBad)
 			{
-- 
2.43.0


From 422e90d97ae165868ca52e7b8513300da3f9874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 26/70] fix: skip any number of 100 Continue responses arriving
 together

---
 pillowcore/HttpClient.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 6d9c45b..244e12d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -612,8 +612,13 @@ void Pillow::HttpClient::device_readyRead()
 			if (consumed < _buffer.size())
 			{
 				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
-				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
+				// It was a 100 Continue since we are still response pending. There may be several of them.
+				while (responsePending() && !hasError() && consumed < _buffer.size())
+				{
+					const int more = inject(_buffer.constData() + consumed, _buffer.size() - consumed);
+					if (more <= 0) break;
+					consumed += more;
+				}
 
 				if (consumed < _buffer.size())
 				{
-- 
2.43.0


From 2ec9e7bdb745a6906cc0a08595c48a695a7a5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 27/70] fix: a request queued from a callback is outstanding:
 later ones are ignored, abort() cancels it

---
 pillowcore/HttpClient.cpp | 36 +++++++++++++++++++++++++-----------
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 244e12d..85f7296 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -384,7 +384,7 @@ void Pillow::HttpClient::setReadBufferSize(qint64 size)
 
 bool Pillow::HttpClient::responsePending() const
 {
-	return _responsePending;
+	return _responsePending || !_pendingRequest.method.isNull();
 }
 
 Pillow::HttpClient::Error Pillow::HttpClient::error() const
@@ -423,7 +423,7 @@ QByteArray Pillow::HttpClient::consumeContent()
 	QByteArray c = _content;
 	_content = QByteArray();
 
-	if (responsePending() && _device->bytesAvailable())
+	if (_responsePending && _device->bytesAvailable())
 		QTimer::singleShot(0, this, SLOT(device_readyRead()));
 
 	return c;
@@ -466,7 +466,7 @@ void Pillow::HttpClient::request(const QByteArray &method, const QUrl &url, cons
 
 void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 {
-	if (_responsePending)
+	if (responsePending())
 	{
 		qWarning("Pillow::HttpClient::request: cannot send new request while another one is under way. Request pipelining is not supported.");
 		return;
@@ -526,6 +526,13 @@ void Pillow::HttpClient::abort()
 		_responsePending = false;
 		emit finished();
 	}
+	else if (!_pendingRequest.method.isNull())
+	{
+		// The active request is one that was still waiting to be sent.
+		_pendingRequest = Pillow::HttpClientRequest();
+		_error = AbortedError;
+		emit finished();
+	}
 }
 
 void Pillow::HttpClient::followRedirection()
@@ -571,7 +578,7 @@ void Pillow::HttpClient::device_connected()
 
 void Pillow::HttpClient::device_readyRead()
 {
-	if (!responsePending())
+	if (!_responsePending)
 	{
 		// Not supposed to be receiving data at this point. Just
 		// ignore it and close the connection.
@@ -600,7 +607,7 @@ void Pillow::HttpClient::device_readyRead()
 
 	int consumed = inject(_buffer);
 
-	if (responsePending())
+	if (_responsePending)
 	{
 		// Response is still pending. One of the following:
 		// 1. Got a parser error. (where hasError)
@@ -613,7 +620,7 @@ void Pillow::HttpClient::device_readyRead()
 			{
 				// We had multiple responses in the buffer?
 				// It was a 100 Continue since we are still response pending. There may be several of them.
-				while (responsePending() && !hasError() && consumed < _buffer.size())
+				while (_responsePending && !hasError() && consumed < _buffer.size())
 				{
 					const int more = inject(_buffer.constData() + consumed, _buffer.size() - consumed);
 					if (more <= 0) break;
@@ -647,19 +654,26 @@ void Pillow::HttpClient::device_readyRead()
 		_buffer.data_ptr()->size = 0;
 
 	// Response completed or got aborted in a callback.
-	if (!responsePending() && !_pendingRequest.method.isNull())
+	if (!_responsePending && !_pendingRequest.method.isNull())
 	{
 		// Plus we got a new request while in callback.
-		Pillow::HttpClientRequest r = _pendingRequest;
-		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
-		request(r);
+		sendPendingRequest();
 	}
 
 }
 
+void Pillow::HttpClient::sendPendingRequest()
+{
+	if (_responsePending || _pendingRequest.method.isNull()) return;
+
+	Pillow::HttpClientRequest r = _pendingRequest;
+	_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
+	request(r);
+}
+
 void Pillow::HttpClient::sendRequest()
 {
-	if (!responsePending()) return;
+	if (!_responsePending) return;
 
 	if (_hostHeaderValue.isEmpty())
 	{
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index e38b6f8..bbaff70 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -228,6 +228,7 @@ namespace Pillow
 		void device_error(QAbstractSocket::SocketError error);
 		void device_connected();
 		void device_readyRead();
+		void sendPendingRequest();
 
 	private:
 		void sendRequest();
-- 
2.43.0


From 6d6fde1dfb47d7defd5957025444e9bc87225ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 28/70] fix: a request made from finished() after a connection
 error is sent

---
 pillowcore/HttpClient.cpp | 11 +++++++++--
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 85f7296..60495f4 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -352,7 +352,7 @@ Pillow::HttpClient::~HttpClient()
 }
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _handlingError(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -472,11 +472,12 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 		return;
 	}
 
-	if (Pillow::HttpResponseParser::isParsing())
+	if (Pillow::HttpResponseParser::isParsing() || _handlingError)
 	{
 		// We most likely got cancelled in a callback or got asked for a new request
 		// in the messageComplete() callback. So we are not responsePending but still parsing.
 		// Keep the request for after we come out of parsing.
+		// Also, QTcpSocket still has to clean up the failed connection when it reports an error.
 		_pendingRequest = request;
 		return;
 	}
@@ -568,7 +569,13 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 
 	_device->close();
 	_responsePending = false;
+
+	_handlingError = true;
 	emit finished();
+	_handlingError = false;
+
+	if (!_pendingRequest.method.isNull())
+		QMetaObject::invokeMethod(this, "sendPendingRequest", Qt::QueuedConnection);
 }
 
 void Pillow::HttpClient::device_connected()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbaff70..ed44dff 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -246,6 +246,7 @@ namespace Pillow
 		Pillow::HttpRequestWriter _requestWriter;
 		Pillow::HttpResponseParser _responseParser;
 		bool _responsePending;
+		bool _handlingError;
 		Error _error;
 		QByteArray _buffer;
 		int _keepAliveTimeout;
-- 
2.43.0


From 9587dccf233ddfb16ca4500afc2276563b841a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 29/70] fix: resolve relative redirection locations

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 60495f4..83b4519 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -545,7 +545,7 @@ void Pillow::HttpClient::followRedirection()
 	}
 
 	Pillow::HttpClientRequest newRequest = _request;
-	newRequest.url = QUrl::fromEncoded(redirectionLocation());
+	newRequest.url = _request.url.resolved(QUrl::fromEncoded(redirectionLocation()));
 	request(newRequest);
 }
 
-- 
2.43.0


From cd10e41e9a239fd4abf83e0cb810117e3e42e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 30/70] fix: do not connect while the previous connection still
 has data to flush

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 83b4519..19ab55e 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -512,6 +512,8 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 		if (_device->state() != QAbstractSocket::UnconnectedState)
 			_device->disconnectFromHost();
+		if (_device->state() != QAbstractSocket::UnconnectedState)
+			_device->abort(); // There still was unsent data.
 		_device->connectToHost(_request.url.host(), _request.url.port(80));
 	}
 }
-- 
2.43.0


From 127ea0974cb64a5c6beb2cd91cfe30f70bca62b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 31/70] fix: close the connection when more data than the
 response was received

---
 pillowcore/HttpClient.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 19ab55e..b20719d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -591,7 +591,8 @@ void Pillow::HttpClient::device_readyRead()
 	{
 		// Not supposed to be receiving data at this point. Just
 		// ignore it and close the connection.
-		_device->close();
+		if (_device->bytesAvailable() > 0)
+			_device->close();
 		return;
 	}
 
@@ -656,6 +657,16 @@ void Pillow::HttpClient::device_readyRead()
 		}
 	}
 
+	if (!_responsePending && _error == NoError)
+	{
+		// The response is complete. Whatever was sent after it does not belong to any response. Note that parsing of
+		// responses to HEAD requests stops just before the last line feed.
+		if (consumed < _buffer.size() && _buffer.at(consumed) == '\n' && Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
+			++consumed;
+		if (consumed < _buffer.size() || _device->bytesAvailable() > 0)
+			_device->close();
+	}
+
 	// Reuse the read buffer if it is not overly large.
 	if (_buffer.capacity() > 128 * 1024)
 		_buffer.clear();
-- 
2.43.0


From c78032fde643a03c76e9acaccbccb298b198f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:17 +0000
Subject: [PATCH 32/70] fix: do not lose content still buffered when the server
 closes the connection

---
 pillowcore/HttpClient.cpp | 33 +++++++++++++++++++++++++++++++--
 pillowcore/HttpClient.h   |  3 +++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b20719d..b095065 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -352,7 +352,7 @@ Pillow::HttpClient::~HttpClient()
 }
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _handlingError(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _handlingError(false), _remoteHostClosed(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -514,6 +514,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 			_device->disconnectFromHost();
 		if (_device->state() != QAbstractSocket::UnconnectedState)
 			_device->abort(); // There still was unsent data.
+		_remoteHostClosed = false;
 		_device->connectToHost(_request.url.host(), _request.url.port(80));
 	}
 }
@@ -563,12 +564,24 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 	switch (error)
 	{
 	case QAbstractSocket::RemoteHostClosedError:
+		if (_device->bytesAvailable() > 0)
+		{
+			// Part of the response is still waiting for room in the limited read buffer.
+			_remoteHostClosed = true;
+			QTimer::singleShot(0, this, SLOT(device_readyRead()));
+			return;
+		}
 		_error = RemoteHostClosedError;
 		break;
 	default:
 		_error = NetworkError;
 	}
 
+	failRequest();
+}
+
+void Pillow::HttpClient::failRequest()
+{
 	_device->close();
 	_responsePending = false;
 
@@ -597,7 +610,11 @@ void Pillow::HttpClient::device_readyRead()
 	}
 
 	qint64 bytesAvailable = _device->bytesAvailable();
-	if (bytesAvailable == 0) return;
+	if (bytesAvailable == 0)
+	{
+		checkRemoteHostClosed();
+		return;
+	}
 
 	if (_buffer.capacity() < _buffer.size() + bytesAvailable)
 		_buffer.reserve(_buffer.size() + bytesAvailable);
@@ -679,7 +696,19 @@ void Pillow::HttpClient::device_readyRead()
 		// Plus we got a new request while in callback.
 		sendPendingRequest();
 	}
+	else
+		checkRemoteHostClosed();
+}
 
+void Pillow::HttpClient::checkRemoteHostClosed()
+{
+	if (_responsePending && _remoteHostClosed && _device->bytesAvailable() == 0)
+	{
+		// All of what was received before the connection got closed was not a complete response.
+		_remoteHostClosed = false;
+		_error = RemoteHostClosedError;
+		failRequest();
+	}
 }
 
 void Pillow::HttpClient::sendPendingRequest()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index ed44dff..28044c9 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -232,6 +232,8 @@ namespace Pillow
 
 	private:
 		void sendRequest();
+		void failRequest();
+		void checkRemoteHostClosed();
 
 	protected:
 		void messageBegin();
@@ -247,6 +249,7 @@ namespace Pillow
 		Pillow::HttpResponseParser _responseParser;
 		bool _responsePending;
 		bool _handlingError;
+		bool _remoteHostClosed;
 		Error _error;
 		QByteArray _buffer;
 		int _keepAliveTimeout;
-- 
2.43.0


From 7e951f68de3124e1fc9bdf62f21b18926fd46340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 33/70] fix: responses 204 and 304 have no content even if they
 declare a length

---
 pillowcore/HttpClient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b095065..6386bb0 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -310,7 +310,9 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
 	self->headersComplete();
-	return 0;
+
+	// 1 tells the parser that there is no content, whatever the headers declare.
+	return parser->status_code == 204 || parser->status_code == 304 ? 1 : 0;
 }
 
 int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *at, size_t length)
-- 
2.43.0


From 1255e1041601a3a6e8bc4607f5f6c4142d3de0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 34/70] fix: the network reply's error() tells the error it
 signals

---
 pillowcore/HttpClient.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 6386bb0..b9f2afd 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -928,15 +928,18 @@ namespace Pillow
 			{
 				QNetworkReply::NetworkError error = QNetworkReply::UnknownNetworkError;
 
+				QString errorString;
+
 				switch (_client->error())
 				{
 				case Pillow::HttpClient::NoError: error = QNetworkReply::NoError; break;
-				case Pillow::HttpClient::NetworkError: error = QNetworkReply::UnknownNetworkError; break;
-				case Pillow::HttpClient::ResponseInvalidError: error = QNetworkReply::ProtocolUnknownError; break;
-				case Pillow::HttpClient::RemoteHostClosedError: error = QNetworkReply::RemoteHostClosedError; break;
-				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
+				case Pillow::HttpClient::NetworkError: error = QNetworkReply::UnknownNetworkError; errorString = QLatin1String("Network error"); break;
+				case Pillow::HttpClient::ResponseInvalidError: error = QNetworkReply::ProtocolUnknownError; errorString = QLatin1String("Invalid response"); break;
+				case Pillow::HttpClient::RemoteHostClosedError: error = QNetworkReply::RemoteHostClosedError; errorString = QLatin1String("Connection closed"); break;
+				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; errorString = QLatin1String("Operation canceled"); break;
 				}
 
+				setError(error, errorString);
 				emit this->error(error);
 			}
 
-- 
2.43.0


From 0374860900cc13d5dd8268f9d25e751d44556ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 35/70] fix: keep all of the values of repeated response
 headers in network replies

---
 pillowcore/HttpClient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b9f2afd..28bf907 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -885,7 +885,11 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
+				// The values of repeated headers are combined like QNetworkAccessManager does.
+				if (hasRawHeader(header.first))
+					setRawHeader(header.first, rawHeader(header.first) + ", " + header.second);
+				else
+					setRawHeader(header.first, header.second);
 
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
 					cookies += QNetworkCookie::parseCookies(header.second);
-- 
2.43.0


From b1937836324cb85e3b858cf2e3dec150d7c4fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 36/70] fix: abandon the request of a deleted network reply

---
 pillowcore/HttpClient.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 28bf907..b37fc21 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -9,6 +9,7 @@
 #include <QtNetwork/QNetworkCookie>
 #include <QtNetwork/QNetworkCookieJar>
 #include <QtCore/QTimer>
+#include <QtCore/QPointer>
 #include "private/zlib.h"
 
 namespace Pillow
@@ -845,8 +846,8 @@ namespace Pillow
 		Q_OBJECT
 
 	public:
-		NetworkReply(Pillow::HttpClient *client, QNetworkAccessManager::Operation op, const QNetworkRequest& request)
-			:_client(client), _contentPos(0)
+		NetworkReply(Pillow::HttpClient *client, QNetworkAccessManager::Operation op, const QNetworkRequest& request, QObject *parent)
+			: QNetworkReply(parent), _client(client), _contentPos(0)
 		{
 			connect(client, SIGNAL(headersCompleted()), this, SLOT(client_headersCompleted()));
 			connect(client, SIGNAL(contentReadyRead()), this, SLOT(client_contentReadyRead()));
@@ -858,7 +859,13 @@ namespace Pillow
 		}
 
 		~NetworkReply()
-		{}
+		{
+			if (_client)
+			{
+				disconnect(_client, 0, this, 0);
+				_client->abort();
+			}
+		}
 
 	public:
 		void abort()
@@ -963,7 +970,7 @@ namespace Pillow
 		}
 
 	private:
-		Pillow::HttpClient *_client;
+		QPointer<Pillow::HttpClient> _client; // Belongs to the network access manager.
 		QByteArray _content;
 		int _contentPos;
 	};
@@ -1006,7 +1013,7 @@ QNetworkReply *Pillow::NetworkAccessManager::createRequest(QNetworkAccessManager
 		connect(client, SIGNAL(finished()), this, SLOT(client_finished()), Qt::DirectConnection);
 	}
 
-	Pillow::NetworkReply *reply = new Pillow::NetworkReply(client, op, request);
+	Pillow::NetworkReply *reply = new Pillow::NetworkReply(client, op, request, this);
 
 	Pillow::HttpHeaderCollection headers;
 	foreach (const QByteArray &headerName, request.rawHeaderList())
-- 
2.43.0


From 4626dc84887f7a6b45ccc276e94cae43141ca385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 37/70] fix: relay the request target of a proxied request
 unchanged

---
 pillowcore/HttpHandlerProxy.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..7d7bcb0 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -30,10 +30,12 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 {
 	if (_proxiedUrl.isEmpty()) return false;
 
-	QUrl targetUrl = _proxiedUrl;
-	targetUrl.setEncodedPath(request->requestPath());
-	if (!request->requestQueryString().isEmpty()) targetUrl.setEncodedQuery(request->requestQueryString());
-	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
+	// The components of the request are already percent-encoded: setting them one by one would encode them again.
+	QByteArray target = _proxiedUrl.toEncoded(QUrl::RemovePath | QUrl::RemoveQuery | QUrl::RemoveFragment);
+	target.append(request->requestPath());
+	if (!request->requestQueryString().isEmpty()) target.append('?').append(request->requestQueryString());
+	if (!request->requestFragment().isEmpty()) target.append('#').append(request->requestFragment());
+	const QUrl targetUrl = QUrl::fromEncoded(target);
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-- 
2.43.0


From 3a30ec786db39318ac3dc1ee542fa6517dfdd5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 38/70] fix: relay all of the values of repeated headers of a
 proxied request

---
 pillowcore/HttpHandlerProxy.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7d7bcb0..2914bb2 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -39,7 +39,13 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-		proxiedRequest.setRawHeader(header.first, header.second);
+	{
+		// A QNetworkRequest has a single value per header: combine the values of repeated headers.
+		QByteArray value = header.second;
+		if (proxiedRequest.hasRawHeader(header.first))
+			value = proxiedRequest.rawHeader(header.first) + (qstricmp(header.first.constData(), "cookie") == 0 ? "; " : ", ") + value;
+		proxiedRequest.setRawHeader(header.first, value);
+	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
-- 
2.43.0


From 7c45e0ce720a78d0d1ec1ba9dfae54adc5789858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 39/70] fix: relay each cookie set by a proxied response in its
 own header

---
 pillowcore/HttpHandlerProxy.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 2914bb2..0fa169c 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -125,7 +125,17 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
-		headers << headerList.at(i);
+	{
+		const QPair<QByteArray, QByteArray>& header = headerList.at(i);
+		if (qstricmp(header.first.constData(), "set-cookie") == 0)
+		{
+			// The network reply joins the values of repeated Set-Cookie headers with line feeds.
+			foreach (const QByteArray& cookie, header.second.split('\n'))
+				headers << Pillow::HttpHeader(header.first, cookie);
+		}
+		else
+			headers << header;
+	}
 	_request->writeHeaders(statusCode, headers);
 }
 
-- 
2.43.0


From 69c1ac73faebda05a62f2060a5cd99a834a40162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 40/70] fix: do not send the cookies set for one client of the
 proxy along with the requests of the others

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 0fa169c..61fd2a3 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -38,6 +38,10 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	const QUrl targetUrl = QUrl::fromEncoded(target);
 
 	QNetworkRequest proxiedRequest(targetUrl);
+
+	// The manager is shared by all of the clients: cookies are theirs to keep and send.
+	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
 	{
 		// A QNetworkRequest has a single value per header: combine the values of repeated headers.
-- 
2.43.0


From 22e1d42081544f882f1de031e6ca88766a523840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 41/70] fix: proxied HEAD requests must not wait for content

---
 pillowcore/HttpHandlerProxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 61fd2a3..516a5df 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -58,6 +58,9 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnection *request, QNetworkRequest proxiedRequest)
 {
+	if (request->requestMethod() == "HEAD")
+		return _networkAccessManager->head(proxiedRequest); // Sent as a custom request, its response would be expected to have content.
+
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-- 
2.43.0


From 8b644f2cce5250567a830616c629af8c308511af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 42/70] fix: end proxied responses according to how the proxied
 reply ended

---
 pillowcore/HttpHandlerProxy.cpp | 45 +++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 516a5df..723b69f 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -129,12 +129,22 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 
 	// Headers have not been sent yet. Do so now.
 	int statusCode = _proxiedReply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt();
+	const bool expectsContent = statusCode != 204 && statusCode != 304;
+	bool lengthKnown = false;
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
 	{
 		const QPair<QByteArray, QByteArray>& header = headerList.at(i);
-		if (qstricmp(header.first.constData(), "set-cookie") == 0)
+		if (qstricmp(header.first.constData(), "transfer-encoding") == 0)
+			continue; // Describes the framing between us and the proxied server, not between us and the client.
+		else if (qstricmp(header.first.constData(), "content-length") == 0)
+		{
+			if (!expectsContent) continue;
+			lengthKnown = true;
+			headers << header;
+		}
+		else if (qstricmp(header.first.constData(), "set-cookie") == 0)
 		{
 			// The network reply joins the values of repeated Set-Cookie headers with line feeds.
 			foreach (const QByteArray& cookie, header.second.split('\n'))
@@ -143,6 +153,8 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 		else
 			headers << header;
 	}
+	if (expectsContent && !lengthKnown) // So that the client can tell the end of the content from a failure. Not used for HTTP/1.0 clients.
+		headers << Pillow::HttpHeader("Transfer-Encoding", "chunked");
 	_request->writeHeaders(statusCode, headers);
 }
 
@@ -159,24 +171,35 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_readyRead()
 
 void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 {
-	if (_proxiedReply->error() == QNetworkReply::NoError)
+	if (_broken) return;
+
+	// Error responses of the proxied server are also reported as errors: tell them from network and transport errors.
+	const int statusCode = _proxiedReply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt();
+	const QNetworkReply::NetworkError error = _proxiedReply->error();
+	const bool isErrorResponse = statusCode >= 400 && ((error >= QNetworkReply::ContentAccessDenied && error != QNetworkReply::ProtocolUnknownError && error != QNetworkReply::ProtocolFailure) || (statusCode == 407 && error == QNetworkReply::ProxyAuthenticationRequiredError));
+
+	if (error == QNetworkReply::NoError || isErrorResponse)
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
+		if (!_broken) pump(_proxiedReply->readAll());
 
 		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
 		{
-			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
-			_request->close();
+			if (_request->responseContentLength() < 0)
+				_request->endContent();
+			else
+				_request->close(); // The proxied server did not send as much content as it announced.
 		}
 	}
-	else
+	else if (_request->state() == Pillow::HttpConnection::SendingHeaders)
 	{
-		if (!_broken && _request->state() == Pillow::HttpConnection::SendingHeaders)
-		{
-			// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
-			_request->writeResponse(503);
-		}
+		// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
+		_request->writeResponse(503);
+	}
+	else if (_request->state() == Pillow::HttpConnection::SendingContent)
+	{
+		// Failing afterwards means that the content is incomplete: only closing the connection can tell the client.
+		_request->close();
 	}
 }
 
-- 
2.43.0


From 7b904d92059bbffaff891ecf08c9c16f3e289eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 43/70] fix: relay compressed contents unchanged, and do not
 ask for them on behalf of the client

---
 pillowcore/HttpHandlerProxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 723b69f..d7ca184 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -51,6 +51,9 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 		proxiedRequest.setRawHeader(header.first, value);
 	}
 
+	// The manager would otherwise ask for compressed contents and decompress them, leaving the headers as they were.
+	if (!proxiedRequest.hasRawHeader("Accept-Encoding")) proxiedRequest.setRawHeader("Accept-Encoding", "identity");
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From 700619b72fc94aafde164912a6f6d66ffd1c8a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 44/70] fix: know the status codes registered since HTTP/1.1
 was first published, instead of sending 500

---
 pillowcore/HttpHelpers.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pillowcore/HttpHelpers.cpp b/pillowcore/HttpHelpers.cpp
index f765d33..b59ede1 100644
--- a/pillowcore/HttpHelpers.cpp
+++ b/pillowcore/HttpHelpers.cpp
@@ -37,6 +37,9 @@ namespace Pillow
 					case 204: return "204 No Content";
 					case 205: return "205 Reset Content";
 					case 206: return "206 Partial Content";
+					case 207: return "207 Multi-Status";
+					case 208: return "208 Already Reported";
+					case 226: return "226 IM Used";
 
 					case 300: return "300 Multiple Choices";
 					case 301: return "301 Moved Permanently";
@@ -45,9 +48,11 @@ namespace Pillow
 					case 304: return "304 Not Modified";
 					case 305: return "305 Use Proxy";
 					case 307: return "307 Temporary Redirect";
+					case 308: return "308 Permanent Redirect";
 
 					case 400: return "400 Bad Request";
 					case 401: return "401 Unauthorized";
+					case 402: return "402 Payment Required";
 					case 403: return "403 Forbidden";
 					case 404: return "404 Not Found";
 					case 405: return "405 Method Not Allowed";
@@ -63,6 +68,16 @@ namespace Pillow
 					case 415: return "415 Unsupported Media Type";
 					case 416: return "416 Requested Range Not Satisfiable";
 					case 417: return "417 Expectation Failed";
+					case 421: return "421 Misdirected Request";
+					case 422: return "422 Unprocessable Entity";
+					case 423: return "423 Locked";
+					case 424: return "424 Failed Dependency";
+					case 425: return "425 Too Early";
+					case 426: return "426 Upgrade Required";
+					case 428: return "428 Precondition Required";
+					case 429: return "429 Too Many Requests";
+					case 431: return "431 Request Header Fields Too Large";
+					case 451: return "451 Unavailable For Legal Reasons";
 
 					case 500: return "500 Internal Server Error";
 					case 501: return "501 Not Implemented";
@@ -70,6 +85,10 @@ namespace Pillow
 					case 503: return "503 Service Unavailable";
 					case 504: return "504 Gateway Timeout";
 					case 505: return "505 HTTP Version Not Supported";
+					case 506: return "506 Variant Also Negotiates";
+					case 507: return "507 Insufficient Storage";
+					case 508: return "508 Loop Detected";
+					case 511: return "511 Network Authentication Required";
 				}
 				return NULL;
 			}
-- 
2.43.0


From e8a32d394130abb46580682a47df24ab29cfb33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 45/70] fix: do not let proxied requests refer to the memory of
 the client's connection

---
 pillowcore/HttpHandlerProxy.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index d7ca184..bfceeec 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -4,6 +4,13 @@
 #include <QtNetwork/QNetworkReply>
 #include <QtNetwork/QNetworkCookieJar>
 
+// The parts of a request refer to the buffer of its connection, which is used for other requests afterwards. The network
+// access manager keeps what it is given, and uses it in another thread, until it is done with its own request.
+static inline QByteArray detachedCopy(const QByteArray& data)
+{
+	return QByteArray(data.constData(), data.size());
+}
+
 //
 // Pillow::HttpHandlerProxy
 //
@@ -45,10 +52,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
 	{
 		// A QNetworkRequest has a single value per header: combine the values of repeated headers.
-		QByteArray value = header.second;
-		if (proxiedRequest.hasRawHeader(header.first))
-			value = proxiedRequest.rawHeader(header.first) + (qstricmp(header.first.constData(), "cookie") == 0 ? "; " : ", ") + value;
-		proxiedRequest.setRawHeader(header.first, value);
+		const QByteArray name = detachedCopy(header.first);
+		QByteArray value = detachedCopy(header.second);
+		if (proxiedRequest.hasRawHeader(name))
+			value = proxiedRequest.rawHeader(name) + (qstricmp(name.constData(), "cookie") == 0 ? "; " : ", ") + value;
+		proxiedRequest.setRawHeader(name, value);
 	}
 
 	// The manager would otherwise ask for compressed contents and decompress them, leaving the headers as they were.
@@ -67,11 +75,12 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-		requestContentBuffer = new QBuffer(&(const_cast<QByteArray&>(request->requestContent())));
+		requestContentBuffer = new QBuffer();
+		requestContentBuffer->setData(detachedCopy(request->requestContent()));
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, detachedCopy(request->requestMethod()), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From 640636715df86498a505a3f167cdf5fcda8a6a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:40 +0000
Subject: [PATCH 46/70] fix: do not interpret percent-encoded characters of a
 logged request as places of the log format

---
 pillowcore/HttpHandler.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 3ff74ff..159ca2c 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -156,9 +156,9 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	else if (_mode == TraceRequests)
 	{
 		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()));
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
 
 		log(logEntry);
 	}
@@ -175,11 +175,11 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
@@ -194,11 +194,11 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
-- 
2.43.0


From 59fb39ffb612c9ebf7c90e1c89b4dafc882e6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 47/70] fix: log requests that a connection closes with, and
 those not logged, from what is known of them

---
 pillowcore/HttpConnection.cpp |  1 +
 pillowcore/HttpHandler.cpp    | 98 ++++++++++++++++++++---------------
 pillowcore/HttpHandler.h      |  4 +-
 3 files changed, 60 insertions(+), 43 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 34486d7..3d299af 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -313,6 +313,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	setFromRawData(_requestContent, _requestBuffer.constData(), static_cast<int>(_parser.body_start), _requestContentLength);
 
 	// Reset our known information about the response.
+	_responseStatusCode = 0;       // None yet.
 	_responseContentLength = -1;   // The response content-length is initially unknown.
 	_responseContentBytesSent = 0; // No content bytes transfered yet.
 	_responseConnectionKeepAlive = true;
diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 159ca2c..39c13bc 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -131,23 +131,50 @@ HttpHandlerLog::HttpHandlerLog(QIODevice *device, QObject *parent)
 {
 }
 
+struct HttpHandlerLog::LoggedRequest
+{
+	QElapsedTimer timer;
+	bool completed;
+	int statusCode;
+	qint64 contentLength;
+	QString remoteAddress, method, uri, httpVersion;
+
+	QString format(const char* formatString) const
+	{
+		return QString(formatString)
+				.arg(remoteAddress, QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 method, uri, httpVersion,
+					 QString::number(statusCode), QString::number(contentLength),
+					 QString::number(timer.elapsed() / 1000.0, 'f', 3));
+	}
+};
+
 HttpHandlerLog::~HttpHandlerLog()
 {
-	foreach (QElapsedTimer* timer, _requestTimerMap)
-		delete timer;
+	foreach (LoggedRequest* request, _requestMap)
+		delete request;
 }
 
 bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer == NULL)
+	LoggedRequest* request = _requestMap.value(connection, NULL);
+	if (request == NULL)
 	{
-		timer = _requestTimerMap[connection] = new QElapsedTimer();
+		request = _requestMap[connection] = new LoggedRequest();
 		connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(requestClosed(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(destroyed(QObject*)), this, SLOT(requestDestroyed(QObject*)));
 	}
-	timer->start();
+
+	// Keep what is going to be logged, the connection may have forgotten about it by the time it closes.
+	request->timer.start();
+	request->completed = false;
+	request->statusCode = 0;
+	request->contentLength = -1;
+	request->remoteAddress = connection->remoteAddress().toString();
+	request->method = connection->requestMethod();
+	request->uri = connection->requestUri();
+	request->httpVersion = connection->requestHttpVersion();
 
 	if (_mode == LogCompletedRequests)
 	{
@@ -155,12 +182,9 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	}
 	else if (_mode == TraceRequests)
 	{
-		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString(),
-					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
-
-		log(logEntry);
+		log(QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
+				.arg(request->remoteAddress, QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 request->method, request->uri, request->httpVersion));
 	}
 
 	return false;
@@ -168,47 +192,39 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer)
+	LoggedRequest* request = _requestMap.value(connection, NULL);
+	if (request && !request->completed) // The connection may also complete requests that this handler was not asked to log.
 	{
-		const char* formatString = (_mode == LogCompletedRequests) ? "%1 - - [%2] \"%3 %4 %5\" %6 %7 %8" : "[ END ] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
-
-		qint64 elapsed = timer->elapsed();
-		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString(),
-					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
-					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
-					 QString::number(elapsed / 1000.0, 'f', 3));
-
-		log(logEntry);
+		request->completed = true;
+		request->statusCode = connection->responseStatusCode();
+		request->contentLength = connection->responseContentLength();
+		log(request->format((_mode == LogCompletedRequests) ? "%1 - - [%2] \"%3 %4 %5\" %6 %7 %8" : "[ END ] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8"));
 	}
 }
 
 void HttpHandlerLog::requestClosed(HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer && _mode == TraceRequests)
-	{
-		const char* formatString = "[CLOSE] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
-
-		qint64 elapsed = timer->elapsed();
-		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString(),
-					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
-					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
-					 QString::number(elapsed / 1000.0, 'f', 3));
+	LoggedRequest* request = _requestMap.take(connection); // The connection object may be used again for another client.
+	if (request == NULL) return;
+	disconnect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)));
+	disconnect(connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(requestClosed(Pillow::HttpConnection*)));
+	disconnect(connection, SIGNAL(destroyed(QObject*)), this, SLOT(requestDestroyed(QObject*)));
 
-		log(logEntry);
+	if (_mode == TraceRequests)
+	{
+		if (!request->completed)
+		{
+			request->statusCode = connection->responseStatusCode();
+			request->contentLength = connection->responseContentLength();
+		}
+		log(request->format("[CLOSE] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8"));
 	}
+	delete request;
 }
 
 void HttpHandlerLog::requestDestroyed(QObject *r)
 {
-	HttpConnection* connection = static_cast<HttpConnection*>(r);
-	delete _requestTimerMap.value(connection, NULL);
-	_requestTimerMap.remove(connection);
+	delete _requestMap.take(static_cast<HttpConnection*>(r));
 }
 
 void HttpHandlerLog::log(const QString &entry)
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 620e94a..1e29525 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -18,7 +18,6 @@
 #endif // Q_COMPILER_LAMBDA
 
 class QIODevice;
-class QElapsedTimer;
 
 namespace Pillow
 {
@@ -163,7 +162,8 @@ namespace Pillow
 		void log(const QString& entry);
 
 	private:
-		QHash<Pillow::HttpConnection*, QElapsedTimer*> _requestTimerMap;
+		struct LoggedRequest;
+		QHash<Pillow::HttpConnection*, LoggedRequest*> _requestMap;
 		Mode _mode;
 		QPointer<QIODevice> _device;
 	};
-- 
2.43.0


From aeb00bcb253ee11cffafd5a164c22db76084cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 48/70] fix: report the status code that was sent in place of
 an invalid one

---
 pillowcore/HttpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3d299af..6af0b4e 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -500,7 +500,8 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(500); // Internal server error.
+		statusCode = 500;
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode); // Internal server error.
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 83764539ddd8856eeef5965d994ae1ad1b1965d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 49/70] fix: bind path parameters in the order they appear in
 when a splat precedes a parameter

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..32a57f0 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -193,30 +193,20 @@ QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringL
 	QString path = p;
 
 	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
+	QRegExp anyRegex("[:*](\\w+)"); // Params and splats, in the order they will be captured.
 	QStringList paramNames;
 	int pos = 0;
 	while (pos >= 0)
 	{
-		pos = paramRegex.indexIn(path, pos);
+		pos = anyRegex.indexIn(path, pos);
 		if (pos >= 0)
 		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
+			paramNames << anyRegex.cap(1);
+			pos += anyRegex.matchedLength();
 		}
 	}
 	path.replace(paramRegex, paramReplacement);
-
-	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
-	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
-	}
 	path.replace(splatRegex, splatReplacement);
 
 	if (outParamNames)
-- 
2.43.0


From 93fa2e5db8ab75dcd8faee33ee9d83878ec6d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 50/70] fix: match the complete request path against the routes
 when it contains a null character

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 32a57f0..9e2382f 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -228,7 +228,8 @@ bool HttpHandlerSimpleRouter::handleRequest(Pillow::HttpConnection *request)
 			requestMethod = methodParam.toAscii();
 	}
 
-	QString requestPath = QUrl::fromPercentEncoding(request->requestPath());
+	QByteArray requestPathBytes = QByteArray::fromPercentEncoding(request->requestPath());
+	QString requestPath = QString::fromUtf8(requestPathBytes.constData(), requestPathBytes.size());
 
 	foreach (Route* route, d_ptr->routes)
 	{
-- 
2.43.0


From 03c418346de603fe57bb3c076b5e56573d28710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 51/70] fix: let the router decline requests that the target of
 the route could not handle

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 9e2382f..2bbdbd5 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -241,8 +241,7 @@ bool HttpHandlerSimpleRouter::handleRequest(Pillow::HttpConnection *request)
 			{
 				for (int i = 0, iE = route->paramNames.size(); i < iE; ++i)
 					request->setRequestParam(route->paramNames.at(i), route->regExp.cap(i + 1));
-				route->invoke(request);
-				return true;
+				return route->invoke(request); // Let others answer if the target declines or does not exist any more.
 			}
 		}
 	}
-- 
2.43.0


From e58dc69c27a15889b64359cf63b0e6a17d73b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 52/70] fix: do find the invokable methods that routes refer to

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 2bbdbd5..2f4b0fe 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -143,7 +143,7 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray& method, const QString&
 		member++;
 	}
 	int methodIndex = object->metaObject()->indexOfSlot(member);
-	if (methodIndex == -1) object->metaObject()->indexOfMethod(member);
+	if (methodIndex == -1) methodIndex = object->metaObject()->indexOfMethod(member);
 
 	if (methodIndex == -1)
 	{
-- 
2.43.0


From 4964c02a05d214d9d531d04167d8900667bead82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 53/70] fix: do not access handlers that another handler of the
 stack has deleted

---
 pillowcore/HttpHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 39c13bc..4ca1822 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -32,6 +32,7 @@ bool HttpHandlerStack::handleRequest(Pillow::HttpConnection *connection)
 {
 	foreach (QObject* object, children())
 	{
+		if (!children().contains(object)) continue; // Deleted meanwhile by another handler.
 		HttpHandler* handler = qobject_cast<HttpHandler*>(object);
 
 		if (handler && handler->handleRequest(connection))
-- 
2.43.0


From 3e4c95caf41f0285d36090538e8356cf9a58cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 54/70] fix: answer with an error whatever it is that a script
 has thrown

---
 pillowcore/HttpHandlerQtScript.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 2635367..6131322 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -98,7 +98,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 
 	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
 
-	if (result.isError())
+	if (engine->hasUncaughtException() || result.isError())
 	{
 		if (connection->state() == HttpConnection::SendingHeaders)
 		{
@@ -167,8 +167,9 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		QScriptValue result = engine->evaluate(file.readAll(), _fileName);
 		engine->popContext();
 
-		if (result.isError())
+		if (engine->hasUncaughtException() || result.isError())
 		{
+			engine->clearExceptions();
 			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: %2").arg(_fileName).arg(objectToString(result)));
 			return true;
 		}
-- 
2.43.0


From bf7e5f8e274ce09d272cda31cb4f89a4821cf749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 55/70] fix: answer no other request when a script throws after
 its response, and close after the headers

---
 pillowcore/HttpHandlerQtScript.cpp | 18 ++++++++++++++++--
 pillowcore/HttpHandlerQtScript.h   |  4 ++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 6131322..38c7160 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -96,22 +96,36 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
 	requestObject.setProperty("requestQueryParams", queryParamsObject);
 
+	// The script can have answered the request when it returns, with the connection already at its next request.
+	connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)), Qt::UniqueConnection);
+	_unanswered.append(connection);
 	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
+	bool unanswered = _unanswered.removeOne(connection);
 
 	if (engine->hasUncaughtException() || result.isError())
 	{
-		if (connection->state() == HttpConnection::SendingHeaders)
+		engine->clearExceptions();
+		if (unanswered && connection->state() == HttpConnection::SendingHeaders)
 		{
 			// Nothing was sent yet... We have a chance to let the client know we had an error.
 			connection->writeResponseString(500, HttpHeaderCollection(), objectToString(result));
 		}
-		engine->clearExceptions();
+		else if (unanswered && connection->state() == HttpConnection::SendingContent)
+		{
+			// The rest of the response will not come.
+			connection->close();
+		}
 		return true;
 	}
 
 	return result.toBool();
 }
 
+void HttpHandlerQtScript::requestCompleted(Pillow::HttpConnection *connection)
+{
+	_unanswered.removeAll(connection);
+}
+
 //
 // HttpHandlerQtScriptFile
 //
diff --git a/pillowcore/HttpHandlerQtScript.h b/pillowcore/HttpHandlerQtScript.h
index 7e238da..9a8c319 100644
--- a/pillowcore/HttpHandlerQtScript.h
+++ b/pillowcore/HttpHandlerQtScript.h
@@ -22,6 +22,7 @@ namespace Pillow
 	{
 		Q_OBJECT
 		QScriptValue _scriptFunction;
+		QList<Pillow::HttpConnection*> _unanswered; // Those of the requests that the script is being called for.
 
 	public:
 		HttpHandlerQtScript(QScriptValue scriptFunction, QObject *parent = 0);
@@ -33,6 +34,9 @@ namespace Pillow
 		void setScriptFunction(const QScriptValue& scriptFunction);
 
 		virtual bool handleRequest(Pillow::HttpConnection *request);
+
+	private slots:
+		void requestCompleted(Pillow::HttpConnection *request);
 	};
 
 	class PILLOWCORE_EXPORT HttpHandlerQtScriptFile : public HttpHandlerQtScript
-- 
2.43.0


From 2ae3fcf04adde070d43c8c001c68f49b6a2ae39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 56/70] fix: do load a script file again that was changed while
 it was loaded, that could not be read, or that was set since

---
 pillowcore/HttpHandlerQtScript.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 38c7160..49545cb 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -104,11 +104,12 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 
 	if (engine->hasUncaughtException() || result.isError())
 	{
+		QString error = objectToString(result);
 		engine->clearExceptions();
 		if (unanswered && connection->state() == HttpConnection::SendingHeaders)
 		{
 			// Nothing was sent yet... We have a chance to let the client know we had an error.
-			connection->writeResponseString(500, HttpHeaderCollection(), objectToString(result));
+			connection->writeResponseString(500, HttpHeaderCollection(), error);
 		}
 		else if (unanswered && connection->state() == HttpConnection::SendingContent)
 		{
@@ -131,18 +132,18 @@ void HttpHandlerQtScript::requestCompleted(Pillow::HttpConnection *connection)
 //
 
 HttpHandlerQtScriptFile::HttpHandlerQtScriptFile(QScriptEngine* engine, const QString &fileName, const QString &functionName, bool autoReload, QObject *parent)
-: HttpHandlerQtScript(parent)
+: HttpHandlerQtScript(parent), _autoReload(autoReload)
 {
 	_scriptObject = engine->newObject();
 	setFileName(fileName);
 	setFunctionName(functionName);
-	setAutoReload(autoReload);
 }
 
 void HttpHandlerQtScriptFile::setFileName(const QString &fileName)
 {
 	if (_fileName == fileName) return;
 	_fileName = fileName;
+	_lastModified = QDateTime(); // Have the script loaded by the next request.
 
 	if (!QFile::exists(fileName))
 		qWarning() << "HttpHandlerQtScriptFile::setFileName: file" << fileName << "does not exist. This handler won't be able to handle requests.";
@@ -152,6 +153,7 @@ void HttpHandlerQtScriptFile::setFunctionName(const QString &functionName)
 {
 	if (_functionName == functionName) return;
 	_functionName = functionName;
+	_lastModified = QDateTime(); // Have the function looked up by the next request.
 }
 
 void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
@@ -167,7 +169,10 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		// Time to (re)load the script.
 		qDebug() << "HttpHandlerQtScriptFile::handleRequest: (re)loading" << _fileName;
 		QFile file(_fileName);
-		if (!file.open(QIODevice::ReadOnly))
+		QDateTime lastModified = QFileInfo(_fileName).lastModified();
+		QByteArray script;
+		if (file.open(QIODevice::ReadOnly)) script = file.readAll();
+		if (!file.isOpen() || file.error() != QFile::NoError)
 		{
 			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Could not read file %1").arg(_fileName));
 			return true;
@@ -178,13 +183,14 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		QScriptContext* context = engine->pushContext();
 		context->setActivationObject(_scriptObject);
 		context->setThisObject(_scriptObject);
-		QScriptValue result = engine->evaluate(file.readAll(), _fileName);
+		QScriptValue result = engine->evaluate(script, _fileName);
 		engine->popContext();
 
 		if (engine->hasUncaughtException() || result.isError())
 		{
+			QString error = objectToString(result);
 			engine->clearExceptions();
-			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: %2").arg(_fileName).arg(objectToString(result)));
+			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: %2").arg(_fileName).arg(error));
 			return true;
 		}
 
@@ -195,7 +201,7 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 			return true;
 		}
 
-		_lastModified = QFileInfo(_fileName).lastModified();
+		_lastModified = lastModified;
 		setScriptFunction(scriptFunction);
 	}
 
-- 
2.43.0


From fc66f9147c829bb4adf19ee27dc5d5ce480717ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 57/70] fix: do not take an exception left by another script
 for one of the script of a request

---
 pillowcore/HttpHandlerQtScript.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 49545cb..1101ee1 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -99,6 +99,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	// The script can have answered the request when it returns, with the connection already at its next request.
 	connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)), Qt::UniqueConnection);
 	_unanswered.append(connection);
+	engine->clearExceptions(); // One of an earlier script is not about this request.
 	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
 	bool unanswered = _unanswered.removeOne(connection);
 
-- 
2.43.0


From 1d0dca664f2ea21525dc544d479232412a514a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 58/70] fix: keep the objects of a script while its function
 can be called

---
 pillowcore/HttpHandlerQtScript.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 1101ee1..d2f5b51 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -79,9 +79,10 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 {
 	if (!_scriptFunction.isFunction()) return false;
 
-	QScriptEngine* engine = _scriptFunction.engine();
+	QScriptValue scriptFunction = _scriptFunction; // Another one can be set while this one is running.
+	QScriptEngine* engine = scriptFunction.engine();
 	QScriptValue requestObject = engine->newObject();
-	requestObject.setProperty("nativeRequest", _scriptFunction.engine()->newQObject(connection));
+	requestObject.setProperty("nativeRequest", engine->newQObject(connection));
 	requestObject.setProperty("requestMethod", QUrl::fromPercentEncoding(connection->requestMethod()));
 	requestObject.setProperty("requestUri", QUrl::fromPercentEncoding(connection->requestUri()));
 	requestObject.setProperty("requestFragment", QUrl::fromPercentEncoding(connection->requestFragment()));
@@ -100,7 +101,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)), Qt::UniqueConnection);
 	_unanswered.append(connection);
 	engine->clearExceptions(); // One of an earlier script is not about this request.
-	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
+	QScriptValue result = scriptFunction.call(scriptFunction, QScriptValueList() << requestObject);
 	bool unanswered = _unanswered.removeOne(connection);
 
 	if (engine->hasUncaughtException() || result.isError())
@@ -180,10 +181,10 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		}
 
 		QScriptEngine* engine = _scriptObject.engine();
-		_scriptObject = engine->newObject();
+		QScriptValue scriptObject = engine->newObject();
 		QScriptContext* context = engine->pushContext();
-		context->setActivationObject(_scriptObject);
-		context->setThisObject(_scriptObject);
+		context->setActivationObject(scriptObject);
+		context->setThisObject(scriptObject);
 		QScriptValue result = engine->evaluate(script, _fileName);
 		engine->popContext();
 
@@ -195,16 +196,18 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 			return true;
 		}
 
-		QScriptValue scriptFunction = _scriptObject.property(_functionName);
+		QScriptValue scriptFunction = scriptObject.property(_functionName);
 		if (!scriptFunction.isFunction())
 		{
 			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: '%2' is not a function defined in the script").arg(_fileName).arg(_functionName));
 			return true;
 		}
 
+		_scriptObject = scriptObject;
 		_lastModified = lastModified;
 		setScriptFunction(scriptFunction);
 	}
 
+	QScriptValue scriptObject = _scriptObject; // Being the scope of the function, it has to last for the call, but is not kept by it.
 	return HttpHandlerQtScript::handleRequest(request);
 }
-- 
2.43.0


From e83d469f6edf6559e102ac58b4fd6ebadab58fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 59/70] fix: do not take the devices away from a connection
 that was reused while its end was being reported

---
 pillowcore/HttpConnection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 6af0b4e..12c4aab 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -435,10 +435,11 @@ inline void Pillow::HttpConnectionPrivate::transitionToClosed()
 
 	if (_inputDevice && _inputDevice->isOpen()) _inputDevice->close();
 	if (_outputDevice && (_inputDevice != _outputDevice) && _outputDevice->isOpen()) _outputDevice->close();
-	emit q_ptr->closed(q_ptr);
-
 	QObject::disconnect(_inputDevice, 0, q_ptr, 0);
 	if (_inputDevice != _outputDevice) QObject::disconnect(_outputDevice, 0, q_ptr, 0);
+	emit q_ptr->closed(q_ptr);
+	if (_state != Pillow::HttpConnection::Closed) return; // A slot let the connection be initialized again.
+
 	_inputDevice = 0;
 	_outputDevice = 0;
 }
-- 
2.43.0


From a8009eae6ca7621741353f5c46bd961a71b4d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:15 +0000
Subject: [PATCH 60/70] fix: read what arrives while a callback of a response
 runs an event loop once the parser is done

---
 pillowcore/HttpClient.cpp | 24 +++++++++++++++++++++++-
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b37fc21..a919fe1 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -355,7 +355,7 @@ Pillow::HttpClient::~HttpClient()
 }
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _handlingError(false), _remoteHostClosed(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _handlingError(false), _remoteHostClosed(false), _readAgain(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -567,6 +567,12 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 	switch (error)
 	{
 	case QAbstractSocket::RemoteHostClosedError:
+		if (Pillow::HttpResponseParser::isParsing())
+		{
+			// An event loop is being run within a callback: the rest of the response may be about to get parsed.
+			_remoteHostClosed = true;
+			return;
+		}
 		if (_device->bytesAvailable() > 0)
 		{
 			// Part of the response is still waiting for room in the limited read buffer.
@@ -585,6 +591,7 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 
 void Pillow::HttpClient::failRequest()
 {
+	if (Pillow::HttpResponseParser::isParsing()) Pillow::HttpResponseParser::pause(); // Within an event loop run by a callback.
 	_device->close();
 	_responsePending = false;
 
@@ -603,6 +610,13 @@ void Pillow::HttpClient::device_connected()
 
 void Pillow::HttpClient::device_readyRead()
 {
+	if (Pillow::HttpResponseParser::isParsing())
+	{
+		// An event loop is being run within a callback. The buffer is in use.
+		_readAgain = true;
+		return;
+	}
+
 	if (!_responsePending)
 	{
 		// Not supposed to be receiving data at this point. Just
@@ -634,6 +648,7 @@ void Pillow::HttpClient::device_readyRead()
 
 	qint64 bytesRead = _device->read(_buffer.data() + _buffer.size(), bytesAvailable);
 	_buffer.data_ptr()->size += bytesRead;
+	const qint64 bytesLeft = _device->bytesAvailable();
 
 	int consumed = inject(_buffer);
 
@@ -701,6 +716,13 @@ void Pillow::HttpClient::device_readyRead()
 	}
 	else
 		checkRemoteHostClosed();
+
+	if (_readAgain || (_responsePending && _device->bytesAvailable() > bytesLeft))
+	{
+		// The device does not notify about what it receives while it is in readyRead() already.
+		_readAgain = false;
+		QTimer::singleShot(0, this, SLOT(device_readyRead()));
+	}
 }
 
 void Pillow::HttpClient::checkRemoteHostClosed()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index 28044c9..7d12744 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -250,6 +250,7 @@ namespace Pillow
 		bool _responsePending;
 		bool _handlingError;
 		bool _remoteHostClosed;
+		bool _readAgain;
 		Error _error;
 		QByteArray _buffer;
 		int _keepAliveTimeout;
-- 
2.43.0


From 95c0f18f7d9fc2f4967bbf0b635e169e88445140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:15 +0000
Subject: [PATCH 61/70] fix: abort no other request when a reply is aborted or
 deleted while its error is being reported

---
 pillowcore/HttpClient.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index a919fe1..2c843a7 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -957,13 +957,17 @@ namespace Pillow
 		{
 			disconnect(_client, 0, this, 0);
 
-			if (_client->error() != Pillow::HttpClient::NoError)
+			// The client is available for other requests from now on.
+			const Pillow::HttpClient::Error clientError = _client->error();
+			_client = 0;
+
+			if (clientError != Pillow::HttpClient::NoError)
 			{
 				QNetworkReply::NetworkError error = QNetworkReply::UnknownNetworkError;
 
 				QString errorString;
 
-				switch (_client->error())
+				switch (clientError)
 				{
 				case Pillow::HttpClient::NoError: error = QNetworkReply::NoError; break;
 				case Pillow::HttpClient::NetworkError: error = QNetworkReply::UnknownNetworkError; errorString = QLatin1String("Network error"); break;
@@ -976,7 +980,6 @@ namespace Pillow
 				emit this->error(error);
 			}
 
-			_client = 0;
 			setFinished(true);
 			emit finished();
 		}
-- 
2.43.0


From 26ce6c297238c61a561a5b0606c5728f243ead95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:15 +0000
Subject: [PATCH 62/70] fix: keep the amount of a file held in memory for a
 slow client bounded over TLS too

---
 pillowcore/HttpHandler.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 4ca1822..43a0494 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -8,6 +8,7 @@
 #include <QtCore/QDateTime>
 #include <QtCore/QStringBuilder>
 #include <QtNetwork/QTcpSocket>
+#include <QtNetwork/QSslSocket>
 using namespace Pillow;
 
 //
@@ -368,6 +369,15 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 // HttpHandlerFile
 //
 
+static qint64 bytesToWriteToNetwork(const QIODevice *device)
+{
+	qint64 bytes = device->bytesToWrite();
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	if (const QSslSocket *sslSocket = qobject_cast<const QSslSocket*>(device)) bytes += sslSocket->encryptedBytesToWrite(); // Encrypted, but not written to the network yet.
+#endif
+	return bytes;
+}
+
 HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpConnection *connection, int bufferSize)
 	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize), _bytesTransferred(0)
 {
@@ -382,13 +392,17 @@ HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpCo
 	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(stop()));
 	connect(_connection, SIGNAL(destroyed()), this, SLOT(deleteLater()));
 	connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	if (qobject_cast<QSslSocket*>(_connection->outputDevice()))
+		connect(_connection->outputDevice(), SIGNAL(encryptedBytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
+#endif
 }
 
 void HttpHandlerFileTransfer::writeNextPayload()
 {
 	if (_sourceDevice == NULL || _connection == NULL || _connection->outputDevice() == NULL) return;
 
-	qint64 bytesToRead = _bufferSize - _connection->outputDevice()->bytesToWrite();
+	qint64 bytesToRead = _bufferSize - bytesToWriteToNetwork(_connection->outputDevice());
 	if (bytesToRead <= 0) return;
 	bool lengthDeclared = _connection->responseContentLength() >= 0;
 	qint64 bytesAvailable = lengthDeclared ? _connection->responseContentLength() - _bytesTransferred : _sourceDevice->size() - _sourceDevice->pos();
-- 
2.43.0


From 448ea3f3df191c4befdf12de7cdc7818ad802063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 63/70] fix: refuse chunk sizes with bytes that are no
 hexadecimal digits

---
 pillowcore/parser/http_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 6dbabe8..3b27428 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -181,6 +181,14 @@ static const int8_t unhex[256] =
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   };
 
 
-- 
2.43.0


From c80722fd2b8c6a93f070b42741235cacc78f4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 64/70] fix: notice every overflow of a content length or chunk
 size

---
 pillowcore/parser/http_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 3b27428..3fa5c2e 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -1471,7 +1471,7 @@ size_t http_parser_execute (http_parser *parser,
 			t += ch - '0';
 
 			/* Overflow? */
-			if (t < parser->content_length || t == ULLONG_MAX) {
+			if (parser->content_length > (ULLONG_MAX - 10) / 10) {
 			  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
 			  goto error;
 			}
@@ -1744,7 +1744,7 @@ size_t http_parser_execute (http_parser *parser,
 		t += unhex_val;
 
 		/* Overflow? */
-		if (t < parser->content_length || t == ULLONG_MAX) {
+		if (parser->content_length > (ULLONG_MAX - 16) / 16) {
 		  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
 		  goto error;
 		}
-- 
2.43.0


From 1435886843f2c701ffb0d50761313bc892bddbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 65/70] fix: the Upgrade header of a response that does not
 switch protocols does not end it

---
 pillowcore/parser/http_parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 3fa5c2e..0ee4c5a 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -1578,6 +1578,12 @@ size_t http_parser_execute (http_parser *parser,
 		parser->upgrade =
 		  (parser->flags & F_UPGRADE || parser->method == HTTP_CONNECT);
 
+		/* The Upgrade header of any response but 101 only says what the server
+		 * would switch to. */
+		if (parser->type == HTTP_RESPONSE && parser->status_code != 101) {
+		  parser->upgrade = 0;
+		}
+
 		/* Here we call the headers_complete callback. This is somewhat
 		 * different than other callbacks because if the user returns 1, we
 		 * will interpret that as saying that this message has no body. This
-- 
2.43.0


From d16a60832c0512f004db646b8193e0cf0d580fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 66/70] fix: refuse a content length that consists of several
 numbers

---
 pillowcore/parser/http_parser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 0ee4c5a..de219ea 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -325,6 +325,7 @@ enum header_states
 
   , h_connection
   , h_content_length
+  , h_content_length_ws
   , h_transfer_encoding
   , h_upgrade
 
@@ -1459,7 +1460,10 @@ size_t http_parser_execute (http_parser *parser,
 		  {
 			uint64_t t;
 
-			if (ch == ' ') break;
+			if (ch == ' ') {
+			  parser->header_state = h_content_length_ws;
+			  break;
+			}
 
 			if (!IS_NUM(ch)) {
 			  SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
@@ -1480,6 +1484,12 @@ size_t http_parser_execute (http_parser *parser,
 			break;
 		  }
 
+		  case h_content_length_ws:
+			/* only spaces may follow the number */
+			if (ch == ' ') break;
+			SET_ERRNO(HPE_INVALID_CONTENT_LENGTH);
+			goto error;
+
 		  /* Transfer-Encoding: chunked */
 		  case h_matching_transfer_encoding_chunked:
 			parser->index++;
-- 
2.43.0


From cc245ebeb226a8d1eb5584c3f22612d5f33a262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 67/70] fix: recognize close and keep-alive among several
 tokens of a Connection header

---
 pillowcore/HttpConnection.cpp |  6 +++---
 pillowcore/HttpHeader.cpp     | 17 +++++++++++++++++
 pillowcore/HttpHeader.h       |  4 ++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 12c4aab..e51b49a 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -564,12 +564,12 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (_requestHttp11)
 	{
 		// Keep-Alive by default, unless "close" is specified.
-		clientWantsKeepAlive = !asciiEqualsCaseInsensitive(_requestHeaders.getFieldValue(connectionToken), closeToken);
+		clientWantsKeepAlive = !_requestHeaders.testFieldToken(connectionToken, closeToken);
 	}
 	else
 	{
 		// Close by default, unless "keep-alive" is specified.
-		clientWantsKeepAlive = asciiEqualsCaseInsensitive(_requestHeaders.getFieldValue(connectionToken), keepAliveToken);
+		clientWantsKeepAlive = _requestHeaders.testFieldToken(connectionToken, keepAliveToken) && !_requestHeaders.testFieldToken(connectionToken, closeToken);
 	}
 
 	if (clientWantsKeepAlive)
@@ -580,7 +580,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		if (serverWantsKeepAlive && connectionHeader)
 		{
 			// Server is Keep-Alive by default, unless "close" is specified.
-			serverWantsKeepAlive = !asciiEqualsCaseInsensitive(connectionHeader->second, closeToken);
+			serverWantsKeepAlive = !headers.testFieldToken(connectionToken, closeToken);
 		}
 
 		_responseConnectionKeepAlive = serverWantsKeepAlive;
diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..b4e83d1 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -108,3 +108,20 @@ bool Pillow::HttpHeaderCollection::testFieldValue(const char *fieldName, int fie
 
 	return false;
 }
+
+bool Pillow::HttpHeaderCollection::testFieldToken(const Pillow::LowerCaseToken &fieldName, const Pillow::LowerCaseToken &token) const
+{
+	for (const_iterator it = constBegin(), itE = constEnd(); it != itE; ++it)
+	{
+		if (!Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(it->first, fieldName)) continue;
+
+		const QList<QByteArray> values = it->second.split(',');
+		for (int i = 0; i < values.size(); ++i)
+		{
+			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(values.at(i).trimmed(), token))
+				return true;
+		}
+	}
+
+	return false;
+}
diff --git a/pillowcore/HttpHeader.h b/pillowcore/HttpHeader.h
index e5cc359..0b7489d 100644
--- a/pillowcore/HttpHeader.h
+++ b/pillowcore/HttpHeader.h
@@ -88,6 +88,10 @@ namespace Pillow
 		template <int N, typename U> inline bool testFieldValue(const char (&fieldName)[N], const U &value) const { return testFieldValue(fieldName, N - 1, value.data(), value.size()); }
 		template <typename T, int M> inline bool testFieldValue(const T &fieldName, const char (&value)[M]) const { return testFieldValue(fieldName.data(), fieldName.size(), value, M - 1); }
 
+		// Test whether any of the headers with the specified field lists the specified token among its comma separated
+		// values. Both the field and the token are case insensitive.
+		bool testFieldToken(const Pillow::LowerCaseToken &fieldName, const Pillow::LowerCaseToken &token) const;
+
 	public:
 		// Base methods reimplemented to return HttpHeaderCollection instead of QVector<HttpHeader>.
 		HttpHeaderCollection &operator+=(const QVector<HttpHeader> &l);
-- 
2.43.0


From e241f68e6d3231accbba070f28cead9acc808aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 68/70] fix: recognize close and keep-alive among several
 tokens of the Connection header of a response

---
 pillowcore/HttpClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 2c843a7..813344d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -310,6 +310,11 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
+
+	// The parser only recognizes a Connection header that consists of a single token.
+	if (self->_headers.testFieldToken(Pillow::LowerCaseToken("connection"), Pillow::LowerCaseToken("close"))) parser->flags |= F_CONNECTION_CLOSE;
+	if (self->_headers.testFieldToken(Pillow::LowerCaseToken("connection"), Pillow::LowerCaseToken("keep-alive"))) parser->flags |= F_CONNECTION_KEEP_ALIVE;
+
 	self->headersComplete();
 
 	// 1 tells the parser that there is no content, whatever the headers declare.
-- 
2.43.0


From fb415bd6c3bbf5220f29acd0b48f36fb8393d454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:48 +0000
Subject: [PATCH 69/70] fix: keep the rest of an invalid response out of the
 response to a request made while its end is being reported

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 813344d..810e759 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -693,6 +693,7 @@ void Pillow::HttpClient::device_readyRead()
 			_error = ResponseInvalidError;
 			_device->close();
 			_responsePending = false;
+			_buffer.data_ptr()->size = 0; // A request made by a slot may get its response within an event loop run by a slot.
 			emit finished();
 		}
 	}
-- 
2.43.0


From 4d17eace823c1cf836709952c7372d44fae8f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:06 +0000
Subject: [PATCH 70/70] fix: do not delete a closed connection while one of its
 signals is being handled

---
 pillowcore/HttpConnection.cpp | 25 +++++++++++++++++++++----
 pillowcore/HttpConnection.h   |  4 ++++
 pillowcore/HttpServer.cpp     | 16 +++++++++++++++-
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index e51b49a..a77e79a 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -83,6 +83,7 @@ namespace Pillow
 		QIODevice* _inputDevice,* _outputDevice;
 		http_parser _parser;
 		bool _processingInput, _moreInput; // Whether processInput is active, and whether it needs to go through the input once more.
+		int _emitting; // How many signals are being emitted: a slot may run an event loop.
 
 		// Request fields.
 		ByteArray _requestBuffer;
@@ -133,8 +134,19 @@ namespace Pillow
 	};
 }
 
+namespace
+{
+	struct EmittingScope
+	{
+		QPointer<Pillow::HttpConnection> connection; // A slot may delete the connection.
+		int& emitting;
+		EmittingScope(Pillow::HttpConnection* connection, int& emitting) : connection(connection), emitting(emitting) { ++emitting; }
+		~EmittingScope() { if (connection) --emitting; }
+	};
+}
+
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _processingInput(false), _moreInput(false)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _processingInput(false), _moreInput(false), _emitting(0)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -318,7 +330,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	_responseContentBytesSent = 0; // No content bytes transfered yet.
 	_responseConnectionKeepAlive = true;
 	_responseChunkedTransferEncoding = false;
-	emit q_ptr->requestReady(q_ptr);
+	{ EmittingScope scope(q_ptr, _emitting); emit q_ptr->requestReady(q_ptr); }
 }
 
 inline bool Pillow::HttpConnectionPrivate::transitionToSendingContent()
@@ -354,7 +366,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 		return;
 	}
 	_state = Pillow::HttpConnection::Completed;
-	emit q_ptr->requestCompleted(q_ptr);
+	{ EmittingScope scope(q_ptr, _emitting); emit q_ptr->requestCompleted(q_ptr); }
 	if (_state != Pillow::HttpConnection::Completed) return; // The connection was closed by a slot.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
@@ -437,7 +449,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToClosed()
 	if (_outputDevice && (_inputDevice != _outputDevice) && _outputDevice->isOpen()) _outputDevice->close();
 	QObject::disconnect(_inputDevice, 0, q_ptr, 0);
 	if (_inputDevice != _outputDevice) QObject::disconnect(_outputDevice, 0, q_ptr, 0);
-	emit q_ptr->closed(q_ptr);
+	{ EmittingScope scope(q_ptr, _emitting); emit q_ptr->closed(q_ptr); }
 	if (_state != Pillow::HttpConnection::Closed) return; // A slot let the connection be initialized again.
 
 	_inputDevice = 0;
@@ -675,6 +687,11 @@ Pillow::HttpConnection::~HttpConnection()
 	delete d_ptr;
 }
 
+bool Pillow::HttpConnection::isEmitting() const
+{
+	return d_ptr->_emitting > 0;
+}
+
 void Pillow::HttpConnection::initialize(QIODevice* inputDevice, QIODevice* outputDevice)
 {
 	if (inputDevice != d_ptr->_inputDevice)
diff --git a/pillowcore/HttpConnection.h b/pillowcore/HttpConnection.h
index 1adb094..8446d6d 100644
--- a/pillowcore/HttpConnection.h
+++ b/pillowcore/HttpConnection.h
@@ -114,6 +114,10 @@ namespace Pillow
 	private:
 		Q_DECLARE_PRIVATE(HttpConnection)
 		Pillow::HttpConnectionPrivate* d_ptr;
+
+	private:
+		friend class HttpServerPrivate;
+		bool isEmitting() const; // Whether a slot connected to a signal of this connection is on the call stack.
 	};
 }
 
diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index 81b8714..a79aa1e 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -46,7 +46,21 @@ namespace Pillow
 
 		void customEvent(QEvent*)
 		{
-			deleteDiscardedConnections();
+			// This event loop may be run by a slot of a connection. Keep that one until the slot has returned.
+			QList<HttpConnection*> connections = discardedConnections;
+			discardedConnections.clear();
+			foreach (HttpConnection* connection, connections)
+			{
+				if (connection->isEmitting()) discardedConnections.append(connection);
+				else delete connection;
+			}
+			if (!discardedConnections.isEmpty()) startTimer(100);
+		}
+
+		void timerEvent(QTimerEvent* event)
+		{
+			killTimer(event->timerId());
+			customEvent(event);
 		}
 
 		HttpConnection* createConnection()
-- 
2.43.0

