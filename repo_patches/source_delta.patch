From 12744bab4a0b9fc1fa86d648d78e34e6f5839153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 01/22] fix: initialise every HttpConnection field in the
 constructor

responseStatusCode() and responseContentLength() returned indeterminate values
(and the connection log printed them) when a connection closed before its first response.
---
 pillowcore/HttpConnection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..1cc78b4 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -129,7 +129,10 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0),
+	  _requestContentLength(0), _requestContentLengthHeaderIndex(-1), _requestHttp11(false),
+	  _responseStatusCode(0), _responseContentLength(-1), _responseContentBytesSent(0),
+	  _responseConnectionKeepAlive(false), _responseChunkedTransferEncoding(false)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
-- 
2.43.0


From df37265fb4e959f38cfb05424a3325ba0acebd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 02/22] fix: do not revive a connection that was closed while
 completing a request

close() called from a slot on requestCompleted(), or by the device while it is flushed,
moved a closed connection back to ReceivingHeaders (null device dereference) or left it
in Flushing for ever.
---
 pillowcore/HttpConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 1cc78b4..275ed23 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -329,6 +329,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // Closed by a slot connected to requestCompleted.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -347,6 +348,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // The device got disconnected while flushing.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From 592fcb69729bcd20514a527076c6cf7828487449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 03/22] fix: never write the content of a response into the
 next one

When writeHeaders() completes the request (HEAD, or content-length: 0), the next pipelined
request may already be current when it returns; writeResponse() then wrote the old content to it.
---
 pillowcore/HttpConnection.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 275ed23..38e619e 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		bool writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection()); // Returns whether content is expected to follow the headers.
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -444,16 +444,16 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	const bool contentExpected = writeHeaders(statusCode, headers);
+	if (contentExpected && !content.isEmpty()) writeContent(content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
 		qWarning() << "HttpConnection::writeHeaders called while state is not 'SendingHeaders', not proceeding with sending headers.";
-		return;
+		return false;
 	}
 
 	const char* statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
@@ -554,7 +554,11 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
 	_outputDevice->write(_responseHeadersBuffer);
+
+	// Entering SendingContent completes a request that expects no content, and the next one may then already be current.
+	const bool contentExpected = _responseContentLength != 0 && _requestMethod != headToken;
 	transitionToSendingContent();
+	return contentExpected;
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From 787f856781964a0e1a1fc9d653efc9d7eb33dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 04/22] fix: do not truncate or emit negative Content-Length
 response headers

A length of 2 GiB or more was formatted as int, and a negative one was sent as is.
---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 38e619e..ee07f95 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -481,7 +481,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		{
 			bool ok = false;
 			_responseContentLength = header->second.toLongLong(&ok);
-			if (!ok)
+			if (!ok || _responseContentLength < 0)
 			{
 				// Somebody trying to be a bad server? Pretend we don't know the length.
 				qWarning() << "HttpConnection::writeHeaders: Invalid content-length header specified. Sending response as if content-length was unknown.";
@@ -548,7 +548,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From 53ca81b78e6314b6e2312a3cbcec86bfefd13ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 05/22] fix: send a status code in the status line when the
 given one is invalid

---
 pillowcore/HttpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index ee07f95..e455c89 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -461,7 +461,8 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCode = 500;
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode); // Internal server error.
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 7554f22052ab69751148283ca5d25905c766908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 06/22] fix: ignore a failed read from the input device of a
 connection

read() returning -1 made the receive buffer one byte shorter.
---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index e455c89..701f2f5 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -167,7 +167,7 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 		if (_requestBuffer.capacity() < (_requestBuffer.size() + bytesAvailable + 1))
 			_requestBuffer.reserve(_requestBuffer.size() + bytesAvailable + 1);
 		const qint64 bytesRead = _inputDevice->read(_requestBuffer.data() + _requestBuffer.size(), bytesAvailable);
-		_requestBuffer.data_ptr()->size += bytesRead;
+		if (bytesRead > 0) _requestBuffer.data_ptr()->size += bytesRead;
 		_requestBuffer.data()[_requestBuffer.data_ptr()->size] = '\0'; // The parser requires the string to be null terminated.
 	}
 
-- 
2.43.0


From f2c6256f1d66c978eff6fa407c5acc67ba334827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 07/22] fix: keep the request uri intact when its query string
 is empty

For "GET /path? HTTP/1.1", null terminating the path overwrote the question mark of the shared uri.
---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 701f2f5..970c678 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -266,7 +266,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.request_uri_len == _parser.request_path_len)
 	{
 		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
 		// will not destroy the uri (which does not include the fragment).
-- 
2.43.0


From 42128c679015944418e00cd6324c37f2c5583419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 08/22] fix: initialise the auto reload flag of
 HttpHandlerQtScriptFile before it is compared

---
 pillowcore/HttpHandlerQtScript.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 2635367..78bcb91 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -117,7 +117,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 //
 
 HttpHandlerQtScriptFile::HttpHandlerQtScriptFile(QScriptEngine* engine, const QString &fileName, const QString &functionName, bool autoReload, QObject *parent)
-: HttpHandlerQtScript(parent)
+: HttpHandlerQtScript(parent), _autoReload(autoReload)
 {
 	_scriptObject = engine->newObject();
 	setFileName(fileName);
-- 
2.43.0


From d0a079cdfb1aa15e15eff23542bea738cdab6418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 09/22] fix: HttpHandlerFile must not serve siblings whose path
 starts like the public path

---
 pillowcore/HttpHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..18774b8 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -284,7 +284,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath.endsWith('/') ? _publicPath : QString(_publicPath + '/')))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From c40bb17166a0b1c3da0e841edd31260b0fde0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 10/22] fix: HttpHandlerFile must not start a transfer for a
 HEAD request

---
 pillowcore/HttpHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 18774b8..4d6aad8 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -325,7 +325,9 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
+			const bool contentExpected = connection->requestMethod() != "HEAD"; // The request is completed by its headers otherwise.
 			connection->writeHeaders(200, headers);
+			if (!contentExpected) { delete file; return true; }
 
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
 			file->setParent(transfer);
-- 
2.43.0


From 29304e1fdb886fdcbdee6e0b8a50f361fee967e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 11/22] fix: HttpHandlerSimpleRouter must not claim requests
 its matched route declined

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..b196130 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -250,8 +250,7 @@ bool HttpHandlerSimpleRouter::handleRequest(Pillow::HttpConnection *request)
 			{
 				for (int i = 0, iE = route->paramNames.size(); i < iE; ++i)
 					request->setRequestParam(route->paramNames.at(i), route->regExp.cap(i + 1));
-				route->invoke(request);
-				return true;
+				return route->invoke(request);
 			}
 		}
 	}
-- 
2.43.0


From 795e0673a8f638ab3b03e6b3c7ecc4550af2ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:53 +0000
Subject: [PATCH 12/22] fix: end the response of the client when a proxied
 reply ends

---
 pillowcore/HttpHandlerProxy.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..a5d5477 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -138,11 +138,10 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
-		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent && _request->responseContentLength() < 0)
 		{
-			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
-			_request->close();
+			// The content-length was not specified. End the content stream, by its terminating chunk or by closing the connection.
+			_request->endContent();
 		}
 	}
 	else
@@ -153,6 +152,12 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 			_request->writeResponse(503);
 		}
 	}
+
+	if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+	{
+		// No more content will come: the client can only recognize the truncated response by the end of the connection.
+		_request->close();
+	}
 }
 
 //
-- 
2.43.0


From 827b8a37e60d7055e5ead2cad9fb56ae45562c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:56 +0000
Subject: [PATCH 13/22] fix: call the invokable method found for a route by its
 signature

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index b196130..732b269 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -143,7 +143,7 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray& method, const QString&
 		member++;
 	}
 	int methodIndex = object->metaObject()->indexOfSlot(member);
-	if (methodIndex == -1) object->metaObject()->indexOfMethod(member);
+	if (methodIndex == -1) methodIndex = object->metaObject()->indexOfMethod(member);
 
 	if (methodIndex == -1)
 	{
-- 
2.43.0


From bf7a103de81c00c461ecc3bd57a111331daa36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:29 +0000
Subject: [PATCH 14/22] fix: bind the parameters of a route in the order of
 their groups

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 30 +++++++-------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 732b269..ac4fc83 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -192,32 +192,18 @@ QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringL
 {
 	QString path = p;
 
-	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	// Parameters and splats are replaced in the order in which they appear, so that the
+	// names are in the order of the groups that capture their values.
+	QRegExp tokenRegex("([:*])(\\w+)"); QString paramReplacement("([\\w_-]+)"); QString splatReplacement("(.*)");
 	QStringList paramNames;
 	int pos = 0;
-	while (pos >= 0)
+	while ((pos = tokenRegex.indexIn(path, pos)) >= 0)
 	{
-		pos = paramRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
-		}
-	}
-	path.replace(paramRegex, paramReplacement);
-
-	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
-	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
+		const QString& replacement = tokenRegex.cap(1) == ":" ? paramReplacement : splatReplacement;
+		paramNames << tokenRegex.cap(2);
+		path.replace(pos, tokenRegex.matchedLength(), replacement);
+		pos += replacement.size();
 	}
-	path.replace(splatRegex, splatReplacement);
 
 	if (outParamNames)
 		*outParamNames = paramNames;
-- 
2.43.0


From 15931deea89cf781646ba7e86e0b6592ffc1dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 15/22] fix: do not finish a request twice when it is aborted
 from headersCompleted()

---
 pillowcore/HttpClient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..1de4182 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -679,6 +679,9 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
+	if (!_responsePending)
+		return; // The request got aborted by a slot: it is already finished.
+
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
 	{
 		pause();
-- 
2.43.0


From 2d5e6366892584ce6dfc7cdd7c9283dd57c47858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 16/22] fix: parse everything that follows several 100-continue
 responses

---
 pillowcore/HttpClient.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 1de4182..c733c45 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -594,26 +594,14 @@ void Pillow::HttpClient::device_readyRead()
 		// 2. Waiting for more data to complete the current request. (where _pendingRequest is null and consumed == buffer.size)
 		// 3. Waiting for the real response after a 100-continue response. (where _pendingRequest is null and consumed < buffer.size, because parser will stop consuming after the 100-continue).
 
-		if (!hasError())
+		while (responsePending() && !hasError() && consumed < _buffer.size())
 		{
-			if (consumed < _buffer.size())
-			{
-				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
-				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
-
-				if (consumed < _buffer.size())
-				{
-					qWarning() << "Left some unconsumed data in the buffer:" << (_buffer.size() - consumed);
-				}
-			}
-			else
-			{
-				// Just waiting for more data to consume.
-			}
+			// We had multiple responses in the buffer?
+			// It was a 100 Continue (there can be more than one) since we are still response pending.
+			consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
 		}
 
-		if (hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
+		if (responsePending() && hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
 		{
 			_error = ResponseInvalidError;
 			_device->close();
-- 
2.43.0


From fb531242da3e5e287b4a07cc4fee72d5b79d1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 17/22] fix: do not prepend the header that an aborted response
 was cut in to the headers of the next one

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index c733c45..ecd7efc 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -255,6 +255,8 @@ void Pillow::HttpResponseParser::messageBegin()
 {
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
 	_lastWasValue = false;
 }
 
-- 
2.43.0


From 8a37a2b8c810d4fc3664aac170f0e42f1718baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 18/22] fix: do not decode a response with the decoder of an
 earlier one that was aborted

---
 pillowcore/HttpClient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ecd7efc..8c24014 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -659,6 +659,10 @@ void Pillow::HttpClient::sendRequest()
 void Pillow::HttpClient::messageBegin()
 {
 	Pillow::HttpResponseParser::messageBegin();
+
+	// A previous response that got aborted or that failed did not release its decoder.
+	delete _contentDecoder;
+	_contentDecoder = 0;
 }
 
 void Pillow::HttpClient::headersComplete()
@@ -685,7 +689,7 @@ void Pillow::HttpClient::headersComplete()
 			const Pillow::HttpHeader& header = _headers.at(i);
 			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("content-encoding")))
 			{
-				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
+				if (_contentDecoder == 0 && Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
 					_contentDecoder = new Pillow::GunzipContentTransformer();
 			}
 		}
-- 
2.43.0


From 6ef3399bec191650bf52f2f3c83e150a979a82b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:02 +0000
Subject: [PATCH 19/22] fix: request the root path for a url without path

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 8c24014..aabb52d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -644,6 +644,7 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
+	if (uri.isEmpty()) uri.append('/'); // The url names the root of the server.
 	const QByteArray query = _request.url.encodedQuery();
 	if (!query.isEmpty()) uri.append('?').append(query);
 
-- 
2.43.0


From c984a7587188a3d0858b8501df78e9891869644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:49 +0000
Subject: [PATCH 20/22] fix: tell a reply that failed its error

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index aabb52d..5544ba9 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -844,6 +844,7 @@ namespace Pillow
 				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
 				}
 
+				setError(error, errorString());
 				emit this->error(error);
 			}
 
-- 
2.43.0


From 1af699b3417ad42b93e32f1baec916adcdb25dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:49 +0000
Subject: [PATCH 21/22] fix: keep the values of all the headers with the same
 name in a reply

---
 pillowcore/HttpClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 5544ba9..a636dcf 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -792,7 +792,8 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
+				// Headers with the same name are combined, as setRawHeader() replaces the value.
+				setRawHeader(header.first, hasRawHeader(header.first) ? rawHeader(header.first) + ", " + header.second : header.second);
 
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
 					cookies += QNetworkCookie::parseCookies(header.second);
-- 
2.43.0


From a191d396033a065ff4aa41d73f0f25cdb96b2719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:49 +0000
Subject: [PATCH 22/22] fix: do not copy past the end when a header collection
 is appended to itself

---
 pillowcore/HttpHeader.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..69bbee8 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -52,12 +52,13 @@ void Pillow::HttpHeader::setFromRawHeader(const char *rawHeader, int len)
 
 Pillow::HttpHeaderCollection &Pillow::HttpHeaderCollection::operator+=(const QVector<HttpHeader> &l)
 {
-	int oldSize = size();
-	resize(size() + l.size());
+	const int oldSize = size();
+	const int count = l.size(); // "l" may be this collection.
+	resize(oldSize + count);
 
 	Pillow::HttpHeader *dest = begin() + oldSize;
-	const Pillow::HttpHeader *src = l.begin();
-	const Pillow::HttpHeader *srcE = l.end();
+	const Pillow::HttpHeader *src = l.constBegin();
+	const Pillow::HttpHeader *srcE = src + count;
 	while (src != srcE)
 		*(dest++) = *(src++);
 
-- 
2.43.0

