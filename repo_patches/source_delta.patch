From b6ef2703e85835a2fb6ca7594ce5179c2c60f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 01/42] fix: bound every Buffer read by the data that is left

---
 src/utils/Buffer.cpp | 47 ++++++++++++++++++++++++++++++++++++++++++++
 src/utils/Buffer.h   |  5 +++++
 2 files changed, 52 insertions(+)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..86a0f2f 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -2,6 +2,8 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <algorithm>
+
 #include "Buffer.h"
 
 namespace eipScanner {
@@ -18,6 +20,16 @@ namespace utils {
 	Buffer::Buffer() : _buffer(0), _position{0} {
 	}
 
+	bool Buffer::require(size_t count) {
+		if (isValid() && _buffer.size() - _position >= count) {
+			return true;
+		}
+
+		// not enough data: the buffer becomes invalid and stays so
+		_position = _buffer.size() + 1;
+		return false;
+	}
+
 	Buffer &Buffer::operator<<(uint8_t val) {
 		_buffer.push_back(val);
 		return *this;
@@ -25,6 +37,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint8_t &val) {
+		if (!require(1)) {
+			val = 0;
+			return *this;
+		}
+
 		val = _buffer[_position++];
 		return *this;
 
@@ -37,6 +54,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
+		if (!require(1)) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint8_t>(_buffer[_position++]);
 		return *this;
 	}
@@ -48,6 +70,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
+		if (!require(2)) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint16_t>(_buffer[_position++]);
 		val += static_cast<uint16_t>(_buffer[_position++] << 8);
 		return *this;
@@ -71,6 +98,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
+		if (!require(4)) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint32_t>(_buffer[_position++]);
 		val += static_cast<uint32_t>(_buffer[_position++] << 8);
 		val += static_cast<uint32_t>(_buffer[_position++] << 16);
@@ -101,6 +133,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
+		if (!require(8)) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint64_t>(_buffer[_position++]);
 		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
 		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
@@ -143,6 +180,11 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
+		if (!require(val.size())) {
+			std::fill(val.begin(), val.end(), 0);
+			return *this;
+		}
+
 		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
 		_position += val.size();
 		return *this;
@@ -158,6 +200,11 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
+		if (!require(val.size() * 2)) {
+			std::fill(val.begin(), val.end(), 0);
+			return *this;
+		}
+
 		for (auto& v : val) {
 			v = static_cast<int16_t>(_buffer[_position++]);
 			v += static_cast<int16_t>(_buffer[_position++] << 8);
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..c2be4a7 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,11 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		/**
+		 * Checks that there are bytes enough to decode a value, otherwise makes the buffer invalid
+		 */
+		bool require(size_t count);
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From a7acea011535a092e38191616d7384c71c07f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 02/42] fix: report failed sends instead of ignoring them

---
 src/sockets/TCPSocket.cpp | 4 ++--
 src/sockets/UDPSocket.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..0cfb7f0 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,8 +132,8 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
+			auto count = send(_sockedFd, (char*)data.data(), data.size(), flags);
+			if (count < 0 || static_cast<size_t>(count) < data.size()) {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 		}
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..7930eb6 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,9 +59,9 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From 998b00f807bcf438c63b674d0244c8013773127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 03/42] fix: return only the bytes a socket has received

---
 src/eip/EncapsPacket.cpp  | 4 ++++
 src/sockets/TCPSocket.cpp | 1 +
 src/sockets/UDPSocket.cpp | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index 64d2ed3..c3579f8 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -99,6 +99,10 @@ namespace eip {
 	}
 
 	size_t EncapsPacket::getLengthFromHeader(const std::vector<uint8_t>& data) {
+		if (data.size() < HEADER_SIZE) {
+			throw std::runtime_error("EncapsPacket header must be " + std::to_string(HEADER_SIZE) + " bytes");
+		}
+
 		std::vector<uint8_t> lengthVector(data.begin() + 2, data.begin() + 4);
 		Buffer buf(lengthVector);
 
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 0cfb7f0..62cdac7 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -163,6 +163,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				recvBuffer.resize(count);
 			}
 
 			return recvBuffer;
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 7930eb6..69e5460 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -75,6 +75,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -89,6 +90,7 @@ namespace sockets {
 		}
 
 		endPoint = EndPoint(addr);
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 }
-- 
2.43.0


From e45e9fdc5ff2f3df2e3efeb63f29e442f9e3af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 04/42] fix: retry interrupted receives and connects

---
 src/sockets/TCPSocket.cpp |  2 +-
 src/sockets/UDPSocket.cpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 62cdac7..22026f0 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -86,7 +86,7 @@ namespace eipScanner {
 									throw std::system_error(err, BaseSocket::getErrorCategory());
 								}
 								break;
-							} else {
+							} else if (res == 0) {
 								throw std::system_error(EIPSCANNER_SOCKET_ERROR(ETIMEDOUT), BaseSocket::getErrorCategory());
 							}
 						} while (1);
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 69e5460..d4b9bf9 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -69,7 +69,10 @@ namespace sockets {
 	std::vector<uint8_t> UDPSocket::Receive(size_t size) const {
 		std::vector<uint8_t> recvBuffer(size);
 
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		decltype(recvfrom(_sockedFd, nullptr, 0, 0, nullptr, nullptr)) len;
+		do {
+			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
@@ -83,7 +86,10 @@ namespace sockets {
 		std::vector<uint8_t> recvBuffer(size);
 		struct sockaddr_in addr;
 		socklen_t addrFromLength = sizeof(addr);
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
+		decltype(recvfrom(_sockedFd, nullptr, 0, 0, nullptr, nullptr)) len;
+		do {
+			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
+		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-- 
2.43.0


From 4d045b28f8ae56557dc75584a9fef7c6d2be78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 05/42] fix: report a receive timeout that could not be set

---
 src/sockets/BaseSocket.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..6b783ad 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -21,7 +21,7 @@ namespace eipScanner {
 namespace sockets {
 
 	BaseSocket::BaseSocket(EndPoint endPoint)
-			: _sockedFd(0)
+			: _sockedFd(-1)
 			, _remoteEndPoint(std::move(endPoint))
 			, _recvTimeout(0)
 			, _beginReceiveHandler() {
@@ -77,15 +77,20 @@ namespace sockets {
 
 	void BaseSocket::setRecvTimeout(const std::chrono::milliseconds &recvTimeout) {
 		_recvTimeout = recvTimeout;
+		if (_sockedFd < 0) {
+			return;
+		}
 
 #if defined(_WIN32) || defined(WIN32) || defined(_WIN64)
                 uint32_t ms = recvTimeout.count();
-                setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&ms, sizeof ms);
+                auto res = setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&ms, sizeof ms);
 #else
                 timeval tv = makePortableInterval(recvTimeout);
-                setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
+                auto res = setsockopt(_sockedFd, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof tv);
 #endif
-
+		if (res < 0) {
+			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+		}
 	}
 
 	timeval BaseSocket::makePortableInterval(const std::chrono::milliseconds &recvTimeout) {
-- 
2.43.0


From 0232412300b6e0080997f6d9353f4b32c13b91f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 06/42] fix: close the descriptor if configuring a new TCP
 socket fails

---
 src/sockets/TCPSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 22026f0..ff9c9be 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -36,6 +36,7 @@ namespace eipScanner {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 
+			try {
 #ifdef SO_NOSIGPIPE
 			// Do not generate SIGPIPE for this socket
 			if (setsockopt(_sockedFd, SOL_SOCKET, SO_NOSIGPIPE, &(int){ 1 }, sizeof(int)) < 0) {
@@ -59,7 +60,6 @@ namespace eipScanner {
 			Logger(LogLevel::DEBUG) << "Opened TCP socket fd=" << _sockedFd;
 
 			Logger(LogLevel::DEBUG) << "Connecting to " << _remoteEndPoint.toString();
-			try {
 				auto addr = _remoteEndPoint.getAddr();
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
-- 
2.43.0


From 999d492aa4c520e00fc8952bc8b002d8a966ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 07/42] fix: forbid copying sockets, a copy closes the
 descriptor twice

---
 src/sockets/BaseSocket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sockets/BaseSocket.h b/src/sockets/BaseSocket.h
index 1019fab..b1a120f 100644
--- a/src/sockets/BaseSocket.h
+++ b/src/sockets/BaseSocket.h
@@ -25,6 +25,8 @@ namespace sockets {
 
 		explicit BaseSocket(EndPoint endPoint);
 		BaseSocket(std::string host, int port);
+		BaseSocket(const BaseSocket&) = delete;
+		BaseSocket& operator=(const BaseSocket&) = delete;
 		virtual ~BaseSocket();
 
 		virtual void Send(const std::vector<uint8_t>& data) const = 0;
-- 
2.43.0


From cb5bb0b846db46e2685cffbba7146e9e888622c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 08/42] fix: wait for sockets without undefined behaviour and
 without end

---
 src/sockets/BaseSocket.cpp | 24 ++++++++++++++++++++++--
 src/sockets/TCPSocket.cpp  |  7 +++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 6b783ad..2e5aac0 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -20,6 +20,8 @@
 namespace eipScanner {
 namespace sockets {
 
+	const int MAX_LATE_ROUNDS = 16;
+
 	BaseSocket::BaseSocket(EndPoint endPoint)
 			: _sockedFd(-1)
 			, _remoteEndPoint(std::move(endPoint))
@@ -123,6 +125,10 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
+		if (sockets.empty()) {
+			return;
+		}
+
 		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
 			return sock1->getSocketFd() < sock2->getSocketFd();
 		});
@@ -130,18 +136,31 @@ namespace sockets {
 		auto startTime = std::chrono::steady_clock::now();
 		auto stopTime = startTime + timeout;
 		int ready;
+		int lateRounds = 0;
 		do {
 			timeval tv = makePortableInterval(std::chrono::duration_cast<std::chrono::milliseconds>(stopTime-startTime));
 
 			fd_set recvSet;
 			FD_ZERO(&recvSet);
 			for (auto& sock : sockets) {
+#if defined(__unix__) || defined(__APPLE__)
+				// fd_set has no room for such a descriptor
+				if (sock->getSocketFd() < 0 || sock->getSocketFd() >= FD_SETSIZE) {
+					throw std::system_error(EIPSCANNER_SOCKET_ERROR(EINVAL), BaseSocket::getErrorCategory());
+				}
+#endif
 				FD_SET(sock->getSocketFd(), &recvSet);
 			}
 
 			ready = ::select(socketWithMaxFd->getSocketFd() + 1, &recvSet, NULL, NULL, &tv);
 			if (ready < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				if (BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+
+				// interrupted, wait for the rest of the timeout
+				FD_ZERO(&recvSet);
+				ready = 1;
 			}
 
 			for (auto& sock : sockets) {
@@ -152,7 +171,8 @@ namespace sockets {
 			}
 
 			startTime = std::chrono::steady_clock::now();
-		} while(ready > 0);
+			// serve what has already arrived but don't let a flood of data keep us here after the timeout
+		} while(ready > 0 && (startTime < stopTime || ++lateRounds < MAX_LATE_ROUNDS));
 	}
 
 	const EndPoint &BaseSocket::getRemoteEndPoint() const {
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index ff9c9be..8a5dc0d 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -68,6 +68,13 @@ namespace eipScanner {
 							fd_set myset;
 							auto tv = makePortableInterval(connTimeout);
 
+#if defined(__unix__) || defined(__APPLE__)
+							// fd_set has no room for such a descriptor
+							if (_sockedFd >= FD_SETSIZE) {
+								throw std::system_error(EIPSCANNER_SOCKET_ERROR(EINVAL), BaseSocket::getErrorCategory());
+							}
+#endif
+
 							FD_ZERO(&myset);
 							FD_SET(_sockedFd, &myset);
 							res = ::select(_sockedFd + 1, NULL, &myset, NULL, &tv);
-- 
2.43.0


From e2f462d92b4b317e28b611cfd3b6e41570b9f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:04 +0000
Subject: [PATCH 09/42] fix: let a begin-receive handler be missing or replace
 itself

---
 src/sockets/BaseSocket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 2e5aac0..c816505 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -121,7 +121,11 @@ namespace sockets {
 	}
 
 	void BaseSocket::BeginReceive() {
-		_beginReceiveHandler(*this);
+		// the handler may replace itself
+		auto handler = _beginReceiveHandler;
+		if (handler) {
+			handler(*this);
+		}
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
-- 
2.43.0


From 589204b9f1f3a522f2d7c2ced251924da1a6b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 10/42] fix: never throw from the destructor of a session

---
 src/SessionInfo.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..0498331 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -39,9 +39,13 @@ namespace eipScanner {
 	}
 
 	SessionInfo::~SessionInfo() {
-		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
+			_socket.Send(packet.pack());
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (const std::exception& e) {
+			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << e.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
-- 
2.43.0


From bf9318f377504ebae5708d61e65385b49695b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 11/42] fix: never throw from the destructor of a log message

---
 src/utils/Logger.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils/Logger.cpp b/src/utils/Logger.cpp
index 495bc84..5546395 100644
--- a/src/utils/Logger.cpp
+++ b/src/utils/Logger.cpp
@@ -16,8 +16,12 @@ namespace utils {
 	}
 
 	Logger::~Logger() {
-		if (_globalLogLevel != LogLevel::OFF && _logLevel <= _globalLogLevel) {
-			_appender->print(_logLevel, (_stream).str());
+		if (_globalLogLevel != LogLevel::OFF && _logLevel <= _globalLogLevel && _appender) {
+			try {
+				_appender->print(_logLevel, (_stream).str());
+			} catch (...) {
+				// a failed appender must not terminate the program
+			}
 		}
 	}
 
@@ -38,7 +42,8 @@ namespace utils {
 				std::make_pair(LogLevel::ERROR, "[ERROR] "),
 		};
 
-		std::cout << LOGLEVEL_NAMES.at(logLevel) << msg << std::endl;
+		auto name = LOGLEVEL_NAMES.find(logLevel);
+		std::cout << (name != LOGLEVEL_NAMES.end() ? name->second : "") << msg << std::endl;
 	}
 }
 }
\ No newline at end of file
-- 
2.43.0


From 1dd07f8331375236bd151a8c18c48e550f7b5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 12/42] fix: order end points by host and port

---
 src/ConnectionManager.cpp | 3 ++-
 src/sockets/EndPoint.cpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..b3fbbe2 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -151,7 +151,8 @@ namespace eipScanner {
 			Logger(LogLevel::INFO) << "Open UDP socket to send data to "
 					<< ioConnection->_socket->getRemoteEndPoint().toString();
 
-			findOrCreateSocket(sockets::EndPoint(si->getRemoteEndPoint().getHost(), EIP_DEFAULT_IMPLICIT_PORT));
+			// the socket is bound to any address, so one socket receives the data of all targets
+			findOrCreateSocket(sockets::EndPoint("0.0.0.0", EIP_DEFAULT_IMPLICIT_PORT));
 
 			auto result = _connectionMap
 					.insert(std::make_pair(response.getT2ONetworkConnectionId(), ioConnection));
diff --git a/src/sockets/EndPoint.cpp b/src/sockets/EndPoint.cpp
index b6de7ad..e1b4c8b 100644
--- a/src/sockets/EndPoint.cpp
+++ b/src/sockets/EndPoint.cpp
@@ -67,7 +67,7 @@ namespace sockets {
 
 	bool EndPoint::operator< (const EndPoint& rhs) const {
 		return _host < rhs._host
-			   && _port < rhs._port;
+			   || (_host == rhs._host && _port < rhs._port);
 	}
 
 	std::string EndPoint::toString() const {
-- 
2.43.0


From bce3d565ad0e528470f97e091c53b8d93d01df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 13/42] fix: refuse strings longer than their length field can
 tell

---
 src/cip/CipString.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index 1cdc713..8e30d89 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -7,6 +7,8 @@
 
 #include <cstring>
 #include <iterator>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "Types.h"
@@ -18,12 +20,12 @@ namespace cip {
 	public:
 		CipBaseString() = default;
 		explicit CipBaseString(const std::string& string) {
-			_length = string.size();
+			_length = checkLength(string.size());
 			std::copy(string.begin(), string.end(), std::back_inserter(_data));
 		}
 
 		CipBaseString(const std::vector<uint8_t>& data) {
-			_length = data.size();
+			_length = checkLength(data.size());
 			_data = data;
 		}
 
@@ -42,7 +44,15 @@ namespace cip {
 		}
 
 	private:
-		T _length;
+		static T checkLength(size_t length) {
+			if (length > std::numeric_limits<T>::max()) {
+				throw std::runtime_error("The string is too long");
+			}
+
+			return static_cast<T>(length);
+		}
+
+		T _length = 0;
 		std::vector<uint8_t> _data;
 	};
 
-- 
2.43.0


From f292f360e8c93c2fba2f69636e15063d36453cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 14/42] fix: refuse data longer than the length field of its
 frame or item

---
 src/eip/CommonPacket.cpp     | 5 +++++
 src/eip/CommonPacketItem.cpp | 6 ++++++
 src/eip/EncapsPacket.cpp     | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/eip/CommonPacket.cpp b/src/eip/CommonPacket.cpp
index c51a176..dcff7a4 100644
--- a/src/eip/CommonPacket.cpp
+++ b/src/eip/CommonPacket.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Aleksey Timin on 11/16/19.
 //
+#include <limits>
 #include <stdexcept>
 #include "CommonPacket.h"
 #include "utils/Buffer.h"
@@ -24,6 +25,10 @@ namespace eip {
 	std::vector<uint8_t> CommonPacket::pack() const {
 		Buffer buffer;
 
+		if (_items.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("Too many items for a Common Packet");
+		}
+
 		buffer << static_cast<cip::CipUint>(_items.size());
 		for (auto& item :_items) {
 			buffer << item.pack();
diff --git a/src/eip/CommonPacketItem.cpp b/src/eip/CommonPacketItem.cpp
index b716caf..cbc8802 100644
--- a/src/eip/CommonPacketItem.cpp
+++ b/src/eip/CommonPacketItem.cpp
@@ -2,6 +2,9 @@
 // Created by Aleksey Timin on 11/16/19.
 //
 
+#include <limits>
+#include <stdexcept>
+
 #include "utils/Buffer.h"
 #include "CommonPacketItem.h"
 
@@ -21,6 +24,9 @@ namespace eip {
 		, _length(data.size())
 		, _data(data) {
 
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("Too much data for a Common Packet item");
+		}
 	}
 
 	CommonPacketItem::~CommonPacketItem() = default;
diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index c3579f8..09d6109 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -2,6 +2,7 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <limits>
 #include <string>
 #include <stdexcept>
 #include "EncapsPacket.h"
@@ -94,6 +95,10 @@ namespace eip {
 	}
 
 	void EncapsPacket::setData(const std::vector<uint8_t> &data) {
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("Too much data for EncapsPacket");
+		}
+
 		_data = data;
 		_length = data.size();
 	}
-- 
2.43.0


From 35b58318a4bfce5913dde6284591cca72fdc17d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 15/42] fix: throw if a common packet has less items than it
 announces

---
 src/eip/CommonPacket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eip/CommonPacket.cpp b/src/eip/CommonPacket.cpp
index dcff7a4..a40f5d1 100644
--- a/src/eip/CommonPacket.cpp
+++ b/src/eip/CommonPacket.cpp
@@ -43,7 +43,11 @@ namespace eip {
 		Buffer buffer(data);
 		cip::CipUint count;
 		buffer >> count;
-		for (int i = 0; i < count && !buffer.empty(); ++i) {
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Wrong Common Packet format");
+		}
+
+		for (int i = 0; i < count; ++i) {
 			cip::CipUint typeId;
 			cip::CipUint length;
 			buffer >> typeId >> length;
-- 
2.43.0


From 5fb7c10dc640969fa1e3272703e668c45d3f2ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 16/42] fix: keep every id of an object path

---
 src/cip/EPath.cpp                             | 27 ++++++++++++++++---
 .../yaskawa/mp3300iec/Yaskawa_EPath.cpp       | 24 ++++++++++++++---
 2 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..e980306 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -52,7 +52,14 @@ namespace cip {
 	std::vector<uint8_t> EPath::packPaddedPath(bool use_8_bit_path_segments) const {
         if (use_8_bit_path_segments)
         {
+            if (_classId > 0xFF || _objectId > 0xFF || _attributeId > 0xFF) {
+                throw std::runtime_error("EPATH " + toString() + " doesn't fit 8-bit segments");
+            }
+
             Buffer buffer(_size*2);
+            if (_size == 0) {
+                return buffer.data();
+            }
 
             auto classSegment = static_cast<CipUsint>(EPathSegmentTypes::CLASS_8_BITS);
             buffer << classSegment << static_cast<CipUsint>(_classId);
@@ -72,6 +79,9 @@ namespace cip {
         else
         {
             Buffer buffer(_size*4);
+            if (_size == 0) {
+                return buffer.data();
+            }
 
             auto classSegment = static_cast<CipUint>(EPathSegmentTypes::CLASS_16_BITS);
             buffer << classSegment << _classId;
@@ -132,6 +142,9 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -142,43 +155,49 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
 			}
 		}
 
-		if (!buffer.isValid()) {
+		if (!buffer.isValid() || (hasObject && !hasClass) || (hasAttribute && !hasObject)) {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..dcd86fa 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -47,6 +47,9 @@ namespace cip {
 
 	std::vector<uint8_t> Yaskawa_EPath::packPaddedPath() const {
 		Buffer buffer(_size*2);
+		if (_size == 0) {
+			return buffer.data();
+		}
 
 		auto classSegment = static_cast<CipUsint>(EPathSegmentTypes::CLASS_8_BITS);
 		buffer << classSegment << _classId;
@@ -102,6 +105,9 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -112,43 +118,53 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
 			}
+
+			if (word > 0xFF) {
+				throw std::runtime_error("EPATH id=" + std::to_string(word) + " doesn't fit 8 bits");
+			}
 		}
 
-		if (!buffer.isValid()) {
+		if (!buffer.isValid() || (hasObject && !hasClass) || (hasAttribute && !hasObject)) {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
-- 
2.43.0


From e8b58d2a3f244d033c0a8596549d5fa380e1b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 17/42] fix: report too short explicit replies as
 std::runtime_error

---
 src/MessageRouter.cpp                                  | 9 +++++++++
 src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/MessageRouter.cpp b/src/MessageRouter.cpp
index 16f2232..5c45466 100644
--- a/src/MessageRouter.cpp
+++ b/src/MessageRouter.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <cassert>
+#include <stdexcept>
 #include "eip/EncapsPacketFactory.h"
 #include "utils/Buffer.h"
 #include "MessageRouter.h"
@@ -59,6 +60,10 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("Too short reply to an explicit request");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
@@ -70,6 +75,10 @@ namespace eipScanner {
 		MessageRouterResponse response;
 		const CommonPacketItem::Vec &items = commonPacket.getItems();
 
+		if (items.size() < 2) {
+			throw std::runtime_error("No data item in the reply to an explicit request");
+		}
+
 		response.expand(items.at(1).getData());
 		if (items.size() > 2) {
 			response.setAdditionalPacketItems(
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
index f966901..2509ffd 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
@@ -1,5 +1,6 @@
 
 #include <cassert>
+#include <stdexcept>
 #include "eip/EncapsPacketFactory.h"
 #include "utils/Buffer.h"
 #include "Yaskawa_MessageRouter.h"
@@ -54,6 +55,10 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		if (receivedPacket.getData().size() < 6) {
+			throw std::runtime_error("Too short reply to an explicit request");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
@@ -65,6 +70,10 @@ namespace eipScanner {
 		MessageRouterResponse response;
 		const CommonPacketItem::Vec &items = commonPacket.getItems();
 
+		if (items.size() < 2) {
+			throw std::runtime_error("No data item in the reply to an explicit request");
+		}
+
 		response.expand(items.at(1).getData());
 		if (items.size() > 2) {
 			response.setAdditionalPacketItems(
-- 
2.43.0


From 6d4b0be61e58f93c2d2221f4a84e1c8cb11600ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 18/42] fix: report truncated connection-open replies

---
 src/ConnectionManager.cpp                         | 4 ++++
 src/cip/connectionManager/ForwardOpenResponse.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index b3fbbe2..53e1928 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -5,6 +5,7 @@
 #include <cassert>
 #include <cstdlib>
 #include <random>
+#include <stdexcept>
 
 #include "ConnectionManager.h"
 #include "eip/CommonPacket.h"
@@ -136,6 +137,9 @@ namespace eipScanner {
 				Buffer sockAddrBuffer(o2tSockAddrInfo->getData());
 				sockets::EndPoint endPoint("",0);
 				sockAddrBuffer >> endPoint;
+				if (!sockAddrBuffer.isValid()) {
+					throw std::runtime_error("Not enough data in the socket address item");
+				}
 
 				if (endPoint.getHost() == "0.0.0.0") {
 					ioConnection->_socket = std::make_unique<UDPSocket>(
diff --git a/src/cip/connectionManager/ForwardOpenResponse.cpp b/src/cip/connectionManager/ForwardOpenResponse.cpp
index 622c1d1..d1282c1 100644
--- a/src/cip/connectionManager/ForwardOpenResponse.cpp
+++ b/src/cip/connectionManager/ForwardOpenResponse.cpp
@@ -2,6 +2,7 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <stdexcept>
 #include "ForwardOpenResponse.h"
 #include "utils/Buffer.h"
 
@@ -41,6 +42,10 @@ namespace connectionManager {
 
 		_applicationReplay.resize(_applicationReplaySize*2);
 		buffer >> _applicationReplay;
+
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Not enough data in the Forward Open response");
+		}
 	}
 
 	CipUdint ForwardOpenResponse::getO2TNetworkConnectionId() const {
-- 
2.43.0


From 949fa36f7869cfaf079c8e106609abb714fa453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 19/42] fix: report truncated identity replies

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..5e11fea 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -48,7 +48,7 @@ namespace eipScanner {
 				>> _productName;
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 		} else {
-- 
2.43.0


From ea219d6c50dcd34de42899a5126efdf1d3462bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 20/42] fix: report truncated parameter replies and too small
 values

---
 src/ParameterObject.cpp | 16 ++++++++++++++--
 src/ParameterObject.h   |  4 ++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..11b8d9a 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -93,6 +93,9 @@ namespace eipScanner {
 			CipUsint dataSize;
 			Buffer buffer(response.getData());
 			buffer >> dataSize;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			_value.resize(dataSize);
 			_minValue.resize(dataSize);
@@ -142,6 +145,9 @@ namespace eipScanner {
 					ignore.resize(16); // Ignore scaling attributes we read it separately due to a bug
 					buffer >> ignore
 						>> _precision;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
 
 					std::vector<uint8_t> data;
 					for (int attrId = ParameterObjectAttributeIds::SCALING_MULTIPLIER;
@@ -167,7 +173,7 @@ namespace eipScanner {
 			}
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 			Logger(LogLevel::DEBUG) << "Read Parameter Object"
@@ -189,7 +195,13 @@ namespace eipScanner {
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
 			Buffer buffer(response.getData());
-			buffer >> _value;
+			std::vector<uint8_t> value(_value.size());
+			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
+			_value = value;
 		} else {
 			cip::logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed to read value");
diff --git a/src/ParameterObject.h b/src/ParameterObject.h
index c338f24..99897bf 100644
--- a/src/ParameterObject.h
+++ b/src/ParameterObject.h
@@ -349,6 +349,10 @@ private:
 		utils::Buffer buffer(data);
 		T v;
 		buffer >> v;
+		if (!buffer.isValid()) {
+			throw std::runtime_error("The value has not enough bytes");
+		}
+
 		return v;
 	}
 
-- 
2.43.0


From ee859ec46adb3874ab5ede86516c319aea6b1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 21/42] fix: let a parameter created without requests be
 updated

---
 src/ParameterObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 11b8d9a..4c42b2d 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -56,7 +56,8 @@ namespace eipScanner {
             , _scalingDivisor(1)
             , _scalingBase(1)
             , _scalingOffset(0)
-            , _precision(0) {
+            , _precision(0)
+            , _messageRouter(std::make_shared<MessageRouter>()) {
     }
 
     ParameterObject::ParameterObject(cip::CipUint instanceId, bool fullAttributes,
-- 
2.43.0


From 1c5ade08cdc131993ab49789422f4d4a6e9af7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 22/42] fix: convert engineering values without integer
 overflow

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 4c42b2d..037a448 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -319,7 +319,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<cip::CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
-- 
2.43.0


From c172f379e17847f1cb9198e490bcae0e6ceccade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 23/42] fix: report truncated drive fault replies

---
 src/vendor/ra/powerFlex525/DPIFaultObject.cpp    | 5 +++++
 src/vendor/ra/powerFlex525/DPIFaultParameter.cpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
index e3f99cb..0794ca8 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
@@ -3,6 +3,7 @@
 //
 
 
+#include <stdexcept>
 #include "DPIFaultObject.h"
 #include "utils/Buffer.h"
 
@@ -54,6 +55,10 @@ namespace powerFlex525 {
 
             cip::CipUint flags;
             buffer >> flags;
+            if (!buffer.isValid()) {
+                throw std::runtime_error("Not enough data in the response");
+            }
+
             _fullInformation.isValidData = flags & VALID_DATA;
             _fullInformation.isRealTime = flags & REAL_TIME;
         } else {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
index db43afb..b4cd508 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
@@ -168,6 +168,9 @@ namespace powerFlex525 {
 			Buffer buffer(response.getData());
 			CipUint value;
 			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			return value;
 
-- 
2.43.0


From 1f4e774cdf9afa80dbfcaf0f9139afc6419e1e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 24/42] fix: let a new-fault handler replace itself

---
 src/vendor/ra/powerFlex525/DPIFaultManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
index 00f2334..313f581 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
@@ -67,7 +67,8 @@ namespace powerFlex525 {
 				faultInformation.setFaultDetails(faultDetails);
 			}
 			faultCount++;
-			_newFaultHandler(faultInformation);
+			auto handler = _newFaultHandler; // the handler may replace itself
+			handler(faultInformation);
 		}
 
 		if (faultCount > 0) {
-- 
2.43.0


From 896d3c24c528aa2631a9cc2161022f356cd389b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 25/42] fix: track connections by their full 32-bit id

---
 src/ConnectionManager.cpp | 2 +-
 src/ConnectionManager.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 53e1928..9e7f5d0 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -59,7 +59,7 @@ namespace eipScanner {
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
 		if (o2tNCP.getConnectionType() == NetworkConnectionParametersBuilder::MULTICAST) {
-			static cip::CipUint idCount = _incarnationId << 16;
+			static cip::CipUdint idCount = _incarnationId << 16;
 			connectionParameters.o2tNetworkConnectionId = ++idCount;
 		}
 
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From a53ccdd7e63debaddf87c0f6344c3ac34faf42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:22 +0000
Subject: [PATCH 26/42] fix: measure the silence of a connection without
 truncation or overflow

---
 src/ConnectionManager.cpp |  5 +++++
 src/IOConnection.cpp      | 16 +++++++++-------
 src/IOConnection.h        |  8 ++++----
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 9e7f5d0..3ffd202 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -52,6 +52,11 @@ namespace eipScanner {
 
 	IOConnection::WPtr
 	ConnectionManager::forwardOpen(const SessionInfoIf::SPtr& si, ConnectionParameters connectionParameters, bool isLarge) {
+		// values above 7 are reserved
+		if (connectionParameters.connectionTimeoutMultiplier > 7) {
+			throw std::runtime_error("The connection timeout multiplier must be from 0 to 7");
+		}
+
 		static int serialNumberCount = 0;
 		connectionParameters.connectionSerialNumber = ++serialNumberCount;
 
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..831d241 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -29,7 +29,6 @@ namespace eipScanner {
 			, _o2tTimer{0}
 			, _t2o_timer{0}
 			, _connectionTimeoutMultiplier{0}
-			, _connectionTimeoutCount{0}
 			, _o2tSequenceNumber{0}
 			, _t2oSequenceNumber{0}
 			, _serialNumber{0}
@@ -44,7 +43,8 @@ namespace eipScanner {
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
-			, _lastHandleTime(std::chrono::steady_clock::now()) {
+			, _lastHandleTime(std::chrono::steady_clock::now())
+			, _lastReceiveTime(_lastHandleTime) {
 	}
 
 	IOConnection::~IOConnection() = default;
@@ -85,7 +85,7 @@ namespace eipScanner {
 				<< " has fixed size " << _t2oDataSize << " bytes but " << ioData.size()
 				<< " bytes were received. Ignore this data.";
 		} else {
-			_connectionTimeoutCount = 0;
+			_lastReceiveTime = std::chrono::steady_clock::now();
 			_receiveDataHandle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
@@ -94,11 +94,13 @@ namespace eipScanner {
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
 		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
+		auto sinceLastReceive =
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastReceiveTime);
 
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
-		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
+		uint64_t periodInMicroS = sinceLastHandle.count();
+		uint64_t silenceInMicroS = sinceLastReceive.count();
+		if (silenceInMicroS > _connectionTimeoutMultiplier * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..7d0b7f7 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,11 +80,10 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
-		cip::CipUdint _t2o_timer;
+		uint64_t _o2tTimer;
+		uint64_t _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
+		uint64_t _connectionTimeoutMultiplier;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
@@ -107,6 +106,7 @@ namespace eipScanner {
 		SendDataHandle _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
+		std::chrono::steady_clock::time_point _lastReceiveTime;
 	};
 }
 
-- 
2.43.0


From b7960812b02ba3246dd3616cad64bc1e56ee801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 27/42] fix: read the headers of consumed data in their order
 and only if they are there

---
 src/IOConnection.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 831d241..a383761 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -70,13 +70,19 @@ namespace eipScanner {
 		cip::CipUdint runtimeHeader = 0;
 		cip::CipUint sequenceValueCount = 0;
 
+		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
+			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
+			buffer >> sequenceValueCount;
+		}
+
 		if (_t2oRealTimeFormat) {
 			buffer >> runtimeHeader;
 		}
 
-		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
-			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
-			buffer >> sequenceValueCount;
+		if (!buffer.isValid()) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received too little data. Ignore this data.";
+			return;
 		}
 
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
-- 
2.43.0


From 2e628ef42233bb95bab1cabf06bddde6e2db7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 28/42] fix: discard malformed I/O datagrams

---
 src/ConnectionManager.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 3ffd202..0b1aa0f 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -249,12 +249,27 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
+				try {
+					commonPacket.expand(recvData);
+				} catch (const std::runtime_error& e) {
+					Logger(LogLevel::WARNING) << "Received malformed data: " << e.what();
+					return;
+				}
+
+				if (commonPacket.getItems().size() < 2) {
+					Logger(LogLevel::WARNING) << "Received data without address or data item";
+					return;
+				}
 
 				// TODO: Check TypeIDs and sequence of the packages
 				Buffer buffer(commonPacket.getItems().at(0).getData());
 				cip::CipUdint connectionId;
 				buffer >> connectionId;
+				if (!buffer.isValid()) {
+					Logger(LogLevel::WARNING) << "Received data without connection ID";
+					return;
+				}
+
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
-- 
2.43.0


From 493cc373980df7e331d5380b6593c7d49e196f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:08 +0000
Subject: [PATCH 29/42] fix: let I/O listeners open, close and handle
 connections

---
 src/ConnectionManager.cpp | 21 +++++++++++++--------
 src/ConnectionManager.h   |  3 +++
 src/IOConnection.cpp      |  7 ++++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 0b1aa0f..8d52348 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -224,15 +224,19 @@ namespace eipScanner {
 
 		BaseSocket::select(sockets, timeout);
 
-		std::vector<cip::CipUdint> connectionsToClose;
-		for (auto& entry : _connectionMap) {
-			if (!entry.second->notifyTick()) {
-				connectionsToClose.push_back(entry.first);
+		// the listeners may open, close and handle connections, so iterate over a copy
+		auto connections = _connectionMap;
+		for (auto& entry : connections) {
+			auto io = _connectionMap.find(entry.first);
+			if (io == _connectionMap.end() || io->second != entry.second) {
+				continue;
 			}
-		}
 
-		for (auto& id : connectionsToClose) {
-			_connectionMap.erase(id);
+			if (!entry.second->notifyTick()) {
+				_connectionMap.erase(entry.first);
+				auto handle = entry.second->_closeHandle;
+				handle();
+			}
 		}
 	}
 
@@ -274,7 +278,8 @@ namespace eipScanner {
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(commonPacket.getItems().at(1).getData());
+					auto ioConnection = io->second; // the listener may close the connection
+					ioConnection->notifyReceiveData(commonPacket.getItems().at(1).getData());
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index ab54392..0f42333 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -37,6 +37,9 @@ namespace eipScanner {
 		 */
 		~ConnectionManager();
 
+		ConnectionManager(const ConnectionManager&) = delete;
+		ConnectionManager& operator=(const ConnectionManager&) = delete;
+
 		/**
 		 * @brief Opens an EIP IO connection with the EIP adapter
 		 * @param si the EIP session for explicit messaging
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index a383761..061b20c 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -92,7 +92,8 @@ namespace eipScanner {
 				<< " bytes were received. Ignore this data.";
 		} else {
 			_lastReceiveTime = std::chrono::steady_clock::now();
-			_receiveDataHandle(runtimeHeader, sequenceValueCount,
+			auto handle = _receiveDataHandle; // the listener may replace itself
+			handle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
 	}
@@ -108,7 +109,6 @@ namespace eipScanner {
 		uint64_t silenceInMicroS = sinceLastReceive.count();
 		if (silenceInMicroS > _connectionTimeoutMultiplier * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
-			_closeHandle();
 			return false;
 		}
 
@@ -133,7 +133,8 @@ namespace eipScanner {
 			}
 
 			_o2tTimer = 0;
-			_sendDataHandle(_outputData);
+			auto handle = _sendDataHandle; // the listener may replace itself
+			handle(_outputData);
 			if (_o2tFixedSize && _outputData.size() != _o2tDataSize)  {
 				Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
 										  << " has fixed size " << _o2tDataSize << " bytes but " << _outputData.size()
-- 
2.43.0


From 13b32b2cdb86f883bb0abe1b917494cea9ba6867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:11 +0000
Subject: [PATCH 30/42] fix: let a timed-out connection be closed

---
 src/ConnectionManager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 8d52348..e839b0a 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -206,9 +206,11 @@ namespace eipScanner {
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
 
-			auto rc = _connectionMap.erase(ptr->_t2oNetworkConnectionId);
-			(void) rc;
-			assert(rc);
+			// it may be gone already if it timed out
+			auto io = _connectionMap.find(ptr->_t2oNetworkConnectionId);
+			if (io != _connectionMap.end() && io->second == ptr) {
+				_connectionMap.erase(io);
+			}
 		} else {
 			Logger(LogLevel::WARNING) << "Attempt to close an already closed connection";
 		}
-- 
2.43.0


From 960be4117357b6ad0f5678c2ab990591d19ed6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 31/42] fix: refuse connection paths and sizes that do not fit
 the requests

---
 src/ConnectionManager.cpp                         | 13 +++++++++++++
 src/cip/connectionManager/ForwardCloseRequest.cpp |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index e839b0a..b54c45f 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -76,9 +76,22 @@ namespace eipScanner {
 		auto o2tSize = o2tNCP.getConnectionSize();
 		auto t2oSize = t2oNCP.getConnectionSize();
 
+		if (connectionParameters.connectionPath.size() % 2 != 0 || connectionParameters.connectionPath.size() / 2 > 0xFF) {
+			throw std::runtime_error("The connection path must have up to 255 16-bit words");
+		}
+
 		connectionParameters.connectionPathSize = (connectionParameters.connectionPath .size() / 2)
 				+ (connectionParameters.connectionPath.size() % 2);
 
+		// the headers must not overflow the size into the flags
+		const size_t maxSize = isLarge ? 0xFFFF : 0x1FF;
+		const bool hasSequenceCount = (connectionParameters.transportTypeTrigger
+			& (NetworkConnectionParams::CLASS1 | NetworkConnectionParams::CLASS3)) > 0;
+		if (o2tSize + (hasSequenceCount ? 2 : 0) + (connectionParameters.o2tRealTimeFormat ? 4 : 0) > maxSize
+			|| t2oSize + (hasSequenceCount ? 2 : 0) + (connectionParameters.t2oRealTimeFormat ? 4 : 0) > maxSize) {
+			throw std::runtime_error("The connection size is too big");
+		}
+
 		if ((connectionParameters.transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
 			|| (connectionParameters.transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
 			connectionParameters.o2tNetworkConnectionParams += 2;
diff --git a/src/cip/connectionManager/ForwardCloseRequest.cpp b/src/cip/connectionManager/ForwardCloseRequest.cpp
index 4134f80..d910745 100644
--- a/src/cip/connectionManager/ForwardCloseRequest.cpp
+++ b/src/cip/connectionManager/ForwardCloseRequest.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Aleksey Timin on 11/19/19.
 //
+#include <stdexcept>
 #include "ForwardCloseRequest.h"
 #include "utils/Buffer.h"
 
@@ -24,6 +25,10 @@ namespace connectionManager {
 		CipUsint timeOutTicks = 0;
 		CipUsint reserved = 0;
 
+		if (_connectionPath.size() % 2 != 0 || _connectionPath.size() / 2 > 0xFF) {
+			throw std::runtime_error("The connection path must have up to 255 16-bit words");
+		}
+
 		buffer << timeTick
 			<< timeOutTicks
 			<< _connectionSerialNumber
-- 
2.43.0


From 39d47d18dc4ae0ab1a2088af73fb387e9d35c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 32/42] fix: let network connection parameters be set again and
 chained

---
 .../NetworkConnectionParametersBuilder.cpp    | 20 +++++++++----------
 .../NetworkConnectionParametersBuilder.h      |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..bc467f4 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,38 +19,38 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
-			_value |= (val << 31);
+			_value = (_value & ~(CipUdint(1) << 31)) | (static_cast<CipUdint>(val) << 31);
 		} else {
-			_value |= (val << 15);
+			_value = (_value & ~(CipUdint(1) << 15)) | (static_cast<CipUdint>(val) << 15);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setConnectionType(ConnectionType val) {
 		if (_lfo) {
-			_value |= (val << 29);
+			_value = (_value & ~(CipUdint(3) << 29)) | (static_cast<CipUdint>(val) << 29);
 		} else {
-			_value |= (val << 13);
+			_value = (_value & ~(CipUdint(3) << 13)) | (static_cast<CipUdint>(val) << 13);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setPriority(Priority val) {
 		if (_lfo) {
-			_value |= (val << 26);
+			_value = (_value & ~(CipUdint(3) << 26)) | (static_cast<CipUdint>(val) << 26);
 		}else {
-			_value |= (val << 10);
+			_value = (_value & ~(CipUdint(3) << 10)) | (static_cast<CipUdint>(val) << 10);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setType(Type val) {
 		if (_lfo) {
-			_value |= (val << 25);
+			_value = (_value & ~(CipUdint(1) << 25)) | (static_cast<CipUdint>(val) << 25);
 		} else {
-			_value |= (val << 9);
+			_value = (_value & ~(CipUdint(1) << 9)) | (static_cast<CipUdint>(val) << 9);
 		}
 		return *this;
 	}
@@ -60,7 +60,7 @@ namespace connectionManager {
 		if (_lfo) {
 			mask = 0x0000FFFF;
 		}
-		_value |= val & mask;
+		_value = (_value & ~mask) | (val & mask);
 		return *this;
 	}
 
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..203bb1a 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
-- 
2.43.0


From d2c8d554c3e1dced92bf355a7e0309b6f751e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 33/42] fix: report truncated file object replies

---
 src/fileObject/FileObjectLoadedState.cpp           |  4 ++++
 src/fileObject/FileObjectState.cpp                 |  3 +++
 src/fileObject/FileObjectUploadInProgressState.cpp | 14 ++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/fileObject/FileObjectLoadedState.cpp b/src/fileObject/FileObjectLoadedState.cpp
index f078943..3055990 100644
--- a/src/fileObject/FileObjectLoadedState.cpp
+++ b/src/fileObject/FileObjectLoadedState.cpp
@@ -31,6 +31,10 @@ namespace fileObject {
 			cip::CipUsint transferSize = 0;
 
 			buffer >> fileSize >> transferSize;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			setState<FileObjectUploadInProgressState>(fileSize, transferSize, handler);
 
 		} else {
diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..394b847 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -63,6 +63,9 @@ namespace fileObject {
 			Buffer buffer(response.getData());
 			cip::CipUsint stateCode;
 			buffer >> stateCode;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			switch (static_cast<FileObjectStateCodes>(stateCode)) {
 				case FileObjectStateCodes::NONEXISTENT:
diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..7775354 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -47,6 +47,10 @@ namespace fileObject {
 
 
 			buffer >> transferNumber >> reinterpret_cast<cip::CipUsint&>(transferPacketType);
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			logWithStateName(LogLevel::DEBUG,
 					"Receive transfer packet type=" + std::to_string(
 							static_cast<cip::CipUsint>(transferPacketType)));
@@ -61,6 +65,9 @@ namespace fileObject {
 				case TransferPacketTypeCodes::FIRST: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
@@ -68,12 +75,19 @@ namespace fileObject {
 				case TransferPacketTypeCodes::MIDDLE: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
 				}
 				case TransferPacketTypeCodes::LAST:
 				case TransferPacketTypeCodes::FIRST_AND_LAST: {
+					if (response.getData().size() < 4) {
+						throw std::runtime_error("Not enough data in the response");
+					}
+
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
 					buffer >> fileData;
 
-- 
2.43.0


From 7f7f1772b23492ff4102fb99181ef0e7787f8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 34/42] fix: finish a file upload exactly once, also on a
 failing status

---
 .../FileObjectUploadInProgressState.cpp       | 22 +++++++++++++++----
 .../FileObjectUploadInProgressState.h         |  3 +++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 7775354..f7919d4 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -20,6 +20,7 @@ namespace fileObject {
 			, _transferSize{transferSize}
 			, _fileContent()
 			, _transferNumber{0}
+			, _isFinished{false}
 			, _handler(std::move(handler)){
 	}
 
@@ -31,7 +32,19 @@ namespace fileObject {
 		//TODO: Implement
 	}
 
+	void FileObjectUploadInProgressState::finish(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent) {
+		// the handler may change the state of the owner and so destroy this object
+		_isFinished = true;
+		auto handler = _handler;
+		handler(status, fileContent);
+	}
+
 	bool FileObjectUploadInProgressState::transfer(SessionInfoIf::SPtr si) {
+		if (_isFinished) {
+			logWithStateName(LogLevel::WARNING, "The upload is finished");
+			return false;
+		}
+
 		Buffer buffer;
 		buffer << _transferNumber;
 
@@ -57,7 +70,7 @@ namespace fileObject {
 
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
-				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+				finish(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 				return false;
 			}
 
@@ -93,10 +106,10 @@ namespace fileObject {
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					if (_fileContent.size() == _fileSize) {
-						_handler(cip::GeneralStatusCodes::SUCCESS, _fileContent);
+						finish(cip::GeneralStatusCodes::SUCCESS, _fileContent);
 					} else {
 						logWithStateName(LogLevel::ERROR, "Wrong size of the uploaded file");
-						_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+						finish(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 					}
 					return false;
 				}
@@ -107,7 +120,8 @@ namespace fileObject {
 			_transferNumber++;
 		} else {
 			logGeneralAndAdditionalStatus(response);
-			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			finish(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			return false;
 		}
 
 		return true;
diff --git a/src/fileObject/FileObjectUploadInProgressState.h b/src/fileObject/FileObjectUploadInProgressState.h
index 8a8b25f..61d0c5c 100644
--- a/src/fileObject/FileObjectUploadInProgressState.h
+++ b/src/fileObject/FileObjectUploadInProgressState.h
@@ -21,10 +21,13 @@ namespace fileObject {
 		bool transfer(SessionInfoIf::SPtr si) override;
 
 	private:
+		void finish(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent);
+
 		cip::CipUdint _fileSize;
 		cip::CipUsint _transferSize;
 		std::vector<uint8_t>_fileContent;
 		cip::CipUsint _transferNumber;
+		bool _isFinished;
 
 		EndUploadHandler _handler;
 	};
-- 
2.43.0


From 93c7617401b23831733f1b81775ee0662731072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 35/42] fix: skip malformed discovery replies without losing
 other devices

---
 src/DiscoveryManager.cpp | 105 +++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 38 deletions(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..0ba3608 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -19,6 +19,7 @@ namespace eipScanner {
 	using eip::EncapsStatusCodes;
 	using eip::EncapsCommands;
 	using eip::CommonPacket;
+	using eip::CommonPacketItemIds;
 
 	using sockets::EndPoint;
 	using sockets::UDPSocket;
@@ -34,52 +35,80 @@ namespace eipScanner {
 
 	DiscoveryManager::~DiscoveryManager() = default;
 
+	static IdentityItem::Vec parseListIdentityReply(const std::vector<uint8_t>& data) {
+		IdentityItem::Vec devices;
+
+		if (data.size() < EncapsPacket::HEADER_SIZE) {
+			throw std::runtime_error("Not enough data for the header");
+		}
+
+		CommonPacket commonPacket;
+		commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+
+		for (int i=0; i < commonPacket.getItems().size(); ++i) {
+			if (commonPacket.getItems()[i].getTypeId() != CommonPacketItemIds::LIST_IDENTITY) {
+				continue;
+			}
+
+			Buffer buffer(commonPacket.getItems()[i].getData());
+			CipUint ignore;
+			sockets::EndPoint socketAddr("", 0);
+
+			buffer >> ignore >> socketAddr;
+
+			CipUint vendorId, deviceType, productCode;
+			CipRevision revision;
+			CipWord status;
+			CipUdint serialNumber;
+			CipShortString productName;
+
+			buffer >> vendorId >> deviceType >> productCode
+				   >> revision >> status
+				   >> serialNumber >> productName;
+
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the identity item");
+			}
+
+			IdentityObject identityObject(i);
+			identityObject.setVendorId(vendorId);
+			identityObject.setDeviceType(deviceType);
+			identityObject.setProductCode(productCode);
+			identityObject.setRevision(revision);
+			identityObject.setStatus(status);
+			identityObject.setSerialNumber(serialNumber);
+			identityObject.setProductName(productName.toStdString());
+
+			devices.push_back(IdentityItem{.identityObject=identityObject, .socketAddress=socketAddr});
+		}
+
+		return devices;
+	}
+
 	IdentityItem::Vec DiscoveryManager::discover() const {
 		eipScanner::IdentityItem::Vec devices;
 
 		auto socket = makeSocket();
 		socket->Send(EncapsPacketFactory().createListIdentityPacket().pack());
 
-		try {
-			for(;;) {
-				const size_t EIP_MAX_PACKET_SIZE = 504;
-				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
-
-				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
-
-				for (int i=0; i < commonPacket.getItems().size(); ++i) {
-					Buffer buffer(commonPacket.getItems()[i].getData());
-					CipUint ignore;
-					sockets::EndPoint socketAddr("", 0);
-
-					buffer >> ignore >> socketAddr;
-
-					CipUint vendorId, deviceType, productCode;
-					CipRevision revision;
-					CipWord status;
-					CipUdint serialNumber;
-					CipShortString productName;
-
-					buffer >> vendorId >> deviceType >> productCode
-						   >> revision >> status
-						   >> serialNumber >> productName;
-
-					IdentityObject identityObject(i);
-					identityObject.setVendorId(vendorId);
-					identityObject.setDeviceType(deviceType);
-					identityObject.setProductCode(productCode);
-					identityObject.setRevision(revision);
-					identityObject.setStatus(status);
-					identityObject.setSerialNumber(serialNumber);
-					identityObject.setProductName(productName.toStdString());
-
-					devices.push_back(IdentityItem{.identityObject=identityObject, .socketAddress=socketAddr});
+		for(;;) {
+			const size_t EIP_MAX_PACKET_SIZE = 504;
+			std::vector<uint8_t> data;
+			try {
+				data = socket->Receive(EIP_MAX_PACKET_SIZE);
+			} catch (std::system_error& er) {
+				if (er.code().value() != DISCOVERY_SOCKET_RECEIVE_END_ERROR_CODE) {
+					throw er;
 				}
+
+				break;
 			}
-		} catch (std::system_error& er) {
-			if (er.code().value() != DISCOVERY_SOCKET_RECEIVE_END_ERROR_CODE) {
-				throw er;
+
+			try {
+				auto items = parseListIdentityReply(data);
+				devices.insert(devices.end(), items.begin(), items.end());
+			} catch (const std::runtime_error& er) {
+				Logger(LogLevel::WARNING) << "Received malformed reply to list identity request: " << er.what();
 			}
 		}
 
-- 
2.43.0


From d761114882d3a23c911a0d17b25173a967d52734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:38 +0000
Subject: [PATCH 36/42] fix: check only ids that were read from a Yaskawa path

---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index dcd86fa..6ab8e03 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -112,7 +112,7 @@ namespace cip {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
 			CipUsint byte;
-			CipUint word;
+			CipUint word = 0;
 			buffer >> reinterpret_cast<CipUsint&>(segmentType);
 			switch (segmentType) {
 				case EPathSegmentTypes::CLASS_8_BITS:
-- 
2.43.0


From 3fb46887a1a3a7911bd474a5b001fe786c4b9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 37/42] fix: refuse network connection parameters that do not
 fit a Forward Open

---
 src/ConnectionManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index b54c45f..f02f717 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -57,6 +57,12 @@ namespace eipScanner {
 			throw std::runtime_error("The connection timeout multiplier must be from 0 to 7");
 		}
 
+		// the Forward Open request has 16 bits for the parameters of each direction
+		if (!isLarge && (connectionParameters.o2tNetworkConnectionParams > 0xFFFF
+			|| connectionParameters.t2oNetworkConnectionParams > 0xFFFF)) {
+			throw std::runtime_error("The network connection parameters do not fit a Forward Open request");
+		}
+
 		static int serialNumberCount = 0;
 		connectionParameters.connectionSerialNumber = ++serialNumberCount;
 
-- 
2.43.0


From 77cd1778f7784c1fdd4affdd43f3ceee844d0070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 38/42] fix: number produced data after its send listener has
 run

---
 src/IOConnection.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 061b20c..01b0e23 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -116,6 +116,11 @@ namespace eipScanner {
 
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
+			_o2tTimer = 0;
+			auto handle = _sendDataHandle; // the listener may replace itself
+			handle(_outputData);
+
+			// the listener may have produced data too, so count now
 			_o2tSequenceNumber++;
 			CommonPacket commonPacket;
 			CommonPacketItemFactory factory;
@@ -132,9 +137,6 @@ namespace eipScanner {
 				buffer << header;
 			}
 
-			_o2tTimer = 0;
-			auto handle = _sendDataHandle; // the listener may replace itself
-			handle(_outputData);
 			if (_o2tFixedSize && _outputData.size() != _o2tDataSize)  {
 				Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
 										  << " has fixed size " << _o2tDataSize << " bytes but " << _outputData.size()
-- 
2.43.0


From 0c7abb73102eb38177d5e201da3897b7f5bd417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 39/42] fix: do not send data of a connection closed by its
 send listener

---
 src/ConnectionManager.cpp | 2 ++
 src/IOConnection.cpp      | 6 +++++-
 src/IOConnection.h        | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index f02f717..174b4dd 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -229,6 +229,7 @@ namespace eipScanner {
 			auto io = _connectionMap.find(ptr->_t2oNetworkConnectionId);
 			if (io != _connectionMap.end() && io->second == ptr) {
 				_connectionMap.erase(io);
+				ptr->_isOpen = false;
 			}
 		} else {
 			Logger(LogLevel::WARNING) << "Attempt to close an already closed connection";
@@ -255,6 +256,7 @@ namespace eipScanner {
 
 			if (!entry.second->notifyTick()) {
 				_connectionMap.erase(entry.first);
+				entry.second->_isOpen = false;
 				auto handle = entry.second->_closeHandle;
 				handle();
 			}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 01b0e23..a9ec41b 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -44,7 +44,8 @@ namespace eipScanner {
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
 			, _lastHandleTime(std::chrono::steady_clock::now())
-			, _lastReceiveTime(_lastHandleTime) {
+			, _lastReceiveTime(_lastHandleTime)
+			, _isOpen(true) {
 	}
 
 	IOConnection::~IOConnection() = default;
@@ -119,6 +120,9 @@ namespace eipScanner {
 			_o2tTimer = 0;
 			auto handle = _sendDataHandle; // the listener may replace itself
 			handle(_outputData);
+			if (!_isOpen) {
+				return true; // closed while the listener was running
+			}
 
 			// the listener may have produced data too, so count now
 			_o2tSequenceNumber++;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 7d0b7f7..4edd031 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -107,6 +107,8 @@ namespace eipScanner {
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
 		std::chrono::steady_clock::time_point _lastReceiveTime;
+
+		bool _isOpen; // false once the ConnectionManager has removed the connection
 	};
 }
 
-- 
2.43.0


From a63c8cdf814777f13eb89fbebf53c0484409c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 40/42] fix: do not restart the connect timeout when the wait
 is interrupted

---
 src/sockets/TCPSocket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 8a5dc0d..1f145bd 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -64,9 +64,13 @@ namespace eipScanner {
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
+						auto startTime = std::chrono::steady_clock::now();
 						do {
 							fd_set myset;
-							auto tv = makePortableInterval(connTimeout);
+							// an interrupted wait goes on for the rest of the timeout
+							auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+									std::chrono::steady_clock::now() - startTime);
+							auto tv = makePortableInterval(connTimeout - elapsed);
 
 #if defined(__unix__) || defined(__APPLE__)
 							// fd_set has no room for such a descriptor
-- 
2.43.0


From d862bdda179efa76a639223c5534a779d92ddc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 41/42] fix: keep the error code of a failed receive while
 logging

---
 src/sockets/UDPSocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index d4b9bf9..a08df22 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -73,10 +73,10 @@ namespace sockets {
 		do {
 			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
 		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		recvBuffer.resize(len);
 		return recvBuffer;
@@ -90,10 +90,10 @@ namespace sockets {
 		do {
 			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
 		} while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR));
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		endPoint = EndPoint(addr);
 		recvBuffer.resize(len);
-- 
2.43.0


From f8535cce1f0829cb92c78ac7c73f52db6576fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 42/42] fix: check the session handle of every reply but the
 registration's

---
 src/SessionInfo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index 0498331..42286e9 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -15,6 +15,7 @@ namespace eipScanner {
 	using utils::LogLevel;
 	using eip::EncapsPacket;
 	using eip::EncapsPacketFactory;
+	using eip::EncapsCommands;
 	using eip::EncapsStatusCodes;
 
 	SessionInfo::SessionInfo(const std::string &host, int port, const std::chrono::milliseconds &timeout)
@@ -64,7 +65,9 @@ namespace eipScanner {
 					static_cast<int>(recvPacket.getStatusCode())));
 		}
 
-		if (_sessionHandle != 0 && recvPacket.getSessionHandle() != _sessionHandle) {
+		// only the reply to the registration brings a new handle
+		if (packet.getCommand() != EncapsCommands::REGISTER_SESSION &&
+			recvPacket.getSessionHandle() != _sessionHandle) {
 			throw std::runtime_error("Wrong session handle received");
 		}
 
-- 
2.43.0

