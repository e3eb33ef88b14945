From 7835ee020c98c00465c0c901d14e96394d66fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 01/61] fix: Strings::endsWith compares the end of the string,
 not the first occurrence

---
 core/polyfill/strings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index a9cd738..647a9ba 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -58,7 +58,8 @@ bool Strings::includes(const std::string& str, const std::vector <std::string>&
 }
 
 bool Strings::endsWith(const std::string& str, const std::string& substr) {
-	return str.find(substr) == (str.size() - substr.size());
+	if (substr.size() > str.size()) return false;
+	return str.compare(str.size() - substr.size(), substr.size(), substr) == 0;
 }
 bool Strings::startsWith(const std::string& str, const std::string& substr) {
 	return str.find(substr) == 0;
-- 
2.43.0


From 76f94c6d90f8ca5636899fe489497b07ebda464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 02/61] fix: Strings::trim does not read before the beginning
 of an empty string

---
 core/polyfill/strings.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 647a9ba..2d04a85 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -78,16 +78,15 @@ void Strings::trim(std::string& str) {
 	}
 
 	//	backward pass
-	const size_t endIdx = str.size() - 1;
-	size_t pos_to = endIdx;
-	while (pos_to > 0) {
-		if (!whitespaceChars.contains(str[pos_to])) break;
+	size_t pos_to = str.size();
+	while (pos_to > pos_from) {
+		if (!whitespaceChars.contains(str[pos_to - 1])) break;
 		pos_to--;
 	}
 
-	if (pos_from == 0 && pos_to == endIdx) return;
+	if (pos_from == 0 && pos_to == str.size()) return;
 
-	str = str.substr(pos_from, pos_to - (pos_from - 1));
+	str = str.substr(pos_from, pos_to - pos_from);
 }
 
 std::string Strings::trim(const std::string& str) {
-- 
2.43.0


From ca839e183a8805f75f675c0fd9ff6ee64a66f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 03/61] fix: Strings::replaceAll terminates when the search
 string is empty

---
 core/polyfill/strings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 2d04a85..9aeba57 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -170,6 +170,9 @@ std::string Strings::replace(const std::string& base, const std::string& sub, co
 }
 
 void Strings::replaceAll(std::string& base, const std::string& sub, const std::string& replacement) {
+	//	an empty search string would match at every position, forever
+	if (!sub.size()) return;
+
 	size_t index = base.find(sub);
 	while (index != std::string::npos) {
 		base.replace(index, sub.size(), replacement);
-- 
2.43.0


From bd331014e29bd74979754f77169f1f4da9a3c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 04/61] fix: Strings::join keeps the separator after leading
 empty strings

---
 core/polyfill/strings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 9aeba57..a6dec88 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -149,9 +149,11 @@ std::string Strings::join(const std::vector<std::string>& strs, const char* toke
 
 	std::string result;
 
+	bool first = true;
 	for(auto& str : strs) {
-		if (result.size() > 0) result += token;
+		if (!first) result += token;
 		result += str;
+		first = false;
 	}
 
 	return result;
-- 
2.43.0


From 38613313af9ceb082522dcfeeb05654942ddd80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 05/61] fix: fromBase64 stays inside its buffers and rejects
 malformed padding

---
 core/encoding/base64.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index 7b50fad..749ec3a 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -44,12 +44,22 @@ static const uint8_t base64DecodeTable[] = {
 std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
 	//	check base64 string validity real quick
+	uint8_t paddLength = 0;
 	for (size_t i = 0; i < data.size(); i++) {
-		auto symbol = data[i];
-		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && symbol != '=')
+		auto symbol = static_cast<uint8_t>(data[i]);
+
+		//	padding can only be one or two last symbols of a complete block
+		if (symbol == '=' && data.size() % 4 == 0 && i + 2 >= data.size()) {
+			paddLength++;
+			continue;
+		}
+
+		if (paddLength > 0 || (!isalnum(symbol) && symbol != '+' && symbol != '/'))
 			throw std::runtime_error("Invalid symbol in base64 sequence at position " + std::to_string(i));
 	}
 
+	if (data.size() % 4 == 1) throw std::runtime_error("Invalid base64 sequence length");
+
 	size_t encodedCompleteBlocks = ((data.size() / 4) * 4);
 	size_t outputCompleteBlocks = ((data.size() / 4) * 3);
 
@@ -66,27 +76,18 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
 	if (incompleteBlockSize > 0) {
 
-		result.resize(result.size() + 1);
+		result.resize(result.size() + (incompleteBlockSize - 1));
 
 		if (incompleteBlockSize == 3) {
 			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], data[encodedCompleteBlocks + 2]);
-		} else if (incompleteBlockSize == 2) {
-			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
-			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], 0);
 		} else {
-			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], 0);
+			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 		}
 
 		return result;
 	}
 
-	uint8_t paddLength = 0;
-	for (uint8_t i = 1; i <= 2; i++) {
-		if (data[data.size() - i] == '=')
-			paddLength++;
-	}
-
 	if (paddLength > 0) 
 		result.resize(result.size() - paddLength);
 
-- 
2.43.0


From 02569c10bf0b16b1cf6f2745de6112ed7445dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 06/61] fix: hexToByte rejects characters that are not hex
 digits

---
 core/encoding/hex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/encoding/hex.cpp b/core/encoding/hex.cpp
index 800fda2..c14dc04 100644
--- a/core/encoding/hex.cpp
+++ b/core/encoding/hex.cpp
@@ -41,9 +41,9 @@ uint8_t Encoding::hexToByte(HexByte hexbyte) {
 	HexByte temp;
 
 	for (size_t i = 0; i < 2; i++) {
+		if (!isxdigit(static_cast<uint8_t>(hexbyte.string[i])))
+			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string, 2));
 		int charcode = hexbyte.string[i] - (hexbyte.string[i] > 0x5a ? 0x50 : 0x30);
-		if (charcode >= (int)sizeof(hex_decode_table) || charcode < 0)
-			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string));
 		temp.string[i] = hex_decode_table[charcode];
 	}
 
-- 
2.43.0


From 8ccaece6ec75b35c607b70ad2cde248d3475bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 07/61] fix: parse basic credentials whose password is empty or
 contains a colon, reject other schemes and malformed base64

---
 core/http/auth.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index fe1e612..a6c1806 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -8,28 +8,33 @@ using namespace Lambda::HTTP::Auth;
 
 std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header) {
 
-	if (!Strings::includes(Strings::toLowerCase(header), "basic")) {
+	const auto schemeEnd = header.find(' ');
+	if (schemeEnd == std::string::npos || Strings::toLowerCase(header.substr(0, schemeEnd)) != "basic") {
 		return std::nullopt;
 	}
 
-	const auto authStringStart = header.find_last_of(' ');
-	if (authStringStart == std::string::npos) {
+	const auto authString = Strings::trim(header.substr(schemeEnd + 1));
+	if (!authString.size()) {
 		return std::nullopt;
 	}
 
-	const auto authString = header.substr(authStringStart + 1);
-	if (!authString.size()) {
+	std::string credentials;
+
+	try {
+		const auto authStringDecoded = Encoding::fromBase64(authString);
+		credentials = std::string(authStringDecoded.begin(), authStringDecoded.end());
+	} catch(...) {
 		return std::nullopt;
 	}
 
-	const auto authStringDecoded = Encoding::fromBase64(authString);
-	const auto authComponents = Strings::split(std::string(authStringDecoded.begin(), authStringDecoded.end()), ":");
-	if (authComponents.size() < 2) {
+	//	only the first colon is a separator, a password may contain more of them or be empty
+	const auto separator = credentials.find(':');
+	if (separator == std::string::npos) {
 		return std::nullopt;
 	}
 
 	return BasicCredentials {
-		authComponents[0],
-		authComponents[1]
+		credentials.substr(0, separator),
+		credentials.substr(separator + 1)
 	};
 }
-- 
2.43.0


From 00dd9af7d4e17c28eb53ca6a3879aaf401c9d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 08/61] fix: search params with upper case letters, question
 marks or several values are no longer lost

---
 core/http/urlsearchparams.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/http/urlsearchparams.cpp b/core/http/urlsearchparams.cpp
index 67baeb4..23d9f46 100644
--- a/core/http/urlsearchparams.cpp
+++ b/core/http/urlsearchparams.cpp
@@ -5,7 +5,7 @@ using namespace Lambda::HTTP;
 
 URLSearchParams::URLSearchParams(const std::string& queries) {
 
-	auto qmark = queries.find_last_of('?');
+	auto qmark = queries.find('?');
 	auto entries = Strings::split(qmark != std::string::npos ? queries.substr(qmark + 1) : queries, '&');
 	
 	for (const auto& entry : entries) {
@@ -18,14 +18,16 @@ URLSearchParams::URLSearchParams(const std::string& queries) {
 
 		if (!key.size() || !value.size()) continue;
 
-		this->m_data[key] = { value };
+		this->append(key, value);
 	}
 }
 
 std::string URLSearchParams::stringify() const {
 	auto result = std::string();
 	for (const auto& entry : this->m_data) {
-		result += (result.size() ? "&" : "") + entry.first + "=" + entry.second.at(0);
+		for (const auto& value : entry.second) {
+			result += (result.size() ? "&" : "") + entry.first + "=" + value;
+		}
 	}
 	return result;
 }
-- 
2.43.0


From 4a1417973c11d990d480378f5e2084a2d02f0de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 09/61] fix: cookies with upper case names could not be read
 back

---
 core/http/cookies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index e588f68..658a096 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -14,7 +14,7 @@ Cookies::Cookies(const std::string& cookiestring) {
 		auto kvSeparatorIdx = entry.find('=');
 		if (kvSeparatorIdx == std::string::npos || kvSeparatorIdx == 0 || kvSeparatorIdx == entry.size() - 1) continue;
 
-		auto key = Strings::trim(entry.substr(0, kvSeparatorIdx));
+		auto key = Strings::toLowerCase(Strings::trim(entry.substr(0, kvSeparatorIdx)));
 		auto value = Strings::trim(entry.substr(kvSeparatorIdx + 1));
 
 		if (!key.size() || !value.size()) continue;
-- 
2.43.0


From 73f74dc38b0b55f5d185b04efea060bfd73b6860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 10/61] fix: copies of a cookie jar lost the cookies to be set

---
 core/http/cookies.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 658a096..640f923 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -25,19 +25,23 @@ Cookies::Cookies(const std::string& cookiestring) {
 
 Cookies::Cookies(const Cookies& other) {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 }
 
 Cookies::Cookies(Cookies&& other) {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 }
 
 Cookies& Cookies::operator=(const Cookies& other) noexcept {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 	return *this;
 }
 
 Cookies& Cookies::operator=(Cookies&& other) noexcept {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 	return *this;
 }
 
-- 
2.43.0


From 51c0e9f45752b9db8fd45cf205e00a5d94d9ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 11/61] fix: deleting a cookie emitted an expires attribute
 without a value

---
 core/http/cookies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 640f923..8144a01 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -73,7 +73,7 @@ void Cookies::del(const std::string& key) {
 	const auto keyNormalized = Strings::toLowerCase(key);
 	if (!this->m_data.contains(keyNormalized)) return;
 	this->m_data.erase(keyNormalized);
-	this->m_set_queue[keyNormalized] = { "", { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } };
+	this->m_set_queue[keyNormalized] = { "", { CookieParams({ std::string("expires"), std::string("Thu, 01 Jan 1970 00:00:00 GMT") }) } };
 }
 
 std::vector<KVpair> Cookies::entries() const {
-- 
2.43.0


From a2c28711ac7a9ed96067ecd0a6cb7f8b6be3dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 12/61] fix: renderTemplate calls isalnum with unsigned char
 values only

---
 core/html/renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 5fe5613..cedc5d8 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -37,7 +37,7 @@ std::string HTML::renderTemplate(const std::string& templateSource, const Templa
 std::optional<std::string> getTemplateVariableFromSlice(const std::string& source, size_t startpos, size_t endpost) {
 
 	static auto isVarname = [](char chr) {
-		return chr == '_' || isalnum(chr);
+		return chr == '_' || isalnum(static_cast<unsigned char>(chr));
 	};
 
 	static auto isWhitespace = [](char chr) {
-- 
2.43.0


From bd30ce01345ac24c86530f5d02ded0afa5b6ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 13/61] fix: websocket frame headers with 64-bit lengths or
 reserved bits were misread

---
 core/websocket/transport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index f65bfc2..64446df 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -34,7 +34,7 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 
 	FrameHeader header {
-		static_cast<FrameControlBits>(buffer.at(0) & 0xF0),
+		static_cast<FrameControlBits>(buffer.at(0) & 0x80),
 		static_cast<OpCode>(buffer.at(0) & 0x0F),
 		static_cast<size_t>(2),
 		static_cast<size_t>(buffer.at(1) & 0x7F)
@@ -47,7 +47,7 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 		header.size += 8;
 		header.payloadSize = 0;
 		for (int i = 0; i < 8; i++) {
-			header.payloadSize |= (buffer.at(2 + i) << ((7 - i) * 8));
+			header.payloadSize |= (static_cast<size_t>(buffer.at(2 + i)) << ((7 - i) * 8));
 		}
 	}
 
-- 
2.43.0


From c7003aea9f6e8bf6e71f4d851c6ebbf4739a95dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 14/61] fix: moving a connection lost its flags and leaked the
 replaced socket

---
 core/network/tcp/connection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 16e45de..0ed9ba7 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -28,8 +28,15 @@ Connection::Connection(
 ) : hSocket(handleInit), m_info(infoInit) {}
 
 Connection& Connection::operator= (Connection&& other) noexcept {
+
+	if (this == &other) return *this;
+
+	//	the connection being replaced would never be closed otherwise
+	this->end();
+
 	this->hSocket = other.hSocket;
 	this->m_info = other.m_info;
+	this->flags = other.flags;
 	other.hSocket = INVALID_SOCKET;
 	return *this;
 }
@@ -37,6 +44,7 @@ Connection& Connection::operator= (Connection&& other) noexcept {
 Connection::Connection(Connection&& other) noexcept {
 	this->hSocket = other.hSocket;
 	this->m_info = other.m_info;
+	this->flags = other.flags;
 	other.hSocket = INVALID_SOCKET;
 }
 
-- 
2.43.0


From 29e07e67a5349dc4aa3645204d83587ded503611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 15/61] fix: writing to a connection closed by the peer raised
 SIGPIPE

---
 core/network/tcp/connection.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 0ed9ba7..7dd8cd5 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -82,7 +82,14 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), 0);
+	//	writing to a connection closed by the peer must fail, not kill the process with a SIGPIPE
+	#ifdef _WIN32
+		static const int sendFlags = 0;
+	#else
+		static const int sendFlags = MSG_NOSIGNAL;
+	#endif
+
+	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), sendFlags);
 
 	if (static_cast<size_t>(bytesSent) != data.size())
 		throw NetworkError("Network error while writing data");
-- 
2.43.0


From 1d800e7b2f39e1240d5070a10b4ec2f4afba982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 16/61] fix: socket timeouts dropped everything below a second

---
 core/network/tcp/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 7dd8cd5..8a1d431 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -155,7 +155,7 @@ void Connection::setTimeouts(uint32_t valueMs, SetTimeoutsDirection direction) {
 	#else
 		timeval timeoutValue;
 		timeoutValue.tv_sec = valueMs / 1000;
-		timeoutValue.tv_usec = 0;
+		timeoutValue.tv_usec = (valueMs % 1000) * 1000;
 	#endif
 
 	const auto timeouValuePtr = reinterpret_cast<const char*>(&timeoutValue);
-- 
2.43.0


From f14a4c54678a5676c0516403f0a1e330ee31c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 17/61] fix: requests arriving together or in several pieces
 were misread

---
 core/http/transport_v1.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 28b5d39..61663a8 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -26,6 +26,9 @@ static const std::initializer_list<std::string> compressibleTypes = {
 	"text", "html", "json", "xml", "javascript"
 };
 
+//	limits how much is allocated for a single read of a request body
+static const size_t bodyReadChunk = 64 * 1024;
+
 TransportContextV1::TransportContextV1(
 	Network::TCP::Connection& connInit,
 	const TransportOptions& optsInit
@@ -42,7 +45,9 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	static const std::string patternEndHeader = "\r\n\r\n";
-	auto headerEnded = this->m_readbuff.end();
+
+	//	previous reads could have fetched this request already, in part or as a whole
+	auto headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 
 	while (this->m_conn.isOpen() && headerEnded == this->m_readbuff.end()) {
 
@@ -52,7 +57,7 @@ bool TransportContextV1::awaitNext() {
 		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
 		headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
 
-		if (this->m_readbuff.size() > this->m_topts.maxRequestSize) {
+		if (headerEnded == this->m_readbuff.end() && this->m_readbuff.size() > this->m_topts.maxRequestSize) {
 			throw ProtocolError("Request header too large", 413);
 		}
 	}
@@ -61,6 +66,11 @@ bool TransportContextV1::awaitNext() {
 		return false;
 	}
 
+	const size_t requestHeaderSize = std::distance(this->m_readbuff.begin(), headerEnded) + patternEndHeader.size();
+	if (requestHeaderSize > this->m_topts.maxRequestSize) {
+		throw ProtocolError("Request header too large", 413);
+	}
+
 	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
 	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
 
@@ -180,17 +190,15 @@ bool TransportContextV1::awaitNext() {
 
 	if (bodySize) {
 
-		const auto totalRequestSize = std::distance(this->m_readbuff.begin(), headerEnded) + bodySize;
-
-		if (totalRequestSize > this->m_topts.maxRequestSize) {
+		if (bodySize > this->m_topts.maxRequestSize - requestHeaderSize) {
 			throw ProtocolError("Total request size is too large", 413);
 		}
 
-		auto bodyRemaining = bodySize - this->m_readbuff.size();
-		if (bodyRemaining) {
-	
-			auto temp = this->m_conn.read(bodyRemaining);
-			if (temp.size() != bodyRemaining) {
+		//	the body may be delivered in any number of pieces
+		while (this->m_readbuff.size() < bodySize) {
+
+			auto temp = this->m_conn.read(std::min(bodySize - this->m_readbuff.size(), bodyReadChunk));
+			if (!temp.size()) {
 				throw NetworkError("Incomplete request body");
 			}
 
-- 
2.43.0


From 0e2b22449036289d888d6c1386134a5b1fa10c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 18/61] fix: malformed content-length values were accepted

---
 core/http/transport_v1.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 61663a8..b6e8edd 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -26,6 +26,26 @@ static const std::initializer_list<std::string> compressibleTypes = {
 	"text", "html", "json", "xml", "javascript"
 };
 
+static size_t parseContentLength(const std::string& header) {
+
+	size_t result = 0;
+
+	for (const auto digit : header) {
+
+		if (digit < '0' || digit > '9') {
+			throw ProtocolError("Invalid content length", 400);
+		}
+
+		if (result > (SIZE_MAX - (digit - '0')) / 10) {
+			throw ProtocolError("Total request size is too large", 413);
+		}
+
+		result = result * 10 + (digit - '0');
+	}
+
+	return result;
+}
+
 //	limits how much is allocated for a single read of a request body
 static const size_t bodyReadChunk = 64 * 1024;
 
@@ -186,7 +206,7 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	auto bodySizeHeader = next.headers.get("content-length");
-	size_t bodySize = bodySizeHeader.size() ? std::stoull(bodySizeHeader) : 0;
+	const size_t bodySize = parseContentLength(bodySizeHeader);
 
 	if (bodySize) {
 
-- 
2.43.0


From f5f63b9dc0c9062cd1535ff53f0e66ab76475787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 19/61] fix: responses were compressed for requests that do not
 accept it

---
 core/http/transport_v1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index b6e8edd..f0e721f 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -191,6 +191,9 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
+	//	what the previous client request accepted doesn't apply to this one
+	this->m_compress = ContentEncodings::None;
+
 	auto acceptEncodingHeader = next.headers.get("accept-encoding");
 	if (this->m_topts.useCompression && acceptEncodingHeader.size()) {
 
-- 
2.43.0


From 83e6df72ab38a264e52be4ee29cb912ab7771e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 20/61] fix: connection options were case-sensitive and
 reuseConnections=false kept connections open

---
 core/http/transport_v1.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index f0e721f..6f873e8 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -173,7 +173,7 @@ bool TransportContextV1::awaitNext() {
 
 	if (this->m_topts.reuseConnections) {
 
-		const auto connectionHeader = next.headers.get("connection");
+		const auto connectionHeader = Strings::toLowerCase(next.headers.get("connection"));
 
 		switch (this->m_keepalive) {
 
@@ -189,6 +189,9 @@ bool TransportContextV1::awaitNext() {
 			
 			default: break;
 		}
+
+	} else {
+		this->m_keepalive = KeepAliveStatus::Close;
 	}
 
 	//	what the previous client request accepted doesn't apply to this one
@@ -331,7 +334,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	responseHeaders.set("x-request-id", this->m_id.toString() + '-' + responsectx.id.toString());
 
 	//	set connection header to acknowledge keep-alive mode
-	const auto responseConnectionHeader = responseHeaders.get("connection");
+	const auto responseConnectionHeader = Strings::toLowerCase(responseHeaders.get("connection"));
 	if (responseConnectionHeader.size()) {
 		this->m_keepalive = Strings::includes(responseConnectionHeader, "close") ?
 			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;
-- 
2.43.0


From c4b8e5d7bb4944b7713379b530ecc203b45a12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 21/61] fix: line breaks in response headers were sent as they
 are

---
 core/http/transport_v1.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 6f873e8..7b02b24 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -257,6 +257,13 @@ IncomingRequest TransportContextV1::nextRequest() {
 	return tempNext;
 }
 
+//	line breaks inside of a header would let it's value add other headers or even a whole response
+static void appendHeaderText(std::vector<uint8_t>& dest, const std::string& text) {
+	for (const auto next : text) {
+		dest.push_back(next == '\r' || next == '\n' ? ' ' : next);
+	}
+}
+
 void TransportContextV1::respond(const ResponseContext& responsectx) {
 
 	if (this->m_next != nullptr) {
@@ -359,7 +366,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 
 	//	push response status text
 	const auto& statusText = responseStatus.text();
-	headerBuff.insert(headerBuff.end(), statusText.begin(), statusText.end());
+	appendHeaderText(headerBuff, statusText);
 
 	static const std::string lineSeparator = "\r\n";
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
@@ -367,9 +374,9 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	//	serialize headers
 	static const std::string headerSeparator = ": ";
 	for (const auto& header : responseHeaders.entries()) {
-		headerBuff.insert(headerBuff.end(), header.first.begin(), header.first.end());
+		appendHeaderText(headerBuff, header.first);
 		headerBuff.insert(headerBuff.end(), headerSeparator.begin(), headerSeparator.end());
-		headerBuff.insert(headerBuff.end(), header.second.begin(), header.second.end());
+		appendHeaderText(headerBuff, header.second);
 		headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 	}
 
-- 
2.43.0


From 31a324af3bdd284c4284736b727c8f53d01f49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 22/61] fix: responses to HEAD requests were sent with a body

---
 core/http/transport_impl.hpp | 1 +
 core/http/transport_v1.cpp   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_impl.hpp b/core/http/transport_impl.hpp
index 756c7a0..ed861ba 100644
--- a/core/http/transport_impl.hpp
+++ b/core/http/transport_impl.hpp
@@ -28,6 +28,7 @@ namespace Lambda::HTTP::Transport {
 			KeepAliveStatus m_keepalive = KeepAliveStatus::Unknown;
 			ContentEncodings m_compress = ContentEncodings::None;
 			IncomingRequest* m_next = nullptr;
+			bool m_headOnly = false;
 
 		public:
 			TransportContextV1(Network::TCP::Connection& connInit, const TransportOptions& optsInit);
diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 7b02b24..1f66aff 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -64,6 +64,9 @@ bool TransportContextV1::awaitNext() {
 		return true;
 	}
 
+	//	an error response to a request that couldn't be read has a body
+	this->m_headOnly = false;
+
 	static const std::string patternEndHeader = "\r\n\r\n";
 
 	//	previous reads could have fetched this request already, in part or as a whole
@@ -250,6 +253,7 @@ IncomingRequest TransportContextV1::nextRequest() {
 	}
 
 	const auto tempNext = std::move(*this->m_next);
+	this->m_headOnly = tempNext.request.method == Methods::HEAD;
 
 	delete this->m_next;
 	this->m_next = nullptr;
@@ -384,7 +388,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 
 	this->m_conn.write(headerBuff);
-	if (bodyBufferSize) this->m_conn.write(responseBodyBuffer);
+	if (bodyBufferSize && !this->m_headOnly) this->m_conn.write(responseBodyBuffer);
 
 	//	close connection if keepalive mode is not in unknown or active state
 	if (this->m_keepalive == KeepAliveStatus::Close) {
-- 
2.43.0


From bf0d5c0eea68c0dbb517938ba36d4e02469e6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 23/61] fix: request queries with a second question mark or an
 empty value before a hash were misread

---
 core/http/transport_v1.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 1f66aff..d105645 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -141,10 +141,9 @@ bool TransportContextV1::awaitNext() {
 		(pathnameEndPos ? requestUrlString.substr(0, pathnameEndPos) : "/");
 
 	if (urlSearchPos != std::string::npos) {
-		auto trimSize = urlHashPos != std::string::npos ? (urlHashPos - urlSearchPos - 1) : 0;
-		next.url.searchParams = trimSize ?
-			requestUrlString.substr(urlSearchPos + 1, trimSize) :
-			requestUrlString.substr(urlSearchPos + 1);
+		next.url.searchParams = urlHashPos != std::string::npos ?
+			requestUrlString.substr(urlSearchPos, urlHashPos - urlSearchPos) :
+			requestUrlString.substr(urlSearchPos);
 	}
 
 	const auto hostHeader = next.headers.get("host");
-- 
2.43.0


From a062f2ac24680f1b58d94f93148da4e9fdcff108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 24/61] fix: line breaks in server-sent events broke the
 message structure

---
 core/sse/writer.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index fa8033f..5e22a5e 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -7,6 +7,10 @@ using namespace Lambda::SSE;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTTP::Transport;
 
+static bool hasLineBreak(const std::string& text) noexcept {
+	return text.find('\r') != std::string::npos || text.find('\n') != std::string::npos;
+}
+
 Writer::Writer(WriterInit init) :
 	m_worker(init.workerctx), m_transport(init.transport) {
 
@@ -34,6 +38,11 @@ void Writer::push(const EventMessage& event) {
 		throw Lambda::Error("SSE listener disconnected");
 	}
 
+	//	line breaks inside of these would start another field
+	if (hasLineBreak(event.event.value_or("")) || hasLineBreak(event.id.value_or(""))) {
+		throw Lambda::Error("SSE event name and id can't contain line breaks");
+	}
+
 	std::vector<std::pair<std::string, std::string>> messageFields;
 
 	if (event.event.has_value()) {
@@ -44,7 +53,23 @@ void Writer::push(const EventMessage& event) {
 		messageFields.push_back({ "id", event.id.value() });
 	}
 
-	messageFields.push_back({ "data", event.data });
+	//	every line of data gets a field of it's own, the client joins them back together
+	std::string dataLine;
+	for (size_t i = 0; i < event.data.size(); i++) {
+
+		const char next = event.data[i];
+		if (next == '\n' && i && event.data[i - 1] == '\r') continue;
+
+		if (next == '\r' || next == '\n') {
+			messageFields.push_back({ "data", dataLine });
+			dataLine.clear();
+			continue;
+		}
+
+		dataLine.push_back(next);
+	}
+
+	messageFields.push_back({ "data", dataLine });
 
 	if (event.retry.has_value()) {
 		messageFields.push_back({ "retry", std::to_string(event.retry.value()) });
-- 
2.43.0


From 3f021914b7636e885051ed54a1f6c4b5a0c4a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 25/61] fix: an exception left the websocket destructor when
 the connection was broken

---
 core/websocket/websocket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index c110519..9108b73 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -67,7 +67,9 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 WebsocketContext::~WebsocketContext() {
 
 	if (!this->m_stopped && this->m_transport.isConnected()) {
-		this->close(CloseReason::GoingAway);
+		//	the connection may be broken already
+		try { this->close(CloseReason::GoingAway); }
+			catch (...) {}
 	}
 
 	this->m_stopped = true;
-- 
2.43.0


From c9896344fab68395be04026584361796b3992173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 26/61] fix: websocket frames were misread unless each arrived
 whole and alone

---
 core/websocket/transport.cpp | 182 +++++++++++++++++------------------
 core/websocket/transport.hpp |   1 -
 2 files changed, 88 insertions(+), 95 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 64446df..ababb8f 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -112,6 +112,20 @@ std::vector<uint8_t> Transport::serializeMessage(const Message& message) {
 	return resultBuffer;
 }
 
+//	tells whether the frame header at the beginning of a buffer has been received completely
+static bool hasFrameHeader(const std::vector<uint8_t>& buffer) {
+
+	if (buffer.size() < FrameHeader::min_size) {
+		return false;
+	}
+
+	const auto sizeCode = buffer[1] & 0x7F;
+	const size_t sizeBytes = sizeCode == 127 ? 8 : (sizeCode == 126 ? 2 : 0);
+	const size_t maskBytes = (buffer[1] & 0x80) ? FrameHeader::mask_size : 0;
+
+	return buffer.size() >= FrameHeader::min_size + sizeBytes + maskBytes;
+}
+
 void WebsocketContext::asyncWorker() {
 
 	std::vector<uint8_t> downloadBuff;
@@ -130,15 +144,15 @@ void WebsocketContext::asyncWorker() {
 
 		} else if ((std::chrono::steady_clock::now() - lastPing) > std::chrono::milliseconds(wsActTimeout)) {
 
-			auto pingHeader = serializeFrameHeader({
+			auto pingFrame = serializeFrameHeader({
 				FrameControlBits::BitFinal,
 				OpCode::Ping,
 				static_cast<size_t>(0),
 				wsPingString.size()
 			});
 
-			this->m_transport.writeRaw(pingHeader);
-			this->m_transport.writeRaw(std::vector<uint8_t>(wsPingString.begin(), wsPingString.end()));
+			pingFrame.insert(pingFrame.end(), wsPingString.begin(), wsPingString.end());
+			this->m_transport.writeRaw(pingFrame);
 
 			lastPing = std::chrono::steady_clock::now();
 		}
@@ -147,126 +161,106 @@ void WebsocketContext::asyncWorker() {
 		if (!nextChunk.size()) continue;
 
 		downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
-		if (downloadBuff.size() < FrameHeader::min_size) continue;
-
-		if (downloadBuff.size() > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("Expected frame size too large");
-		}
 
-		auto frameHeader = parseFrameHeader(downloadBuff);
+		//	process every frame that has been received completely
+		while (!this->m_stopped && hasFrameHeader(downloadBuff)) {
 
-		bool opcodeValid = false;
-		for (const auto& item : supportedWsOpcodes) {
-			if (frameHeader.opcode != item) continue;
-			opcodeValid = true;
-			break;
-		}
-
-		if (!opcodeValid) {
-			auto opcodeInt = static_cast<std::underlying_type_t<OpCode>>(frameHeader.opcode);
-			this->close(CloseReason::ProtocolError);
-			throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
-		}
-
-		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
-		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
-
-		if (frameSize > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("frame size too large");
-		}
+			const auto frameHeader = parseFrameHeader(downloadBuff);
 
-		if (frameHeader.payloadSize + frameHeader.payloadSize < downloadBuff.size()) {
+			bool opcodeValid = false;
+			for (const auto& item : supportedWsOpcodes) {
+				if (frameHeader.opcode != item) continue;
+				opcodeValid = true;
+				break;
+			}
 
-			auto expectedSize = frameHeader.payloadSize - payloadBuff.size();
-			auto payloadChunk = this->m_transport.readRaw(expectedSize);
+			if (!opcodeValid) {
+				auto opcodeInt = static_cast<std::underlying_type_t<OpCode>>(frameHeader.opcode);
+				this->close(CloseReason::ProtocolError);
+				throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
+			}
 
-			if (payloadChunk.size() < expectedSize) {
+			if (!frameHeader.mask.has_value()) {
 				this->close(CloseReason::ProtocolError);
-				throw std::runtime_error("failed to read websocket frame: not enough data");
+				throw std::runtime_error("received unmasked data from the client");
 			}
 
-			payloadBuff.insert(payloadBuff.end(), payloadChunk.begin(), payloadChunk.end());
-		}
+			const auto isFinal = frameHeader.finbit == FrameControlBits::BitFinal;
+			const auto isData = frameHeader.opcode == OpCode::Text || frameHeader.opcode == OpCode::Binary;
 
-		if (!(frameHeader.mask.has_value() || multipartCtx.has_value())) {
-			this->close(CloseReason::ProtocolError);
-			throw std::runtime_error("received unmasked data from the client");
-		}
+			//	only a message that has been started can be continued,
+			//	a new one can only be started after that, and control frames are never split
+			if (isData ? multipartCtx.has_value() : (frameHeader.opcode == OpCode::Continue ? !multipartCtx.has_value() : !isFinal)) {
+				this->close(CloseReason::ProtocolError);
+				throw std::runtime_error("received an unexpected message fragment");
+			}
 
-		if (frameHeader.finbit != FrameControlBits::BitFinal) {
+			const auto sizeLimit = this->m_topts.maxRequestSize;
+			if (frameHeader.payloadSize > sizeLimit || frameHeader.size > sizeLimit - frameHeader.payloadSize) {
+				this->close(CloseReason::MessageTooBig);
+				throw std::runtime_error("frame size too large");
+			}
 
-			if (!multipartCtx.has_value()) {
+			const auto frameSize = frameHeader.size + frameHeader.payloadSize;
+			if (downloadBuff.size() < frameSize) break;
 
-				multipartCtx = MultipartMessageContext({
-					frameHeader.mask.value(),
-					frameHeader.opcode == OpCode::Binary
-				});
+			auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
 
-			} else {
-				frameHeader.mask = multipartCtx.value().mask;
+			//	unmask the payload
+			const auto& frameMask = frameHeader.mask.value();
+			for (size_t i = 0; i < payloadBuff.size(); i++) {
+				payloadBuff[i] ^= frameMask[i % 4];
 			}
-		}
 
-		//	unmask the payload
-		const auto& frameMask = frameHeader.mask.value();
-		for (size_t i = 0; i < payloadBuff.size(); i++) {
-			payloadBuff[i] ^= frameMask[i % 4];
-		}
+			switch (frameHeader.opcode) {
 
-		switch (frameHeader.opcode) {
+				case OpCode::Close: {
+					this->m_stopped = true;
+					this->close(CloseReason::Normal);
+				} break;
 
-			case OpCode::Close: {
-				this->m_stopped = true;
-				this->close(CloseReason::Normal);
-			} break;
+				case OpCode::Ping: {
 
-			case OpCode::Ping: {
+					auto pongFrame = serializeFrameHeader({
+						FrameControlBits::BitFinal,
+						OpCode::Pong,
+						static_cast<size_t>(0),
+						frameHeader.payloadSize
+					});
 
-				const auto pongHeader = serializeFrameHeader({
-					FrameControlBits::BitFinal,
-					OpCode::Pong,
-					static_cast<size_t>(0),
-					frameHeader.payloadSize
-				});
+					pongFrame.insert(pongFrame.end(), payloadBuff.begin(), payloadBuff.end());
+					this->m_transport.writeRaw(pongFrame);
 
-				this->m_transport.writeRaw(pongHeader);
-				this->m_transport.writeRaw(payloadBuff);
+				} break;
 
-			} break;
+				case OpCode::Pong: {
 
-			case OpCode::Pong: {
+					//	check that pong payload matches the ping's one
+					if (std::equal(payloadBuff.begin(), payloadBuff.end(), wsPingString.begin(), wsPingString.end())) {
+						lastPingResponse = std::chrono::steady_clock::now();
+					} else {
+						this->close(CloseReason::ProtocolError);
+						throw std::runtime_error("invalid pong reponse");
+					}
 
-				//	check that pong payload matches the ping's one
-				if (std::equal(payloadBuff.begin(), payloadBuff.end(), wsPingString.begin(), wsPingString.end())) {
-					lastPingResponse = std::chrono::steady_clock::now();
-				} else {
-					this->close(CloseReason::ProtocolError);
-					throw std::runtime_error("invalid pong reponse");
-				}
+				} break;
 
-			} break;
+				default: {
 
-			default: {
+					const auto isBinary = isData ? frameHeader.opcode == OpCode::Binary : multipartCtx.value().binary;
 
-				const auto isBinary = frameHeader.opcode == OpCode::Continue ?
-					multipartCtx.value().binary : 
-					frameHeader.opcode == OpCode::Binary;
+					if (isFinal) {
+						multipartCtx = std::nullopt;
+					} else if (isData) {
+						multipartCtx = MultipartMessageContext({ isBinary });
+					}
 
-				std::lock_guard<std::mutex>lock(this->m_read_mtx);
-				this->m_queue.push({
-					payloadBuff,
-					isBinary,
-					frameHeader.finbit == FrameControlBits::BitFinal
-				});
+					std::lock_guard<std::mutex>lock(this->m_read_mtx);
+					this->m_queue.push({ payloadBuff, isBinary, !isFinal });
+				}
 			}
-		}
 
-		if (frameHeader.finbit == FrameControlBits::BitFinal && multipartCtx.has_value()) {
-			multipartCtx = std::nullopt;
+			downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameSize);
 		}
-
-		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameHeader.size + frameHeader.payloadSize);
 	}
 }
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index f9e300f..27dcac7 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -36,7 +36,6 @@ namespace Lambda::Websocket::Transport {
 	};
 
 	struct MultipartMessageContext {
-		std::array<uint8_t, FrameHeader::mask_size> mask;
 		bool binary = false;
 	};
 
-- 
2.43.0


From 901f7cbbf0064a72ee82677326e597dfe9190aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 27/61] fix: copies of a SHA1 object shared and double freed
 its state

---
 core/crypto/crypto.hpp | 2 ++
 core/crypto/sha1.cpp   | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/core/crypto/crypto.hpp b/core/crypto/crypto.hpp
index d8e0e48..89abd40 100644
--- a/core/crypto/crypto.hpp
+++ b/core/crypto/crypto.hpp
@@ -16,6 +16,8 @@ namespace Lambda::Crypto {
 			static const size_t BlockSize = 20;
 
 			SHA1();
+			SHA1(const SHA1& other);
+			SHA1& operator=(const SHA1& other);
 			~SHA1();
 			SHA1& reset();
 			SHA1& update(const std::vector<uint8_t>& buffer);
diff --git a/core/crypto/sha1.cpp b/core/crypto/sha1.cpp
index 5907344..a65dc74 100644
--- a/core/crypto/sha1.cpp
+++ b/core/crypto/sha1.cpp
@@ -71,6 +71,15 @@ SHA1::SHA1() {
 	this->reset();
 }
 
+SHA1::SHA1(const SHA1& other) {
+	this->hashctx = new SHA1_CTX(*(const SHA1_CTX*)other.hashctx);
+}
+
+SHA1& SHA1::operator=(const SHA1& other) {
+	*(SHA1_CTX*)this->hashctx = *(const SHA1_CTX*)other.hashctx;
+	return *this;
+}
+
 SHA1::~SHA1() {
 	delete (SHA1_CTX*)this->hashctx;
 }
-- 
2.43.0


From f4dd5417a14a0db57968a33f395aea2cf018ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 28/61] fix: json strings and keys are escaped and unescaped as
 RFC 8259 asks

---
 core/json/parse.cpp     | 100 +++++++++++++++++++++++++++++++++++-----
 core/json/stringify.cpp |  61 ++++++++++++++----------
 2 files changed, 125 insertions(+), 36 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 52593b5..0482cb5 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,18 +1,97 @@
 #include "./json.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
-#include <array>
 #include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
 
-static const std::array<std::pair<std::string, std::string>, 4> stringUnescapeTable = {
-	std::make_pair("\\\\n", "\n"),
-	std::make_pair("\\\\r", "\r"),
-	std::make_pair("\\\\t", "\t"),
-	std::make_pair("\\\"", "\"")
-};
+//	reads four hex digits of an unicode escape sequence, returns -1 if there are none
+static int32_t readCodeUnit(const std::string& text, size_t pos) {
+
+	if (text.size() < 4 || pos > text.size() - 4) return -1;
+
+	int32_t result = 0;
+
+	for (size_t i = pos; i < pos + 4; i++) {
+		const char symbol = text[i];
+		int32_t digit = 0;
+		if (symbol >= '0' && symbol <= '9') digit = symbol - '0';
+			else if (symbol >= 'a' && symbol <= 'f') digit = symbol - 'a' + 10;
+			else if (symbol >= 'A' && symbol <= 'F') digit = symbol - 'A' + 10;
+			else return -1;
+		result = result * 16 + digit;
+	}
+
+	return result;
+}
+
+static void appendCodePoint(std::string& text, int32_t code) {
+
+	if (code < 0x80) {
+		text.push_back(static_cast<char>(code));
+		return;
+	}
+
+	if (code < 0x800) {
+		text.push_back(static_cast<char>(0xC0 | (code >> 6)));
+	} else {
+		if (code < 0x10000) {
+			text.push_back(static_cast<char>(0xE0 | (code >> 12)));
+		} else {
+			text.push_back(static_cast<char>(0xF0 | (code >> 18)));
+			text.push_back(static_cast<char>(0x80 | ((code >> 12) & 0x3F)));
+		}
+		text.push_back(static_cast<char>(0x80 | ((code >> 6) & 0x3F)));
+	}
+
+	text.push_back(static_cast<char>(0x80 | (code & 0x3F)));
+}
+
+static std::string unescapeString(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (size_t i = 0; i < text.size(); i++) {
+
+		if (text[i] != '\\' || i + 1 == text.size()) {
+			result.push_back(text[i]);
+			continue;
+		}
+
+		i++;
+
+		switch (text[i]) {
+			case 'n': result.push_back('\n'); break;
+			case 'r': result.push_back('\r'); break;
+			case 't': result.push_back('\t'); break;
+			case 'b': result.push_back('\b'); break;
+			case 'f': result.push_back('\f'); break;
+			case 'u': {
+
+				auto code = readCodeUnit(text, i + 1);
+				if (code < 0) throw std::runtime_error("Invalid JSON: invalid unicode escape sequence");
+				i += 4;
+
+				//	a pair of surrogates
+				if (code >= 0xD800 && code < 0xDC00 && text.size() - i > 6 && text[i + 1] == '\\' && text[i + 2] == 'u') {
+					const auto low = readCodeUnit(text, i + 3);
+					if (low >= 0xDC00 && low < 0xE000) {
+						code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+						i += 6;
+					}
+				}
+
+				appendCodePoint(result, code);
+
+			} break;
+			default: result.push_back(text[i]); break;
+		}
+	}
+
+	return result;
+}
 
 Property JSON::parse(const std::string& text) {
 
@@ -32,10 +111,7 @@ Property JSON::parse(const std::string& text) {
 			if (illegalQuotePos != std::string::npos && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
 				throw std::runtime_error("Invalid JSON: unescaped double quote");
 
-			for (const auto& symbol : stringUnescapeTable)
-				Strings::replaceAll(textcontent, symbol.first, symbol.second);
-
-			return Property(textcontent);
+			return Property(unescapeString(textcontent));
 
 		} else if (isdigit(objectText.at(0))) {
 			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
@@ -121,7 +197,7 @@ Property JSON::parse(const std::string& text) {
 
 			auto key = Strings::trim(entryTrimmed.substr(0, keyEnded));
 			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
-			auto useKey = key.starts_with('\"') ? key.substr(1, key.size() - 2) : key;
+			auto useKey = key.starts_with('\"') ? unescapeString(key.substr(1, key.size() - 2)) : key;
 
 			temp[useKey] = parse(value);
 		}
diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index 3049991..57f86df 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -7,12 +7,42 @@ using namespace Lambda;
 using namespace Lambda::JSON;
 
 static const std::map<char, std::string> stringEscapeTable = {
-	{ '\n', "\\\\n" },
-	{ '\r', "\\\\r" },
-	{ '\t', "\\\\t" },
-	{ '\"', "\\\"" }
+	{ '\n', "\\n" },
+	{ '\r', "\\r" },
+	{ '\t', "\\t" },
+	{ '\"', "\\\"" },
+	{ '\\', "\\\\" }
 };
 
+static std::string escapeString(const std::string& text) {
+
+	static const char hexTable[] = "0123456789abcdef";
+
+	std::string temp;
+	temp.reserve(text.size());
+
+	for (auto symbol : text) {
+
+		auto escaped = stringEscapeTable.find(symbol);
+		if (escaped != stringEscapeTable.end()) {
+			temp.append(escaped->second);
+			continue;
+		}
+
+		//	the rest of control characters
+		if (symbol >= 0 && symbol < 0x20) {
+			temp.append("\\u00");
+			temp.push_back(hexTable[symbol >> 4]);
+			temp.push_back(hexTable[symbol & 0x0F]);
+			continue;
+		}
+
+		temp.push_back(symbol);
+	}
+
+	return temp;
+}
+
 std::string JSON::stringify(const Property& data) {
 
 	switch (data.type()) {
@@ -26,25 +56,8 @@ std::string JSON::stringify(const Property& data) {
 		case JSTypes::Boolean:
 			return data.asBool() ? "true" : "false";
 
-		case JSTypes::String: {
-
-			auto textcontent = data.asString();
-			std::string temp;
-			temp.reserve(textcontent.size());
-
-			for (auto symbol : textcontent) {
-
-				auto escaped = stringEscapeTable.find(symbol);
-				if (escaped != stringEscapeTable.end()) {
-					temp.append(escaped->second);
-					continue;
-				}
-
-				temp.push_back(symbol);
-			}
-
-			return '\"' + temp + '\"';
-		}
+		case JSTypes::String:
+			return '\"' + escapeString(data.asString()) + '\"';
 
 		case JSTypes::Null:
 			return "null";
@@ -67,7 +80,7 @@ std::string JSON::stringify(const Property& data) {
 
 			for (const auto& entry : data.asMap()) {
 				if (temp.size()) temp.push_back(',');
-				temp.append('\"' + entry.first + "\":");
+				temp.append('\"' + escapeString(entry.first) + "\":");
 				temp.append(stringify(entry.second));
 			}
 
-- 
2.43.0


From 043d7feed18e1f9786885ba05bf7951300920b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 29/61] fix: json parser split documents inside of strings

---
 core/json/parse.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 0482cb5..651fe6a 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -133,6 +133,13 @@ Property JSON::parse(const std::string& text) {
 
 	for (size_t i = segmentStart; i < objectText.size() - 1; i++) {
 
+		//	nothing inside of a string separates anything
+		if (ptnss_string) {
+			if (objectText[i] == '\\') i++;
+				else if (objectText[i] == '\"') ptnss_string = false;
+			continue;
+		}
+
 		switch (objectText[i]) {
 			case '{':
 				ptnss_object++;
@@ -147,7 +154,7 @@ Property JSON::parse(const std::string& text) {
 				ptnss_array--;
 				break;
 			case '\"':
-				ptnss_string = !ptnss_string;
+				ptnss_string = true;
 				break;
 			default: break;
 		}
@@ -185,7 +192,9 @@ Property JSON::parse(const std::string& text) {
 			bool insideString = false;
 
 			for (size_t i = 0; i < entryTrimmed.size(); i++) {
-				if (entryTrimmed[i] == '\"') {
+				if (insideString && entryTrimmed[i] == '\\') {
+					i++;
+				} else if (entryTrimmed[i] == '\"') {
 					insideString = !insideString;
 				} else if (!insideString && entryTrimmed[i] == ':') {
 					keyEnded = i;
-- 
2.43.0


From 8e9f9bbeea03ca4973b71f50802f5b7fd2bc6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 30/61] fix: json parser rejected empty containers and took
 unterminated ones

---
 core/json/parse.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 651fe6a..6a12b35 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -122,6 +122,14 @@ Property JSON::parse(const std::string& text) {
 		}
 	}
 
+	if (objectText.size() < 2 || !objectText.ends_with(isArray ? ']' : '}')) {
+		throw std::runtime_error("Invalid JSON: missing closing bracket");
+	}
+
+	if (!Strings::trim(objectText.substr(1, objectText.size() - 2)).size()) {
+		return isArray ? Property(Array()) : Property(Map());
+	}
+
 	std::vector<std::string> entries;
 
 	//	split this shit into segments between commas
-- 
2.43.0


From 3be1ed4c6186f51bc523a21b3624e7d963eb5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 31/61] fix: json parser read negative, exponent and large
 numbers wrong

---
 core/json/parse.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 6a12b35..26ba209 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -113,8 +113,16 @@ Property JSON::parse(const std::string& text) {
 
 			return Property(unescapeString(textcontent));
 
-		} else if (isdigit(objectText.at(0))) {
-			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
+		} else if (isdigit(objectText.at(0)) || objectText.starts_with('-')) {
+
+			if (objectText.find_first_of(".eE") == std::string::npos) {
+				try { return Property(std::stoi(objectText)); }
+					//	doesn't fit into an integer property
+					catch (const std::out_of_range&) {}
+			}
+
+			return Property(std::stold(objectText));
+
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
-- 
2.43.0


From 56b3b8a57668af9b42a9a2b39bd0c9274c4abc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 32/61] fix: assigning a json property leaked and kept values
 of its former type

---
 core/json/json.hpp     |  2 +-
 core/json/property.cpp | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/json/json.hpp b/core/json/json.hpp
index 15c6ea2..806bdab 100644
--- a/core/json/json.hpp
+++ b/core/json/json.hpp
@@ -58,7 +58,7 @@ namespace Lambda::JSON {
 
 			Property(const Property& other);
 			Property(Property&& other);
-			Property operator=(const Property& other);
+			Property& operator=(const Property& other);
 
 			JSTypes type() const;
 			bool isUndefined() const;
diff --git a/core/json/property.cpp b/core/json/property.cpp
index ea9bcce..e24b929 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -1,6 +1,7 @@
 #include "./json.hpp"
 
 #include <stdexcept>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
@@ -91,8 +92,19 @@ Property::Property(Property&& other) {
 	this->clone(other);
 }
 
-Property Property::operator=(const Property& other) {
-	this->clone(other);
+Property& Property::operator=(const Property& other) {
+
+	//	the other one can be a part of this one
+	Property temp(other);
+
+	std::swap(this->internalType, temp.internalType);
+	std::swap(this->internalDataFloat, temp.internalDataFloat);
+	std::swap(this->internalDataInt, temp.internalDataInt);
+	std::swap(this->internalDataBool, temp.internalDataBool);
+	std::swap(this->internalDataStr, temp.internalDataStr);
+	std::swap(this->internalDataArray, temp.internalDataArray);
+	std::swap(this->internalDataMap, temp.internalDataMap);
+
 	return *this;
 }
 
-- 
2.43.0


From 5dcc68d12c88f5b9138de7317aa696df3d2b21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 33/61] fix: unsigned json integers above the signed range
 turned negative

---
 core/json/property.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/json/property.cpp b/core/json/property.cpp
index e24b929..0be78bc 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -1,5 +1,6 @@
 #include "./json.hpp"
 
+#include <limits>
 #include <stdexcept>
 #include <utility>
 
@@ -45,6 +46,14 @@ Property::Property(int32_t value) {
 }
 
 Property::Property(uint32_t value) {
+
+	//	the upper half of the range doesn't fit into an integer
+	if (value > static_cast<uint32_t>(std::numeric_limits<int32_t>::max())) {
+		this->internalType = JSTypes::Float;
+		this->internalDataFloat = new long double(value);
+		return;
+	}
+
 	this->internalType = JSTypes::Integer;
 	this->internalDataInt = new int32_t(value);
 }
-- 
2.43.0


From ee21216b7fca39bb80fda9fc3db15483ccbb166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 34/61] fix: renaming a virtual file to itself deleted it and
 miscounted the stats

---
 extra/vfs/interface.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c1161d5..5cd9bd5 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -84,8 +84,6 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 	const auto pathNormalized = Strings::toLowerCase(oldPath);
 	const auto newPathNormalized = Strings::toLowerCase(newPath);
 
-	this->m_info.totalSize += (newPath.size() - oldPath.size());
-	
 	std::lock_guard <std::mutex> lock(this->m_mtx);
 
 	const auto itrOld = this->m_data.find(pathNormalized);
@@ -93,8 +91,21 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 		throw std::filesystem::filesystem_error("Virtual file not found", oldPath, std::error_code(2L, std::generic_category()));
 	}
 
-	this->m_data[newPathNormalized] = itrOld->second;
+	//	renaming a file to itself changes nothing
+	if (pathNormalized == newPathNormalized) return;
+
+	//	the target file is replaced if it exists
+	const auto itrNew = this->m_data.find(newPathNormalized);
+	if (itrNew != this->m_data.end()) {
+		this->m_info.totalSize -= (itrNew->first.size() + itrNew->second.buffer.size());
+		this->m_info.totalFiles--;
+	}
+
+	this->m_info.totalSize += (newPathNormalized.size() - pathNormalized.size());
+
+	const auto moved = itrOld->second;
 	this->m_data.erase(itrOld);
+	this->m_data[newPathNormalized] = moved;
 }
 
 std::vector<VirtualFileInfo> Interface::listAll() noexcept {
-- 
2.43.0


From 92293eaa8b7e79ad6d8dfb329f9c5a0aad83aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 35/61] fix: virtual file info had the creation and
 modification dates swapped

---
 extra/vfs/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 5cd9bd5..a6cadab 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -117,8 +117,8 @@ std::vector<VirtualFileInfo> Interface::listAll() noexcept {
 	for (const auto& entry : this->m_data) {
 		result.push_back({
 			entry.first,
-			entry.second.created,
 			entry.second.modified,
+			entry.second.created,
 			entry.second.buffer.size()
 		});
 	}
@@ -139,8 +139,8 @@ std::optional<VirtualFileInfo> Interface::fileInfo(const std::string& path) noex
 
 	VirtualFileInfo info {
 		itr->first,
-		itr->second.created,
 		itr->second.modified,
+		itr->second.created,
 		itr->second.buffer.size()
 	};
 
-- 
2.43.0


From c11279f579338dadf737d85bc1b4c20ebf965862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 36/61] fix: files loaded from a snapshot were missing in the
 vfs stats

---
 extra/vfs/interface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index a6cadab..586da72 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -182,6 +182,15 @@ void Interface::loadSnapshot(const std::string& path) {
 			};
 
 			std::lock_guard<std::mutex> lock(this->m_mtx);
+
+			const auto itr = this->m_data.find(pathNormalized);
+			if (itr != this->m_data.end()) {
+				this->m_info.totalSize -= (itr->first.size() + itr->second.buffer.size());
+			} else {
+				this->m_info.totalFiles++;
+			}
+
+			this->m_info.totalSize += (pathNormalized.size() + vfsentry.buffer.size());
 			this->m_data[pathNormalized] = vfsentry;
 		}
 
-- 
2.43.0


From c833e9ccf69c14d5d50654fc962a473d69ddbe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 37/61] fix: vfs snapshots accepted any file extension

---
 extra/vfs/interface.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 586da72..d71ffb7 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -151,10 +151,9 @@ template <std::size_t N>
 bool isSupportedFileExtension(const std::string& filepath, const std::array<std::string, N>& extensions) {
 
 	const auto pathNormalized = Strings::toLowerCase(filepath);
-	const auto pathExtension = std::filesystem::path(pathNormalized).extension();
 
-	for (const auto& item : pathExtension) {
-		if (item == pathExtension) return true;
+	for (const auto& item : extensions) {
+		if (pathNormalized.ends_with(item)) return true;
 	}
 
 	return false;
-- 
2.43.0


From b8751a873ecd645bb6b16b17b78d2a1ce6bb5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 38/61] fix: vfs snapshot threads could use their future before
 it was assigned

---
 extra/vfs/interface.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index d71ffb7..a0d71ce 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -167,7 +167,13 @@ void Interface::loadSnapshot(const std::string& path) {
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		readerPromise = std::async(Formats::Tar::importArchive, path, std::ref(readerQueue));
+		//	the queue watches the future, so the thread must not run before it's assigned
+		std::promise<void> assigned;
+		readerPromise = std::async([&, gate = assigned.get_future()]() {
+			gate.wait();
+			Formats::Tar::importArchive(path, readerQueue);
+		});
+		assigned.set_value();
 
 		while (readerQueue.await()) {
 			
@@ -214,7 +220,13 @@ void Interface::saveSnapshot(const std::string& path) {
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		writerPromise = std::async(Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		//	the queue watches the future, so the thread must not run before it's assigned
+		std::promise<void> assigned;
+		writerPromise = std::async([&, gate = assigned.get_future()]() {
+			gate.wait();
+			Formats::Tar::exportArchive(path, writerQueue);
+		});
+		assigned.set_value();
 
 		std::lock_guard<std::mutex> lock(this->m_mtx);
 
-- 
2.43.0


From c07320ed4140395b3184e85084f3e7af9216946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:40 +0000
Subject: [PATCH 39/61] fix: the vfs snapshot queue was read by one thread
 while another changed it

---
 extra/vfs/formats.hpp   |  5 +++--
 extra/vfs/syncqueue.cpp | 15 ++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/extra/vfs/formats.hpp b/extra/vfs/formats.hpp
index 75708fa..8eedb72 100644
--- a/extra/vfs/formats.hpp
+++ b/extra/vfs/formats.hpp
@@ -6,6 +6,7 @@
 
 #include <vector>
 #include <array>
+#include <atomic>
 #include <future>
 #include <shared_mutex>
 
@@ -14,9 +15,9 @@ namespace Lambda::VFS::Formats {
 	class SyncQueue {
 		private:
 			std::vector<VirtualFile> m_queue;
-			std::mutex m_queue_mtx;
+			mutable std::mutex m_queue_mtx;
 			std::shared_mutex m_future_mtx;
-			bool m_done = false;
+			std::atomic<bool> m_done = false;
 			std::future<void>* m_watch_future = nullptr;
 
 		public:
diff --git a/extra/vfs/syncqueue.cpp b/extra/vfs/syncqueue.cpp
index c2dd5af..751977e 100644
--- a/extra/vfs/syncqueue.cpp
+++ b/extra/vfs/syncqueue.cpp
@@ -7,7 +7,7 @@ using namespace Lambda::VFS;
 using namespace Lambda::VFS::Formats;
 
 SyncQueue& SyncQueue::operator=(SyncQueue&& other) noexcept {
-	this->m_done = other.m_done;
+	this->m_done = other.m_done.load();
 	this->m_queue = std::move(other.m_queue);
 	return *this;
 }
@@ -19,12 +19,12 @@ void SyncQueue::push(VirtualFile&& item) {
 
 VirtualFile SyncQueue::next() {
 
+	std::lock_guard lock(this->m_queue_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("cannot get next item from an empty FSQueue");
 	}
 
-	std::lock_guard lock(this->m_queue_mtx);
-
 	VirtualFile temp = this->m_queue.front();
 	this->m_queue.erase(this->m_queue.begin());
 
@@ -35,7 +35,7 @@ bool SyncQueue::await() {
 
 	std::shared_lock lock(this->m_future_mtx);
 
-	while (!this->m_done && !this->m_queue.size()) {
+	while (!this->m_done && this->empty()) {
 
 		if (this->m_watch_future != nullptr) {
 			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
@@ -44,14 +44,14 @@ bool SyncQueue::await() {
 		}
 	}
 
-	return this->m_queue.size();
+	return !this->empty();
 }
 
 bool SyncQueue::awaitEmpty() {
 
 	std::shared_lock lock(this->m_future_mtx);
 
-	while (!this->m_done && this->m_queue.size()) {
+	while (!this->m_done && !this->empty()) {
 
 		if (this->m_watch_future != nullptr) {
 			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
@@ -60,7 +60,7 @@ bool SyncQueue::awaitEmpty() {
 		}
 	}
 
-	return !this->m_queue.size();
+	return this->empty();
 }
 
 void SyncQueue::close() noexcept {
@@ -72,6 +72,7 @@ bool SyncQueue::done() const noexcept {
 }
 
 bool SyncQueue::empty() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_queue.size() == 0;
 }
 
-- 
2.43.0


From b9e837172a0ab932bba1527d7a2eb16d846a3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 40/61] fix: tar entries of several whole blocks were followed
 by a stray block

---
 extra/vfs/format_tar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 704e7a6..66cbcd5 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -41,8 +41,8 @@ static const uint16_t tarBlockSize = 512;
 static_assert(sizeof(TarPosixHeader) == tarBlockSize);
 
 size_t getPaddingSize(size_t contentSize) {
-	if (contentSize == 0 || contentSize == tarBlockSize) return 0;
-	return (tarBlockSize * ((contentSize / tarBlockSize) + 1)) - contentSize;
+	const size_t lastBlockSize = contentSize % tarBlockSize;
+	return lastBlockSize ? tarBlockSize - lastBlockSize : 0;
 }
 
 enum struct EntryType : char {
-- 
2.43.0


From 0a10228415bc40c0926554982d8bf5877174589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 41/61] fix: tar headers with bytes above 127 got a wrong
 checksum

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 66cbcd5..02cc2c5 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -360,7 +360,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 			continue;
 		}
 
-		checksumSigned += *((int8_t*)(&posixHeader) + i);
+		checksumSigned += *((uint8_t*)(&posixHeader) + i);
 	}
 
 	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksumSigned);
-- 
2.43.0


From 15b34e57c8559764cef5864bb9d0bc7b89da247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 42/61] fix: compressed tar archives were read short when the
 data does not compress

---
 extra/vfs/format_tar.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 02cc2c5..ba26428 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -83,16 +83,17 @@ class InflatableReader {
 				throw std::runtime_error("InflatableReader::m_gz_strm is null");
 			}
 
-			if (this->m_buff.size() >= expectedSize || this->m_readstream.eof() || this->m_gz_strm->isDone()) {
-				return;
-			}
+			//	a chunk of compressed data may expand to less than what's needed
+			while (this->m_buff.size() < expectedSize && !this->m_readstream.eof() && !this->m_gz_strm->isDone()) {
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-			tempBuff.resize(this->m_readstream.gcount());
+				std::vector<uint8_t> tempBuff(expectedSize);
+				this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+				tempBuff.resize(this->m_readstream.gcount());
+				if (!tempBuff.size()) break;
 
-			auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
-			this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+				auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
+				this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+			}
 		}
 
 	public:
@@ -150,7 +151,7 @@ class InflatableReader {
 				case TarCompression::Gzip: {
 
 					this->m_decompressToContain(skipSize);
-					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + skipSize);
+					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + std::min(skipSize, this->m_buff.size()));
 
 				} break;
 				
-- 
2.43.0


From 4cd927c9caca19ff4b4d6f46357a9cecee8ab778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 43/61] fix: tar export reported success when the file could
 not be written

---
 extra/vfs/format_tar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index ba26428..fa43592 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -468,6 +468,10 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 	}
 
 	writer.endStream();
+
+	if (!outfile) {
+		throw std::filesystem::filesystem_error("Could not write file", path, std::error_code(5L, std::generic_category()));
+	}
 }
 
 void Tar::importArchive(const std::string& path, SyncQueue& queue) {
-- 
2.43.0


From c89c6c6d16182508ca2e09bbf40ce6787ca944af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:40 +0000
Subject: [PATCH 44/61] fix: gzip compressor never released its state

---
 core/compression/zlib_stream_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index c05e567..ec21f3a 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -37,7 +37,7 @@ GzipStreamCompressor::GzipStreamCompressor(Quality quality) {
 
 GzipStreamCompressor::~GzipStreamCompressor() {
 	if (this->m_stream == nullptr) return;
-	(void)inflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
+	(void)deflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
 	delete reinterpret_cast<z_stream*>(this->m_stream);
 }
 
-- 
2.43.0


From fae143eb765ddfd3eefdcf57168d4a04d8e6ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 45/61] fix: zlib streams failed when the output filled its
 buffer exactly

---
 core/compression/zlib_oneshot.cpp           | 4 ++--
 core/compression/zlib_stream_compress.cpp   | 4 ++--
 core/compression/zlib_stream_decompress.cpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/compression/zlib_oneshot.cpp b/core/compression/zlib_oneshot.cpp
index 5d6e453..edc50e1 100644
--- a/core/compression/zlib_oneshot.cpp
+++ b/core/compression/zlib_oneshot.cpp
@@ -77,7 +77,7 @@ std::vector<uint8_t> Compress::zlibCompressBuffer(const std::vector<uint8_t>& in
 				zlib.stream.next_out = compressed.data() + cursor_out;
 
 				opres = deflate(&zlib.stream, eob ? Z_FINISH : Z_NO_FLUSH);
-				if (opres < 0) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
+				if (opres < 0 && opres != Z_BUF_ERROR) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
@@ -126,7 +126,7 @@ std::vector<uint8_t> Compress::zlibDecompressBuffer(const std::vector<uint8_t>&
 				zlib.stream.next_out = decompressed.data() + cursor_out;
 
 				opres = inflate(&zlib.stream, Z_NO_FLUSH);
-				if (opres < Z_OK || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
+				if ((opres < Z_OK && opres != Z_BUF_ERROR) || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index ec21f3a..1d53f8a 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -70,7 +70,7 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next,
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
+			case Z_BUF_ERROR: break;	//	nothing left to do, not an error
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
@@ -120,7 +120,7 @@ std::vector<uint8_t> GzipStreamCompressor::end() {
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
+			case Z_BUF_ERROR: break;	//	nothing left to do, not an error
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 			default: break;
 		}
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index f3ba8c8..420f639 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -68,7 +68,7 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
+			case Z_BUF_ERROR: break;	//	nothing left to do, not an error
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
-- 
2.43.0


From ec6b8f6f54bd6ea4480a8dd8db3c0f95c5128a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 46/61] fix: brotli decompression ignored data after a short
 stream

---
 core/compression/brotli.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/compression/brotli.cpp b/core/compression/brotli.cpp
index 83b9ead..5c1bdb3 100644
--- a/core/compression/brotli.cpp
+++ b/core/compression/brotli.cpp
@@ -152,10 +152,7 @@ std::vector<uint8_t> Compress::brotliDecompressBuffer(const std::vector<uint8_t>
 					decompressed.resize(cursor_out - available_out);
 					decompressed.shrink_to_fit();
 
-					available_in = 0;
-					available_out = 0;
-
-					if (cursor_in < input.size()) {
+					if (available_in > 0 || cursor_in < input.size()) {
 						throw std::runtime_error("Unused data after brotli stream");
 					}
 
-- 
2.43.0


From f697f067ceb29281debd09e2f0eb141df04d1824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 47/61] fix: assigning a gzip stream leaked the former one

---
 core/compression/zlib_stream_compress.cpp   | 7 ++++---
 core/compression/zlib_stream_decompress.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index 1d53f8a..0955ed0 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,9 @@ GzipStreamCompressor::GzipStreamCompressor(GzipStreamCompressor&& other) {
 }
 
 GzipStreamCompressor& GzipStreamCompressor::operator=(GzipStreamCompressor&& other) {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	//	the other object disposes of the former stream
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index 420f639..e41221d 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,9 @@ GzipStreamDecompressor::GzipStreamDecompressor(GzipStreamDecompressor&& other) {
 }
 
 GzipStreamDecompressor& GzipStreamDecompressor::operator=(GzipStreamDecompressor&& other) noexcept {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	//	the other object disposes of the former stream
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
-- 
2.43.0


From b40f5bb1ab2fb0e4e4084779fccd8996bb72d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:50 +0000
Subject: [PATCH 48/61] fix: tar export overflowed the version field of the
 header

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index fa43592..c32a6d1 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -339,7 +339,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	memset(&posixHeader, 0, sizeof(posixHeader));
 
 	strcpy(posixHeader.magic, "ustar");
-	strcpy(posixHeader.version, "00");
+	memcpy(posixHeader.version, "00", sizeof(posixHeader.version));
 	posixHeader.typeflag = static_cast<std::underlying_type_t<EntryType>>(header.typeflag);
 
 	strncpy(posixHeader.mode, "0100777", sizeof(posixHeader.mode));
-- 
2.43.0


From c66500acccdbf7e926db8de33823ca8f35317762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 49/61] fix: gzip stream decompressor stalled silently on
 streams that need a dictionary

---
 core/compression/zlib_stream_decompress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index e41221d..c0eb128 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -71,6 +71,7 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
 			case Z_BUF_ERROR: break;	//	nothing left to do, not an error
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
+			case Z_NEED_DICT: throw std::runtime_error("inflate error: unknown dictionary");
 
 			case Z_STREAM_END: {
 				this->m_stage = Stage::Done;
-- 
2.43.0


From d7772d01795422dc5c0d8e32654bab807d33fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:42 +0000
Subject: [PATCH 50/61] fix: static server took apart dot segments and names
 ending with dots wrong

---
 extra/staticserver/staticserver.cpp | 43 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 34deef5..23e1a0e 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -2,6 +2,7 @@
 #include "../../core/html/html.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
+#include <algorithm>
 #include <filesystem>
 #include <functional>
 #include <fstream>
@@ -20,37 +21,35 @@ std::vector<uint8_t> readBinaryFileSync(const std::string& filepath) {
 
 std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
 
-	auto segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("\\")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+	for (auto& chr : urlpath) {
+		if (chr == '\\') chr = '/';
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("../")) != std::string::npos)	{
+	std::string result;
+	bool isDirectory = false;
+	size_t segmentStart = 0;
 
-		size_t segmentPrevStart = 0;
-		size_t searchStart = segmentPos > 2 ? segmentPos - 2 : 0;
-		for (size_t i = searchStart; i > 0; i--) {
-			if (urlpath[i] == '/') {
-				segmentPrevStart = i;
-				break;
-			}
-		}
+	while (segmentStart <= urlpath.size()) {
 
-		urlpath.replace(segmentPrevStart, (segmentPos + 3) - segmentPrevStart, "/");
-	}
+		const auto segmentEnd = std::min(urlpath.find('/', segmentStart), urlpath.size());
+		const auto segment = urlpath.substr(segmentStart, segmentEnd - segmentStart);
+		segmentStart = segmentEnd + 1;
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("./")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+		isDirectory = segment.empty() || segment == "." || segment == "..";
+
+		if (!isDirectory) {
+			result += '/' + segment;
+		} else if (segment == "..") {
+			const auto parentEnd = result.find_last_of('/');
+			result.resize(parentEnd == std::string::npos ? 0 : parentEnd);
+		}
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("//")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 2, "/");
+	if (isDirectory) {
+		result.push_back('/');
 	}
 
-	return urlpath;
+	return result;
 }
 
 StaticServer::StaticServer(const std::string& rootDir) {
-- 
2.43.0


From aa6fc7607c329a62de69c1b7acb0922176e71cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:42 +0000
Subject: [PATCH 51/61] fix: static server crashed on paths that cannot be
 looked up

---
 extra/staticserver/staticserver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 23e1a0e..a708425 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -74,7 +74,9 @@ std::optional<std::string> StaticServer::resolvePath(const std::string& pathname
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
 	auto checkAvailability = [](const std::string& fspath) {
-		return std::filesystem::exists(fspath) && std::filesystem::is_regular_file(fspath);
+		//	paths that cannot be looked up (too long, for example) don't exist
+		std::error_code lookupError;
+		return std::filesystem::is_regular_file(fspath, lookupError);
 	};
 
 	if (checkAvailability(basePath)) {
-- 
2.43.0


From afdfe6e9ac27bf62e757f4ebace7eef6ec0dcf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:42 +0000
Subject: [PATCH 52/61] fix: static server took the media type of linked files
 from the link target

---
 extra/staticserver/staticserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index a708425..1577939 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -129,7 +129,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	}
 
 	auto& resolvedFilePath = resolvedFile.value();
-	auto extension = std::filesystem::relative(resolvedFilePath).extension();
+	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
 	auto fileContent = readBinaryFileSync(resolvedFilePath);
-- 
2.43.0


From 8d4ae225760ee82c7e8fb69e5476a468e1858499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:01 +0000
Subject: [PATCH 53/61] fix: kv storage wrote records it could not read back
 for long keys and values

---
 extra/kvstorage/driver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index d157c41..64ea52f 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -6,6 +6,7 @@
 #include <filesystem>
 #include <vector>
 #include <iterator>
+#include <limits>
 #include <memory.h>
 
 using namespace Lambda::Storage;
@@ -168,6 +169,14 @@ std::optional<Container> Driver::sync() {
 
 void Driver::handleTransaction(const Transaction& tractx) {
 
+	if (tractx.key && tractx.key->size() > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("a record key cannot be longer than 65535 bytes");
+	}
+
+	if (tractx.value && tractx.value->size() > std::numeric_limits<uint32_t>::max()) {
+		throw std::runtime_error("a record value cannot be 4 GiB or more");
+	}
+
 	Driver::RecordHeader recordHeader {
 		Bits::storenormx(static_cast<std::underlying_type_t<TransactionType>>(tractx.type)),
 		Bits::storenormx(static_cast<uint16_t>(tractx.key ? tractx.key->size() : 0)),
-- 
2.43.0


From e8dd0bbb1f13d9978fb1e3cb2b75c69455b8d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:01 +0000
Subject: [PATCH 54/61] fix: kv storage could not open files in the current
 directory

---
 extra/kvstorage/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 64ea52f..7db719a 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -121,7 +121,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	}
 
 	auto dbfileParentDir = std::filesystem::path(this->m_filename).remove_filename();
-	if (!std::filesystem::exists(dbfileParentDir)) {
+	if (!dbfileParentDir.empty() && !std::filesystem::exists(dbfileParentDir)) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-- 
2.43.0


From b4e176972f7cff85258b97cce52b931312d72c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:01 +0000
Subject: [PATCH 55/61] fix: kv storage was read without its lock by hasItem
 and size

---
 extra/kvstorage/interface.cpp | 2 ++
 extra/kvstorage/kvstorage.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 9f4ecd4..76dda86 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -30,6 +30,7 @@ StorageInterface::~StorageInterface() {
 }
 
 bool StorageInterface::hasItem(const std::string& key) const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.contains(key);
 }
 
@@ -75,5 +76,6 @@ void StorageInterface::clear() {
 }
 
 size_t StorageInterface::size() const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.size();
 }
diff --git a/extra/kvstorage/kvstorage.hpp b/extra/kvstorage/kvstorage.hpp
index 56e18b7..b971b76 100644
--- a/extra/kvstorage/kvstorage.hpp
+++ b/extra/kvstorage/kvstorage.hpp
@@ -27,7 +27,7 @@ namespace Lambda::Storage {
 		class StorageInterface {
 			protected:
 				Container data;
-				std::mutex mtlock;
+				mutable std::mutex mtlock;
 				Driver* driver = nullptr;
 
 			public:
-- 
2.43.0


From b4e4219decd03ea078bac04fcfa8edce91c9df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:01 +0000
Subject: [PATCH 56/61] fix: kv storage leaked the records of files it refused

---
 extra/kvstorage/driver.cpp | 18 ++++--------------
 extra/kvstorage/driver.hpp |  2 +-
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 7db719a..c293eea 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -39,7 +39,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("Unsupported db version");
 		}
 
-		this->m_init_data = new Container();
+		this->m_init_data = Container();
 
 		while (this->m_stream.is_open() && !this->m_stream.eof()) {
 
@@ -136,7 +136,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 
 	this->m_stream.write((const char*)&dbHeader, sizeof(dbHeader));
 
-	if (this->m_init_data != nullptr) {
+	if (this->m_init_data.has_value()) {
 		for (const auto& entry : *this->m_init_data) {
 			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
 		}
@@ -147,22 +147,12 @@ Driver::~Driver() {
 
 	this->m_stream.flush();
 	this->m_stream.close();
-	
-	if (this->m_init_data) {
-		delete this->m_init_data;
-	}
 }
 
 std::optional<Container> Driver::sync() {
 
-	if (this->m_init_data == nullptr) {
-		return std::nullopt;
-	}
-
-	auto temp = std::move(*this->m_init_data);
-
-	delete this->m_init_data;
-	this->m_init_data = nullptr;
+	auto temp = std::move(this->m_init_data);
+	this->m_init_data.reset();
 
 	return temp;
 }
diff --git a/extra/kvstorage/driver.hpp b/extra/kvstorage/driver.hpp
index a586969..b8b5fae 100644
--- a/extra/kvstorage/driver.hpp
+++ b/extra/kvstorage/driver.hpp
@@ -15,7 +15,7 @@ namespace Lambda::Storage::KVStorage {
 
 			const std::string m_filename;
 			std::fstream m_stream;
-			Container* m_init_data = nullptr;
+			std::optional<Container> m_init_data;
 
 			struct DBBasicHeader {
 				char magic[sizeof(magicstring) - 1];
-- 
2.43.0


From 9ade59054acce807c6ac4b150e2bf0b256ff08c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:24 +0000
Subject: [PATCH 57/61] fix: kv storage took failed writes for done

---
 extra/kvstorage/driver.cpp    | 3 +++
 extra/kvstorage/interface.cpp | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index c293eea..507b147 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -194,4 +194,7 @@ void Driver::handleTransaction(const Transaction& tractx) {
 	}
 
 	this->m_stream.flush();
+	if (this->m_stream.fail()) {
+		throw std::runtime_error("Failed to write db file: " + this->m_filename);
+	}
 }
diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 76dda86..61322c5 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -57,22 +57,23 @@ void StorageInterface::removeItem(const std::string& key) {
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
 	if (!this->data.contains(key)) return;
-	this->data.erase(key);
 
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Remove, &key });
 	}
+
+	this->data.erase(key);
 }
 
 void StorageInterface::clear() {
 
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
-	this->data.clear();
-
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Clear });
 	}
+
+	this->data.clear();
 }
 
 size_t StorageInterface::size() const noexcept {
-- 
2.43.0


From 035e1882939c4222f23c545a09fbf9345eccc61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:58 +0000
Subject: [PATCH 58/61] fix: kv storage lost everything when stopped while
 opening a file

---
 extra/kvstorage/driver.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 507b147..3c2f1ef 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -125,9 +125,12 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::binary);
+	//	the compacted records replace the file when they are complete, so that they can't get lost halfway
+	const auto tempFilename = this->m_filename + ".tmp";
+
+	this->m_stream = std::fstream(tempFilename, std::ios::out | std::ios::binary);
 	if (!this->m_stream.is_open()) {
-		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+		throw std::runtime_error("Failed to open db file for write: " + tempFilename);
 	}
 
 	DBBasicHeader dbHeader;
@@ -141,6 +144,18 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
 		}
 	}
+
+	this->m_stream.close();
+	if (this->m_stream.fail()) {
+		throw std::runtime_error("Failed to write db file: " + tempFilename);
+	}
+
+	std::filesystem::rename(tempFilename, this->m_filename);
+
+	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
+	if (!this->m_stream.is_open()) {
+		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+	}
 }
 
 Driver::~Driver() {
-- 
2.43.0


From 6d937f817c6ec12e9ec48999d99cbc9c57f47c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 59/61] fix: requests whose refused upgrade was handled were
 left unanswered

---
 core/server/worker.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 17aad3d..5d7c43e 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -102,13 +102,23 @@ void Server::connectionWorker(
 			const std::function<SSE::Writer()> upgradeCallbackSSE = [&]() {
 				handlerMode = HandlerMode::SSE;
 				logConnectionUpgrade("SSE stream");
-				return SSE::Writer({ workerctx, transport, next });
+				try {
+					return SSE::Writer({ workerctx, transport, next });
+				} catch (const UpgradeError&) {
+					handlerMode = HandlerMode::HTTP;
+					throw;
+				}
 			};
 
 			const std::function<WebsocketContext()> upgradeCallbackWS = [&]() {
 				handlerMode = HandlerMode::WS;
 				logConnectionUpgrade("Websocket");
-				return WebsocketContext({ workerctx, transport, next });
+				try {
+					return WebsocketContext({ workerctx, transport, next });
+				} catch (const UpgradeError&) {
+					handlerMode = HandlerMode::HTTP;
+					throw;
+				}
 			};
 
 			const RequestContext requestCTX = {
-- 
2.43.0


From de322feb5ac7f2c9056df25f7255d70cb7ea30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 60/61] fix: vfs statistics were read without the lock

---
 extra/vfs/interface.cpp | 3 ++-
 extra/vfs/vfs.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index a0d71ce..8c7842d 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -255,6 +255,7 @@ void Interface::saveSnapshot(const std::string& path) {
 	}
 }
 
-const VFSInfo& Interface::stats() const noexcept {
+VFSInfo Interface::stats() const noexcept {
+	std::lock_guard<std::mutex> lock(this->m_mtx);
 	return this->m_info;
 }
diff --git a/extra/vfs/vfs.hpp b/extra/vfs/vfs.hpp
index 4ae5d8b..336b2bb 100644
--- a/extra/vfs/vfs.hpp
+++ b/extra/vfs/vfs.hpp
@@ -39,7 +39,7 @@ namespace Lambda {
 		class Interface {
 			private:
 				std::unordered_map <std::string, StoredValue> m_data;
-				std::mutex m_mtx;
+				mutable std::mutex m_mtx;
 				VFSInfo m_info;
 
 			public:
@@ -89,7 +89,7 @@ namespace Lambda {
 				*/
 				void saveSnapshot(const std::string& path);
 
-				const VFSInfo& stats() const noexcept;
+				VFSInfo stats() const noexcept;
 		};
 	};
 
-- 
2.43.0


From 44922dc2aac16a21505511b34fc3706bac5d0f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:58 +0000
Subject: [PATCH 61/61] fix: websocket message queue was read without its lock

---
 core/websocket/websocket.cpp | 11 ++++++-----
 core/websocket/websocket.hpp |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 9108b73..eb6278b 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -103,17 +103,18 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 }
 
 bool WebsocketContext::hasMessage() const noexcept {
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
 	return this->m_queue.size() > 0;
 }
 
 Message WebsocketContext::nextMessage() {
 
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("Message queue is empty");
 	}
 
-	std::lock_guard<std::mutex>lock(this->m_read_mtx);
-
 	Message temp = this->m_queue.front();
 	this->m_queue.pop();
 
@@ -123,11 +124,11 @@ Message WebsocketContext::nextMessage() {
 bool WebsocketContext::awaitMessage() {
 
 	if (!this->m_reader.valid() || this->m_worker.shutdownFlag) {
-		return this->m_queue.size();
+		return this->hasMessage();
 	}
 
 	auto readerDone = false;
-	while (!readerDone && !this->m_queue.size() && !this->m_worker.shutdownFlag) {
+	while (!readerDone && !this->hasMessage() && !this->m_worker.shutdownFlag) {
 		readerDone = this->m_reader.wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 	}
 
@@ -135,7 +136,7 @@ bool WebsocketContext::awaitMessage() {
 		this->m_reader.get();
 	}
 
-	return this->m_queue.size();
+	return this->hasMessage();
 }
 
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 28f2439..8ca27ad 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -57,7 +57,7 @@ namespace Lambda::Websocket {
 
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
-			std::mutex m_read_mtx;
+			mutable std::mutex m_read_mtx;
 			bool m_stopped = false;
 			void asyncWorker();
 
-- 
2.43.0

