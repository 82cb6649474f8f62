From bff14eab2e8cb46488eece46e90ff01b271f17ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 01/43] fix: align doubles to 8 bytes when reading them from a
 message

A double that follows a value which ends off an 8-byte boundary was read
from its padding.
---
 src/dbus_messageistream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..bccabf7 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -66,6 +66,7 @@ void MessageIStream::read(uint8_t* value, size_t size)
 
 void MessageIStream::read(double* value)
 {
+    align(sizeof(double));
     uint8_t bytes[sizeof(double)];
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
-- 
2.43.0


From addab3a19631e4307e8356480a305e3a09c9d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 02/43] fix: variants are aligned to 1 byte, not 8

Arrays of variants were written and read with padding before the first
element that the D-Bus specification does not have.
---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From 330e4c4f39ee61d211ab189fdf35f7063b043286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 03/43] fix: asUint32 handles values of 2^31 and above

std::stoi throws for them, so messages with such a serial, reply serial or
argument could not be read.
---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..94f6a56 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -47,7 +47,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From 43be09dc5fafe697d80b1ceaa1b620aa0f4c8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 04/43] fix: keep the flags of received calls and returns

They were reset to zero after parsing, so isReplyExpected() was always true.
---
 src/dbus_message_methodcall.cpp   | 1 -
 src/dbus_message_methodreturn.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..0919db3 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,7 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index a30b3af..54b6868 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -39,7 +39,6 @@ DBus::Message::MethodReturn::MethodReturn(const DBus::Type::Struct& header,
     : Message::Base(header, body)
 {
 
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_RETURN;
     m_SerialReplyingTo = getReplySerial();
 
-- 
2.43.0


From c417684617088860df1717aac1f2880ad90f528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 05/43] fix: errors keep their message, and need not have one

The received text went into a local variable that shadows the member, so
getMessage() was always empty, and an error without arguments, or whose
first argument is not a string, was dropped.
---
 src/dbus_message_error.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..18e99ab 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -44,17 +44,11 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
-
-    const std::string m_Message = DBus::Type::asString(dest[0]);
+    // An error may carry any arguments, or none at all. If the first one is a
+    // string, it is the error message.
+    if (getParameterCount() && getParameter(0).type() == typeid(Type::String)) {
+        m_Message = DBus::Type::asString(getParameter(0));
+    }
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From 359a79f72a7bcc9b0421cb64557b3175963886f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 06/43] fix: initialise the numeric header fields

The reply serial of a message that has none was indeterminate.
---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..5c3c3ea 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = FLAGS_NONE;
+        uint8_t type = TYPE_INVALID;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From e4bfd352ef027bc99721e901156db507efceb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 07/43] fix: MessageProtocol::reset() drops buffered input

The bytes that had just been rejected were processed again, ahead of
everything received after the reset.
---
 src/dbus_messageprotocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..2a892bf 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -68,7 +68,11 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    m_octetCache.clear();
+    startMessage();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
-- 
2.43.0


From 8a78381531f1b94cc8ee91820d3aa2d7e049bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 08/43] fix: remove each handshake line from the buffer once it
 is handled

The line was left at the front of the buffer, so the first line received
was handled again each time another one arrived: AGREE_UNIX_FD was never
seen, nor was the OK that follows a REJECTED.
---
 src/dbus_auth.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..30e5611 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -69,9 +69,9 @@ bool DBus::AuthenticationProtocol::processData()
 {
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
-        std::string command(m_data.data(), pos + 2);
+        const std::string command(m_data, 0, pos + 2);
+        m_data.erase(0, pos + 2);
         return onCommand(command);
-        m_data = m_data.substr(pos + 2);
     };
 
     return false;
-- 
2.43.0


From 68e992a77fdbd5815a9123add02b60447945c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 09/43] fix: compare the whole handshake command, not just its
 start

Any line starting with the letters OK was taken for the server's OK.
---
 src/dbus_auth.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 30e5611..af1b523 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -215,8 +215,9 @@ bool DBus::AuthenticationProtocol::onCommand(const std::string& command)
                 std::bind(&DBus::AuthenticationProtocol::onCancel, this))
         };
 
+    const std::string name(command, 0, command.find_first_of(" \r\n"));
     for (size_t i = 0; i < 8; ++i) {
-        if (command.substr(0, strlen(callback_list[i].first)) == callback_list[i].first) {
+        if (name == callback_list[i].first) {
             return callback_list[i].second(
                 command.substr(strlen(callback_list[i].first) + 1));
         }
-- 
2.43.0


From 0e6bd7f834f53e3835abe3e5410d1faf5d2e7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 10/43] fix: accept AGREE_UNIX_FD only as the answer to
 NEGOTIATE_UNIX_FD

Otherwise a server that had not accepted the authentication made the client
send BEGIN and its messages. The requested authentication type also starts
out initialised.
---
 src/dbus_auth.cpp | 16 ++++++++++++++++
 src/dbus_auth.h   |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index af1b523..a9d4614 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -56,6 +56,7 @@ void DBus::AuthenticationProtocol::sendAuth(
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
         m_AuthType = type;
+        m_NegotiatingUnixFD = false;
     }
 
     std::string auth("AUTH EXTERNAL ");
@@ -140,6 +141,16 @@ bool DBus::AuthenticationProtocol::onRejected(
 bool DBus::AuthenticationProtocol::onAgreeUnixFD()
 {
     DBus::Log::write(DBus::Log::INFO, "DBus :: onAgreeUnixFD\n");
+
+    {
+        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        if (!m_NegotiatingUnixFD) {
+            DBus::Log::write(DBus::Log::WARNING,
+                "DBus :: AGREE_UNIX_FD was not asked for, so is ignored.\n");
+            return false;
+        }
+    }
+
     sendBegin();
     return true;
 }
@@ -157,6 +168,11 @@ bool DBus::AuthenticationProtocol::onNegotiateUnixFD(const std::string&)
 
 void DBus::AuthenticationProtocol::sendNegotiateUnixFD()
 {
+    {
+        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        m_NegotiatingUnixFD = true;
+    }
+
     sendWire(std::string("NEGOTIATE_UNIX_FD\r\n"));
 }
 
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index ada3b41..c13d69b 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -60,7 +60,8 @@ protected:
 
 private:
     std::string m_data;
-    AuthenticationProtocol::AuthRequired m_AuthType;
+    AuthenticationProtocol::AuthRequired m_AuthType = AUTH_BASIC;
+    bool m_NegotiatingUnixFD = false;
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
 };
-- 
2.43.0


From 2d8d0c648a2d6d5af16ff56f6b783a3c815f7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 11/43] fix: path_namespace matches the path itself, and '/'
 matches every path

Matching a signal whose path is the namespace threw std::out_of_range, and
only the path '/' itself could get that far with the namespace '/'.
---
 src/dbus_matchrule.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..36e871a 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -105,7 +105,8 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
     // For example, path_namespace='/com/example/foo' would match signals sent
     // by /com/example/foo or by /com/example/foo/bar, but not by
     // /com/example/foobar.
-    if (path_namespace != "") {
+    // Every path is in the namespace '/'.
+    if (path_namespace != "" && path_namespace != "/") {
         if (signal_path.find(path_namespace) != 0) {
             return false;
         }
@@ -113,8 +114,7 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
         // This handles the 3rd case, by checking the character _after_ the match is
         // found: if it's not the terminator or another path (i.e. a new /) the
         // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        if (signal_path.size() > path_namespace.size() && signal_path[path_namespace.size()] != '/') {
             return false;
         }
     }
-- 
2.43.0


From 31ecc59ce72a770b43d37300da57405411a0835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 12/43] fix: refuse malformed match rules instead of reading
 past their end

An element without '=' or with an empty value accessed a vector or string
out of range. Values without quotes, which the specification allows, lost
their first and last character.
---
 src/dbus_matchrule.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 36e871a..105601b 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -36,16 +36,23 @@ DBus::MatchRule::MatchRule(const std::string& rule,
     boost::tokenizer<boost::char_separator<char>> tokenizer { rule, separator };
     for (auto&& param : tokenizer) {
         // 2. Then split each at the equals
-        std::vector<std::string> keyvalue;
-        boost::split(keyvalue, param, boost::is_any_of("="));
+        const size_t equals = param.find('=');
+        if (equals == std::string::npos || equals == 0) {
+            throw std::runtime_error("Malformed match rule element: " + param);
+        }
+        std::string keyvalue[] = { param.substr(0, equals), param.substr(equals + 1) };
 
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
-
-        // 3. Strip the single quotes from the value
-        keyvalue[1].pop_back();
-        keyvalue[1].erase(0, 1);
+        // destination, arg*, eavesdrop
+
+        // 3. Strip the single quotes, which are optional, from the value
+        if (keyvalue[1].size() && (keyvalue[1].front() == '\'' || keyvalue[1].back() == '\'')) {
+            if (keyvalue[1].size() < 2 || keyvalue[1].front() != keyvalue[1].back()) {
+                throw std::runtime_error("Malformed match rule element: " + param);
+            }
+            keyvalue[1].pop_back();
+            keyvalue[1].erase(0, 1);
+        }
 
         // We store it somewhere convenient to speed the isMateched checks
         if (keyvalue[0] == "type") {
-- 
2.43.0


From ae7f93be9361588c3d14d07192421d9cef6c94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 13/43] fix: handlers may unregister themselves and remove
 match rules

Both destroyed the function object that was running, and removing a rule
also invalidated the iterator of the loop over the rules.
---
 src/dbus_native.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..0c84b10 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -187,7 +187,9 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // The handler may unregister itself, so call a copy of it
+        const auto handler = it->second;
+        handler(method);
     }
 }
 
@@ -226,14 +228,30 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // The handler may unregister itself, so call a copy of it
+        const auto handler = it->second;
+        handler(signal);
     }
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
-            if (it.second.isMatched(signal)) {
-                it.second.invoke(signal);
+
+        // The handlers may add and remove rules, so go through the rules that
+        // there are now, and invoke those that are still there by then
+        std::vector<std::string> rules;
+        for (const auto& it : m_RulesMap) {
+            rules.push_back(it.first);
+        }
+
+        for (const auto& rule : rules) {
+            auto it = m_RulesMap.find(rule);
+            if (it == m_RulesMap.end()) {
+                continue;
+            }
+
+            MatchRule matchRule(it->second);
+            if (matchRule.isMatched(signal)) {
+                matchRule.invoke(signal);
             }
         }
     }
-- 
2.43.0


From e1a00a1863e403654f5b213cc31f1b965c66b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 14/43] fix: a callback that throws is not invoked again by a
 duplicate reply

The entry for the call was only removed after its callback had returned.
The callbacks are now removed first, and no lock is held while they run.
---
 src/dbus_native.cpp | 34 ++++++++++++++++++++++------------
 src/dbus_native.h   |  6 ++++++
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 0c84b10..5a3df57 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -193,30 +193,40 @@ void DBus::Native::onReceiveMethodCall(
     }
 }
 
+bool DBus::Native::takeCallbacks(uint32_t serial, CallbackPair& callbacks)
+{
+    boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
+    auto it = m_MessageQueue.find(serial);
+
+    if (it == m_MessageQueue.end()) {
+        return false;
+    }
+
+    callbacks = it->second;
+    m_MessageQueue.erase(it);
+    return true;
+}
+
 void DBus::Native::onReceiveMethodReturn(
     const DBus::Message::MethodReturn& result)
 {
-    boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
-    auto it = m_MessageQueue.find(result.m_SerialReplyingTo);
     ++m_Stats.count_receive_methodreturns;
 
-    if (it != m_MessageQueue.end()) {
-        it->second.success(result);
-        m_MessageQueue.erase(it);
+    CallbackPair callbacks;
+    if (takeCallbacks(result.m_SerialReplyingTo, callbacks)) {
+        callbacks.success(result);
     }
 }
 
 void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
-    boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
-    auto it = m_MessageQueue.find(error.getSerialOfReply());
-
-    if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
-        m_MessageQueue.erase(it);
-    }
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
+
+    CallbackPair callbacks;
+    if (takeCallbacks(error.getSerialOfReply(), callbacks)) {
+        callbacks.failure(error);
+    }
 }
 
 void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
diff --git a/src/dbus_native.h b/src/dbus_native.h
index 61cdb8f..fc2dd8d 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -125,6 +125,8 @@ public:
 
 private:
     struct CallbackPair {
+        CallbackPair() {}
+
         CallbackPair(const Message::CallbackFunctionMethodReturn& s,
             const Message::CallbackFunctionError& f)
             : success(s)
@@ -136,6 +138,10 @@ private:
         Message::CallbackFunctionError failure;
     };
 
+    // Removes the callbacks of the call with this serial, which are to be
+    // invoked once at most. Returns false if there are none.
+    bool takeCallbacks(uint32_t serial, CallbackPair& callbacks);
+
     struct Stats {
         size_t bytes_auth = 0;
         size_t bytes_message = 0;
-- 
2.43.0


From c16de37144621032c148d89cf7c5efff7661f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 15/43] fix: write one message at a time

async_write may take several steps, and those of writes in progress at the
same time are interleaved: when the socket's buffer was full, the bytes of
different messages were mixed.
---
 src/dbus_transport.cpp | 34 ++++++++++++++++++++++++++++------
 src/dbus_transport.h   |  6 ++++++
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..b550033 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -142,9 +142,7 @@ void DBus::Transport::sendOctetDirect(uint8_t data)
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     std::shared_ptr<std::string> buf(new std::string());
     buf.get()->push_back(static_cast<char>(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(buf);
 }
 
 void DBus::Transport::sendStringDirect(const std::string& data)
@@ -155,9 +153,7 @@ void DBus::Transport::sendStringDirect(const std::string& data)
 
     // We don't know when the write will complete, so we copy the buffer
     std::shared_ptr<std::string> buf(new std::string(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    queueWrite(buf);
     ++m_Stats.count_messagessent;
     m_Stats.bytes_sent += data.length();
 }
@@ -167,12 +163,38 @@ void DBus::Transport::handle_write_output(
     const boost::system::error_code& error, std::size_t bytes_transferred)
 {
     buf_written.reset();
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     if (error) {
         DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
             error.message().c_str());
+        m_WriteQueue.clear();
+        return;
+    }
+
+    m_WriteQueue.pop_front();
+    if (!m_WriteQueue.empty()) {
+        writeNext();
+    }
+}
+
+// The data of two writes that are in progress at the same time may become
+// mixed, so there is only ever one.
+void DBus::Transport::queueWrite(const std::shared_ptr<std::string>& buf)
+{
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
+    m_WriteQueue.push_back(buf);
+    if (m_WriteQueue.size() == 1) {
+        writeNext();
     }
 }
 
+void DBus::Transport::writeNext()
+{
+    boost::asio::async_write(
+        m_socket, boost::asio::buffer(*m_WriteQueue.front()),
+        boost::bind(&Transport::handle_write_output, this, m_WriteQueue.front(), boost::placeholders::_1, boost::placeholders::_2));
+}
+
 void DBus::Transport::setDataHandler(
     const ReceiveDataCallbackFunction& callback)
 {
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..7d4e139 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -21,6 +21,8 @@
 #include "dbus_octetbuffer.h"
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
+#include <memory>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -70,11 +72,15 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+    std::deque<std::shared_ptr<std::string>> m_WriteQueue;
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
 
 private:
+    void queueWrite(const std::shared_ptr<std::string>& buf);
+    void writeNext();
+
     struct Stats {
         size_t count_messagessent = 0;
         size_t count_messagesqueued = 0;
-- 
2.43.0


From 29aaf067f408397bc739431751bc4607b072dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 16/43] fix: connection statistics may be updated and read by
 several threads

Counts were lost when two threads sent at the same time.
---
 src/dbus_native.h      | 21 +++++++++++----------
 src/dbus_transport.cpp |  1 +
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/dbus_native.h b/src/dbus_native.h
index fc2dd8d..1b1557c 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -23,6 +23,7 @@
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
 #include "dbus_transport.h"
+#include <atomic>
 
 namespace DBus {
 
@@ -143,16 +144,16 @@ private:
     bool takeCallbacks(uint32_t serial, CallbackPair& callbacks);
 
     struct Stats {
-        size_t bytes_auth = 0;
-        size_t bytes_message = 0;
-        size_t count_sent_methodcalls = 0;
-        size_t count_sent_methodreturns = 0;
-        size_t count_sent_errors = 0;
-        size_t count_sent_signals = 0;
-        size_t count_receive_methodcalls = 0;
-        size_t count_receive_methodreturns = 0;
-        size_t count_receive_errors = 0;
-        size_t count_receive_signals = 0;
+        std::atomic<size_t> bytes_auth { 0 };
+        std::atomic<size_t> bytes_message { 0 };
+        std::atomic<size_t> count_sent_methodcalls { 0 };
+        std::atomic<size_t> count_sent_methodreturns { 0 };
+        std::atomic<size_t> count_sent_errors { 0 };
+        std::atomic<size_t> count_sent_signals { 0 };
+        std::atomic<size_t> count_receive_methodcalls { 0 };
+        std::atomic<size_t> count_receive_methodreturns { 0 };
+        std::atomic<size_t> count_receive_errors { 0 };
+        std::atomic<size_t> count_receive_signals { 0 };
     } m_Stats;
 
     mutable boost::recursive_mutex m_MessageQueueMutex;
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index b550033..d6a5aae 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -216,6 +216,7 @@ void DBus::Transport::onReceiveData(OctetBuffer&)
 
 std::string DBus::Transport::getStats() const
 {
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     std::stringstream ss;
 
     ss << "Transport stats:" << std::endl;
-- 
2.43.0


From b19649435d0dc034ab34c092a40f9850f4ee66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 17/43] fix: count received errors

---
 src/dbus_native.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 5a3df57..765dc29 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -220,6 +220,7 @@ void DBus::Native::onReceiveMethodReturn(
 
 void DBus::Native::onReceiveError(const DBus::Message::Error& error)
 {
+    ++m_Stats.count_receive_errors;
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
 
-- 
2.43.0


From dc6b3521048d55b1df091ec1f60d2bc0de652b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 18/43] fix: the log level may be changed while other threads
 log

---
 src/dbus_log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_log.cpp b/src/dbus_log.cpp
index 4ad2a31..8543008 100644
--- a/src/dbus_log.cpp
+++ b/src/dbus_log.cpp
@@ -16,9 +16,10 @@
 // <http://www.gnu.org/licenses/>.
 
 #include "dbus_log.h"
+#include <atomic>
 #include <cstdint>
 
-static size_t g_Level = DBus::Log::WARNING;
+static std::atomic<size_t> g_Level { DBus::Log::WARNING };
 
 bool DBus::Log::isActive(size_t type)
 {
-- 
2.43.0


From 8ec7cd94d1666353f99a0a9852752990020580bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 19/43] fix: remove the guid from unix:path addresses too

It was taken to be part of the path of the socket.
---
 src/dbus_platform.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index 3f01c58..dd98392 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -23,6 +23,11 @@ namespace {
 const static std::string UNIX_PATH_PREFIX("unix:path=");
 const static std::string UNIX_ABSTRACT_PATH_PREFIX("unix:abstract=");
 
+std::string removeGuid(const std::string& path)
+{
+    return path.substr(0, path.find(",guid="));
+}
+
 std::string getAbstractPath(const std::string& path)
 {
     if (path.find(UNIX_ABSTRACT_PATH_PREFIX) == 0) {
@@ -43,7 +48,7 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return path.substr(UNIX_PATH_PREFIX.size());
+        return removeGuid(path.substr(UNIX_PATH_PREFIX.size()));
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From 973deff2049f54496bc01ac3c22caea0abc3902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 20/43] fix: introspection data has one argument per type of a
 signal

A container type was split into one argument per character.
---
 src/dbus_introspectable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbus_introspectable.cpp b/src/dbus_introspectable.cpp
index b48f080..7d045a9 100644
--- a/src/dbus_introspectable.cpp
+++ b/src/dbus_introspectable.cpp
@@ -142,10 +142,13 @@ std::string DBus::Introspectable::Signal::serialize() const
     std::string result;
 
     result += "<signal name='" + m_Name + "'>";
-    for (auto type : m_Type) {
+    size_t idx = 0;
+    while (idx < m_Type.size()) {
+        std::string type(DBus::Type::extractSignature(m_Type, idx));
         result += "<arg type='";
         result += type;
         result += "'/>";
+        idx += type.size();
     }
     result += "</signal>";
 
-- 
2.43.0


From 1181aa73c30a1c9ed6e2c396c467e28ae634d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 21/43] fix: refuse signatures longer than 255 bytes

The length was cut to one byte, which made the message, and all that
follow it, unreadable.
---
 src/dbus_messageostream.h | 5 +++++
 src/dbus_native.cpp       | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageostream.h b/src/dbus_messageostream.h
index d02a70c..51d9273 100644
--- a/src/dbus_messageostream.h
+++ b/src/dbus_messageostream.h
@@ -20,6 +20,8 @@
 
 #include "dbus_utils.h"
 #include <cstdint>
+#include <stdexcept>
+#include <string>
 
 namespace DBus {
 
@@ -101,6 +103,9 @@ public:
     {
         // The same as STRING except the length is a single byte (thus signatures
         // have a maximum length of 255)
+        if (str.length() > 255) {
+            throw std::length_error("Signature is longer than 255 bytes");
+        }
         writeByte(str.length());
         // and the content must be a valid signature (see above).
         data.append(str);
diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 765dc29..9bf1c34 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -136,6 +136,8 @@ void DBus::Native::sendMethodCall(
     const DBus::Message::CallbackFunctionMethodReturn& success,
     const DBus::Message::CallbackFunctionError& failure)
 {
+    const std::string data(method.marshall(destination));
+
     ++m_Stats.count_sent_methodcalls;
     if (method.isReplyExpected()) {
         boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
@@ -143,7 +145,7 @@ void DBus::Native::sendMethodCall(
         m_MessageQueue.emplace(method.getSerial(),
             Native::CallbackPair(success, failure));
     }
-    m_Transport->sendString(method.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendMethodReturn(const std::string& destination,
-- 
2.43.0


From d00856b28498a885a575603598bebc6268332ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 22/43] fix: the serial counter skips zero when it wraps around

---
 src/dbus_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..6391607 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -35,6 +35,10 @@ boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
 DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
+    // Zero is not a valid serial, which matters when the counter wraps around
+    if (m_SerialCounter == 0) {
+        ++m_SerialCounter;
+    }
     m_Header.serial = serial ? serial : m_SerialCounter++;
 }
 
-- 
2.43.0


From 5f718b97b04cd86bb27015464206ac157d82523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 23/43] fix: do not count messages that could not be sent

A message that is refused while it is serialised was counted as sent.
---
 src/dbus_native.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 9bf1c34..42ccdec 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -151,28 +151,32 @@ void DBus::Native::sendMethodCall(
 void DBus::Native::sendMethodReturn(const std::string& destination,
     const DBus::Message::MethodReturn& result)
 {
+    const std::string data(result.marshall(destination));
     ++m_Stats.count_sent_methodreturns;
-    m_Transport->sendString(result.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendError(const std::string& destination,
     const DBus::Message::Error& err)
 {
+    const std::string data(err.marshall(destination));
     ++m_Stats.count_sent_errors;
-    m_Transport->sendString(err.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendSignal(const std::string& destination,
     const DBus::Message::Signal& signal)
 {
+    const std::string data(signal.marshall(destination));
     ++m_Stats.count_sent_signals;
-    m_Transport->sendString(signal.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::broadcastSignal(const DBus::Message::Signal& signal)
 {
+    const std::string data(signal.marshall(""));
     ++m_Stats.count_sent_signals;
-    m_Transport->sendString(signal.marshall(""));
+    m_Transport->sendString(data);
 }
 
 //
-- 
2.43.0


From d20adc00938bfa17adc06415bd3071e3cbe9cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 24/43] fix: refuse malformed signatures when decoding

Depending on the signature, decoding recursed without end ('('), looped
without end (an array of an unknown or empty type), or ignored types.
---
 src/dbus_type.cpp           | 107 +++++++++++++++++++-----------------
 src/dbus_type.h             |   3 +
 src/dbus_type_array.cpp     |   2 +
 src/dbus_type_dictentry.cpp |   1 +
 src/dbus_type_struct.cpp    |   1 +
 src/dbus_type_variant.cpp   |   1 +
 6 files changed, 65 insertions(+), 50 deletions(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 94f6a56..4dcf041 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -36,6 +36,8 @@
 #include "dbus_type_uint32.h"
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
+#include "dbus_validation.h"
+#include <stdexcept>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
@@ -278,8 +280,7 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
     TYPE_UNMARSHALL_DATA(Type::Signature);
     TYPE_UNMARSHALL_DATA(Type::DictEntry);
 
-    Log::write(DBus::Log::ERROR,
-        "DBus :: Unmarshalling type not implemented (%s)\n", type.c_str());
+    throw std::runtime_error("Unmarshalling type not implemented: " + type);
 
 #undef TYPE_UNMARSHALL_DATA
 }
@@ -355,62 +356,68 @@ size_t DBus::Type::getAlignment(const std::string& declaration)
 //
 // Other methods
 //
-std::string DBus::Type::extractSignature(const std::string& declaration,
-    size_t idx)
+namespace {
+
+const size_t MAX_SIGNATURE_DEPTH = 64;
+
+// Returns the index of what follows the single complete type at idx
+size_t skipCompleteType(const std::string& declaration, size_t idx, size_t depth = 0)
 {
-    std::string result;
+    if (idx >= declaration.size()) {
+        throw std::runtime_error("Invalid signature, a type is missing: " + declaration);
+    }
 
-    // Handle arrays
-    if (declaration[idx] == '(') {
-        // Find the matching bracket, and skip all internal signatures
-        size_t number_of_brackets = 0;
-        for (size_t i = idx; i < declaration.size(); ++i) {
-            result += declaration[i];
-
-            if (declaration[i] == '(') {
-                ++number_of_brackets;
-            } else if (declaration[i] == ')') {
-                if (--number_of_brackets == 0) {
-                    return result;
-                }
-            }
-        }
-        //
-        Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
-                               "mis-matched brackets in the array signature.");
+    const char type = declaration[idx++];
+    if (type == DBus::Type::Variant::s_StaticTypeCode[0] || DBus::Validation::isValidBasicType(type)) {
+        return idx;
     }
-    // Handle dictentry
-    else if (declaration[idx] == '{') {
-        if (idx == 0) {
-            Log::write(Log::ERROR,
-                "DBus :: The declaration is invalid because a dictentry must "
-                "be inside an array container type.");
-        }
-        // Find the matching brace, and skip all internal signatures
-        size_t number_of_brackets = 0;
-        for (size_t i = idx; i < declaration.size(); ++i) {
-            result += declaration[i];
-
-            if (declaration[i] == '{') {
-                ++number_of_brackets;
-            } else if (declaration[i] == '}') {
-                if (--number_of_brackets == 0) {
-                    return result;
-                }
-            }
-        }
-        //
-        Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
-                               "mis-matched braces in the dictentry signature.");
+
+    if (++depth > MAX_SIGNATURE_DEPTH) {
+        throw std::runtime_error("Invalid signature, nested too deeply: " + declaration);
     }
 
-    result += declaration[idx];
+    if (type == DBus::Type::Array::s_StaticTypeCode[0]) {
+        return skipCompleteType(declaration, idx, depth);
+    }
 
-    if (declaration[idx] == 'a') {
-        result += extractSignature(declaration, idx + 1);
+    char end;
+    if (type == DBus::Type::Struct::s_StaticTypeCode[0]) {
+        // One or more types
+        end = ')';
+        do {
+            idx = skipCompleteType(declaration, idx, depth);
+        } while (idx < declaration.size() && declaration[idx] != end);
+    } else if (type == DBus::Type::DictEntry::s_StaticTypeCode[0]) {
+        // A basic type and another one
+        end = '}';
+        if (idx < declaration.size()) {
+            DBus::Validation::throwOnInvalidBasicType(declaration[idx]);
+        }
+        idx = skipCompleteType(declaration, idx, depth);
+        idx = skipCompleteType(declaration, idx, depth);
+    } else {
+        throw std::runtime_error(std::string("Invalid signature, unknown type ") + type + ": " + declaration);
     }
 
-    return result;
+    if (idx >= declaration.size() || declaration[idx] != end) {
+        throw std::runtime_error(std::string("Invalid signature, missing ") + end + ": " + declaration);
+    }
+    return idx + 1;
+}
+
+} // namespace
+
+std::string DBus::Type::extractSignature(const std::string& declaration,
+    size_t idx)
+{
+    return declaration.substr(idx, skipCompleteType(declaration, idx) - idx);
+}
+
+void DBus::Type::throwOnInvalidSignature(const std::string& declaration)
+{
+    if (skipCompleteType(declaration, 0) != declaration.size()) {
+        throw std::runtime_error("Invalid signature, not a single complete type: " + declaration);
+    }
 }
 
 std::string DBus::Type::getMarshallingSignature(
diff --git a/src/dbus_type.h b/src/dbus_type.h
index 7179518..850b665 100644
--- a/src/dbus_type.h
+++ b/src/dbus_type.h
@@ -57,7 +57,10 @@ namespace Type {
 
     size_t getAlignment(const std::string& declaration);
 
+    // Returns the single complete type at idx. Throws if there is none.
     std::string extractSignature(const std::string& declaration, size_t idx);
+    // Throws unless the declaration is one single complete type
+    void throwOnInvalidSignature(const std::string& declaration);
 
     std::string getMarshallingSignature(const DBus::Type::Generic& value);
     std::string
diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..088e6b4 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -159,6 +159,8 @@ void DBus::Type::Array::marshallContents(MessageOStream& stream) const
 
 void DBus::Type::Array::unmarshall(MessageIStream& stream)
 {
+    Type::throwOnInvalidSignature(getSignature());
+
     uint32_t size = 0;
     stream.read<uint32_t>(&size);
     std::string signature = Type::extractSignature(getSignature(), 1);
diff --git a/src/dbus_type_dictentry.cpp b/src/dbus_type_dictentry.cpp
index 55c62c0..a596e33 100644
--- a/src/dbus_type_dictentry.cpp
+++ b/src/dbus_type_dictentry.cpp
@@ -89,6 +89,7 @@ void DBus::Type::DictEntry::marshall(MessageOStream& stream) const
 void DBus::Type::DictEntry::unmarshall(MessageIStream& stream)
 {
     stream.align(8);
+    Type::throwOnInvalidSignature(getSignature());
 
     const char key_type = getSignature().at(1);
     DBus::Validation::throwOnInvalidBasicType(key_type);
diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index 56313ed..1eeb207 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -143,6 +143,7 @@ void DBus::Type::Struct::unmarshall(MessageIStream& stream)
     // A struct must start on an 8-byte boundary regardless of the type of the
     // struct fields.
     stream.align(8);
+    Type::throwOnInvalidSignature(m_Signature);
     size_t signatureIndex = 1; // skip first '('
     do {
         const std::string signature = Type::extractSignature(m_Signature, signatureIndex);
diff --git a/src/dbus_type_variant.cpp b/src/dbus_type_variant.cpp
index 0d16a6d..5d56c95 100644
--- a/src/dbus_type_variant.cpp
+++ b/src/dbus_type_variant.cpp
@@ -88,6 +88,7 @@ void DBus::Type::Variant::unmarshall(MessageIStream& stream)
     Type::Signature signature;
     signature.unmarshall(stream);
     m_ContainedSignature = signature.getValue();
+    Type::throwOnInvalidSignature(m_ContainedSignature);
     m_Value = DBus::Type::create(signature.getValue());
     DBus::Type::unmarshallData(m_Value, stream);
 }
-- 
2.43.0


From 046b90b9c1dd60502148710b21df7df2e1b41b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 25/43] fix: limit how deeply received containers may be nested

Variants within variants could nest as deeply as a message is long, which
overflowed the stack.
---
 src/dbus_messageistream.cpp | 12 ++++++++++++
 src/dbus_messageistream.h   | 14 ++++++++++++++
 src/dbus_type.cpp           |  6 ++++--
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index bccabf7..159f10c 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -35,11 +35,23 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
 }
 
+MessageIStream::ContainerScope::ContainerScope(MessageIStream& stream)
+    : m_stream(stream)
+{
+    if (m_stream.m_depth >= MaxDepth) {
+        throw std::runtime_error("Containers are nested too deeply");
+    }
+    ++m_stream.m_depth;
+}
+
+MessageIStream::ContainerScope::~ContainerScope() { --m_stream.m_depth; }
+
 void MessageIStream::align(size_t alignment)
 {
     if (m_offset % alignment) {
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..a31dc22 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,10 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth = 0;
+
+    // The limit of the total message depth in the D-Bus specification
+    const static size_t MaxDepth = 64;
 
     template <class T>
     T swap(T value) const
@@ -49,6 +53,16 @@ class MessageIStream {
     }
 
 public:
+    // Exists while the contents of a container are being read. Throws when
+    // containers are nested too deeply.
+    class ContainerScope {
+        MessageIStream& m_stream;
+
+    public:
+        ContainerScope(MessageIStream& stream);
+        ~ContainerScope();
+    };
+
     MessageIStream(const uint8_t* data, size_t size, bool swapByteOrder);
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 4dcf041..6ff1d07 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -273,11 +273,13 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
     TYPE_UNMARSHALL_DATA(Type::Uint64);
     TYPE_UNMARSHALL_DATA(Type::Double);
     TYPE_UNMARSHALL_DATA(Type::String);
+    TYPE_UNMARSHALL_DATA(Type::ObjectPath);
+    TYPE_UNMARSHALL_DATA(Type::Signature);
+
+    const MessageIStream::ContainerScope scope(stream);
     TYPE_UNMARSHALL_DATA(Type::Array);
     TYPE_UNMARSHALL_DATA(Type::Variant);
     TYPE_UNMARSHALL_DATA(Type::Struct);
-    TYPE_UNMARSHALL_DATA(Type::ObjectPath);
-    TYPE_UNMARSHALL_DATA(Type::Signature);
     TYPE_UNMARSHALL_DATA(Type::DictEntry);
 
     throw std::runtime_error("Unmarshalling type not implemented: " + type);
-- 
2.43.0


From 5aaba0b4d4487792db9d3abf5daab8f44f0ef998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 26/43] verification hook: set the serial counter
 (DBUS_ASIO_VERIF only)

---
 src/dbus_message.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 5c3c3ea..6846b0d 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -169,6 +169,15 @@ namespace Message {
         Header m_Header;
         MethodCallParametersIn m_Parameters;
 
+#ifdef DBUS_ASIO_VERIF
+        // For verification only: brings the counter close to where it wraps
+        static void setNextSerialForVerification(uint32_t serial)
+        {
+            boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
+            m_SerialCounter = serial;
+        }
+#endif
+
     private:
         static uint32_t m_SerialCounter;
         static boost::recursive_mutex m_SerialCounterMutex;
-- 
2.43.0


From 486fc0e3aae43df5b2f02aeb849a0d8f71b7cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 27/43] fix: write the array length at its aligned position

The position was taken before the padding that aligns the length, so an
array at an offset that is not a multiple of four was corrupted.
---
 src/dbus_type_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index 088e6b4..85fba56 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,7 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    stream.pad4();
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From 235255bd0c6aa927a87cea555321b0069ae71927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 28/43] fix: accept arguments with 64 nested containers in one
 signature

The struct that the arguments of a message form while being decoded
counted as one of them.
---
 src/dbus_type.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 6ff1d07..0bb96a4 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -360,7 +360,9 @@ size_t DBus::Type::getAlignment(const std::string& declaration)
 //
 namespace {
 
-const size_t MAX_SIGNATURE_DEPTH = 64;
+// A signature may have 32 arrays and 32 structs in one another, and the
+// arguments of a message are handled as the members of one more struct
+const size_t MAX_SIGNATURE_DEPTH = 65;
 
 // Returns the index of what follows the single complete type at idx
 size_t skipCompleteType(const std::string& declaration, size_t idx, size_t depth = 0)
-- 
2.43.0


From f2fff24dea42c7a118e6db796144015c26d62ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 29/43] fix: print the prefix of a hex dump as text, not as a
 format

---
 src/dbus_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_log.cpp b/src/dbus_log.cpp
index 8543008..0e0e7c3 100644
--- a/src/dbus_log.cpp
+++ b/src/dbus_log.cpp
@@ -50,7 +50,7 @@ void DBus::Log::writeHex(size_t type, const std::string& prefix,
         return;
     }
 
-    write(type, prefix.c_str());
+    write(type, "%s", prefix.c_str());
 
     size_t column = 0;
     for (auto it : hex) {
-- 
2.43.0


From 5e251232c95b43c2fd96f75a82de7d0e966ba827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 30/43] fix: destruction is not held up by a peer that keeps
 sending

---
 src/dbus_native.cpp    | 1 +
 src/dbus_transport.cpp | 8 ++++++++
 src/dbus_transport.h   | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 42ccdec..66c1611 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -43,6 +43,7 @@ DBus::Native::Native(const std::string& busname)
 
 DBus::Native::~Native()
 {
+    m_Transport->stopReceiving();
     m_Transport->setDataHandler([](DBus::OctetBuffer&) {});
     m_MessageProtocol->setMethodCallHandler(
         [](const DBus::Message::MethodCall& method) {});
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index d6a5aae..d89affc 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -50,6 +50,12 @@ DBus::Transport::Transport(const std::string& path)
 void DBus::Transport::handle_read_data(const boost::system::error_code& error,
     std::size_t bytes_transferred)
 {
+    // Without this, a peer that keeps sending would keep this thread taking the
+    // mutex again and again, and the destructor waiting for it
+    if (m_ShuttingDown) {
+        return;
+    }
+
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
     m_ReceiveDataCallback(buffer);
@@ -195,6 +201,8 @@ void DBus::Transport::writeNext()
         boost::bind(&Transport::handle_write_output, this, m_WriteQueue.front(), boost::placeholders::_1, boost::placeholders::_2));
 }
 
+void DBus::Transport::stopReceiving() { m_ShuttingDown = true; }
+
 void DBus::Transport::setDataHandler(
     const ReceiveDataCallbackFunction& callback)
 {
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 7d4e139..c2959af 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -50,6 +50,9 @@ public:
     void onReceiveData(OctetBuffer& buffer);
     void onAuthComplete();
     void addToMessageQueue(const std::string& data);
+    // Nothing that arrives later is passed to the data handler. What is being
+    // handled at the moment is completed.
+    void stopReceiving();
 
     std::string getStats() const;
 
-- 
2.43.0


From c086bf57326cbeb94631776309825cc3afd47c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 31/43] fix: count the bytes that are read

---
 src/dbus_transport.cpp | 1 +
 src/dbus_transport.h   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index d89affc..c2e36d2 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -57,6 +57,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
     }
 
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
+    m_Stats.bytes_read += bytes_transferred;
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
     m_ReceiveDataCallback(buffer);
 
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index c2959af..0e678ee 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -19,6 +19,7 @@
 #define DBUS_TRANSPORT_H
 
 #include "dbus_octetbuffer.h"
+#include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
 #include <deque>
@@ -89,7 +90,7 @@ private:
         size_t count_messagesqueued = 0;
         size_t count_messagespumped = 0;
         size_t bytes_sent = 0;
-        size_t bytes_read = 0;
+        std::atomic<size_t> bytes_read { 0 };
     } m_Stats;
 };
 } // namespace DBus
-- 
2.43.0


From 693f482fc2d44e41542fb9708c7b9b2406ddb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 32/43] fix: count all bytes of the handshake, not just of its
 last piece

---
 src/dbus_native.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 66c1611..00cd968 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -63,8 +63,9 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
 {
     try {
         const size_t bufferSize = buffer.size();
-        if (m_AuthenticationProtocol->onReceiveData(buffer)) {
-            m_Stats.bytes_auth = bufferSize - buffer.size();
+        const bool authenticated = m_AuthenticationProtocol->onReceiveData(buffer);
+        m_Stats.bytes_auth += bufferSize - buffer.size();
+        if (authenticated) {
             onReceiveMessageData(buffer);
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
-- 
2.43.0


From e530045b3025b4d957eec8774b173388f778b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 33/43] fix: leave out the destination and the interface when
 there is none

An empty one makes the message invalid, as when a call without a sender is replied to.
---
 src/dbus_message_error.cpp        | 10 ++++++----
 src/dbus_message_methodcall.cpp   | 22 +++++++++++++---------
 src/dbus_message_methodreturn.cpp | 10 ++++++----
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 18e99ab..88230ad 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -67,10 +67,12 @@ std::string
 DBus::Message::Error::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sErrorName;
     sErrorName.add(DBus::Type::Byte(DBus::Message::Header::HEADER_ERROR_NAME));
diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 0919db3..6a8cba6 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -71,15 +71,19 @@ DBus::Message::MethodCall::marshall(const std::string& destination) const
 
     // This is necessary, to prevent errors from the daemon,although it is marked
     // as optional in the spec
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
-
-    DBus::Type::Struct sInterface;
-    sInterface.add(DBus::Type::Byte(DBus::Message::Header::HEADER_INTERFACE));
-    sInterface.add(DBus::Type::Variant(DBus::Type::String(m_Name.m_Interface)));
-    array.add(sInterface);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
+
+    if (m_Name.m_Interface.size()) {
+        DBus::Type::Struct sInterface;
+        sInterface.add(DBus::Type::Byte(DBus::Message::Header::HEADER_INTERFACE));
+        sInterface.add(DBus::Type::Variant(DBus::Type::String(m_Name.m_Interface)));
+        array.add(sInterface);
+    }
 
     DBus::Type::Struct sMember;
     sMember.add(DBus::Type::Byte(DBus::Message::Header::HEADER_MEMBER));
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index 54b6868..8407347 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -55,10 +55,12 @@ std::string
 DBus::Message::MethodReturn::marshall(const std::string& destination) const
 {
     DBus::Type::Array array;
-    DBus::Type::Struct sDestination;
-    sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
-    sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        DBus::Type::Struct sDestination;
+        sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
+        sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sReplySerial;
     sReplySerial.add(
-- 
2.43.0


From 602b36fa6563fce29c320d8c8be96e4dbf93b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 34/43] fix: refuse messages with a signature but no body

---
 src/dbus_message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 6391607..c2bcfb2 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -84,8 +84,8 @@ DBus::Message::Base::Base(const DBus::Type::Struct& header,
         }
     }
 
-    // Empty bodies have no parameters
-    if (body.size()) {
+    // Messages without a body have no parameters, and so no signature
+    if (body.size() || signature.size()) {
         parseParameters(isLittleEndian, body, signature);
     }
 }
-- 
2.43.0


From 832df2622728f96279571a6423309cc6ab6bc415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 35/43] fix: rules for other types of message do not match
 signals

---
 src/dbus_matchrule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 105601b..a30e674 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -88,6 +88,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
 {
     // These checks are AND, so all set parameters must agree
+    if (type != "" && type != "signal") {
+        return false;
+    }
+
     if (sender != "" && sender != signal.getHeaderSender()) {
         return false;
     }
-- 
2.43.0


From aac871dc8503de7a1ee65925e318f4f57bf43cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 36/43] fix: describe false as "False"

---
 src/dbus_type_boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_boolean.cpp b/src/dbus_type_boolean.cpp
index 4651dc5..0a6e865 100644
--- a/src/dbus_type_boolean.cpp
+++ b/src/dbus_type_boolean.cpp
@@ -49,7 +49,7 @@ std::string DBus::Type::Boolean::toString(const std::string& prefix) const
     std::stringstream ss;
 
     ss << prefix << "Boolean ";
-    ss << (m_Value ? "True" : "Talse") << "\n";
+    ss << (m_Value ? "True" : "False") << "\n";
 
     return ss.str();
 }
-- 
2.43.0


From ff0080c1b21539ec93f6542c6157827c5a92e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 37/43] fix: refuse to send messages and arrays that are larger
 than D-Bus allows

---
 src/dbus_message.cpp    | 12 ++++++++++++
 src/dbus_type_array.cpp |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index c2bcfb2..18cdf90 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -28,6 +28,7 @@
 #include "dbus_message.h"
 #include "dbus_messageistream.h"
 #include "dbus_messageostream.h"
+#include <stdexcept>
 
 uint32_t DBus::Message::Base::m_SerialCounter = 1;
 boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
@@ -109,6 +110,12 @@ void DBus::Message::Base::parseParameters(bool isLittleEndian,
     }
 }
 
+// The maximum length of a message, including header, header alignment padding,
+// and body is 2 to the 27th power or 134217728 (128 MiB). That of an array, such
+// as the one of the header fields, is half of that.
+static const size_t MAX_ARRAY_SIZE = 67108864;
+static const size_t MAX_MESSAGE_SIZE = 134217728;
+
 std::string
 DBus::Message::Base::marshallMessage(const DBus::Type::Array& array) const
 {
@@ -183,6 +190,11 @@ DBus::Message::Base::marshallMessage(const DBus::Type::Array& array) const
     packet.pad8();
     packet.write(body);
 
+    // The peer would drop the connection
+    if (header_fields.size() > MAX_ARRAY_SIZE || packet.size() > MAX_MESSAGE_SIZE) {
+        throw std::length_error("DBus message error: Maximum size exceeded");
+    }
+
     return packet.data;
 }
 
diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index 85fba56..c055613 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -33,10 +33,15 @@
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
 #include <sstream>
+#include <stdexcept>
 
 #include "dbus_messageistream.h"
 #include "dbus_messageostream.h"
 
+// Arrays have a maximum length defined to be 2 to the 26th power or 67108864
+// (64 MiB).
+static const size_t MAX_ARRAY_SIZE = 67108864;
+
 const std::string DBus::Type::Array::s_StaticTypeCode("a");
 
 size_t DBus::Type::Array::size() const { return contents.size(); }
@@ -147,6 +152,9 @@ void DBus::Type::Array::marshall(MessageOStream& stream) const
 
     const size_t contentsStartPos = stream.size();
     marshallContents(stream);
+    if (stream.size() - contentsStartPos > MAX_ARRAY_SIZE) {
+        throw std::length_error("Array is longer than 64 MiB");
+    }
     const uint32_t contentsSize = stream.size() - contentsStartPos;
     stream.data.replace(sizePos, 4, (char*)&contentsSize, sizeof(uint32_t));
 }
-- 
2.43.0


From 64dec95139fa03b8e9bbde2eee3361c770695da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:34 +0000
Subject: [PATCH 38/43] fix: resolve the escapes in bus addresses

---
 src/dbus_platform.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index dd98392..828eea6 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -23,6 +23,39 @@ namespace {
 const static std::string UNIX_PATH_PREFIX("unix:path=");
 const static std::string UNIX_ABSTRACT_PATH_PREFIX("unix:abstract=");
 
+int hexDigit(char c)
+{
+    if (c >= '0' && c <= '9') {
+        return c - '0';
+    }
+    if (c >= 'a' && c <= 'f') {
+        return c - 'a' + 10;
+    }
+    if (c >= 'A' && c <= 'F') {
+        return c - 'A' + 10;
+    }
+    return -1;
+}
+
+// Values in addresses have most characters, such as spaces, written as %xx
+std::string unescape(const std::string& value)
+{
+    std::string result;
+    for (size_t i = 0; i < value.size(); ++i) {
+        if (value[i] == '%' && i + 2 < value.size()) {
+            const int high = hexDigit(value[i + 1]);
+            const int low = hexDigit(value[i + 2]);
+            if (high >= 0 && low >= 0) {
+                result.push_back(static_cast<char>(high * 16 + low));
+                i += 2;
+                continue;
+            }
+        }
+        result.push_back(value[i]);
+    }
+    return result;
+}
+
 std::string removeGuid(const std::string& path)
 {
     return path.substr(0, path.find(",guid="));
@@ -39,7 +72,7 @@ std::string getAbstractPath(const std::string& path)
         if (guid_part_pos != std::string::npos) {
             abstract_path = abstract_path.substr(0, guid_part_pos);
         }
-        return abstract_path;
+        return unescape(abstract_path);
     }
     return path;
 }
@@ -48,7 +81,7 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return removeGuid(path.substr(UNIX_PATH_PREFIX.size()));
+        return unescape(removeGuid(path.substr(UNIX_PATH_PREFIX.size())));
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From ce53263cd4115f6c44cf4b1505254cfae4c8f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 39/43] fix: handlers keep their state from one message to the
 next

---
 src/dbus_matchrule.cpp |  6 ++++--
 src/dbus_native.cpp    | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index a30e674..81aad4a 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -19,6 +19,7 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/thread/recursive_mutex.hpp>
 #include <boost/tokenizer.hpp>
+#include <memory>
 
 #include "dbus_log.h"
 #include "dbus_matchrule.h"
@@ -81,8 +82,9 @@ DBus::MatchRule::MatchRule(const std::string& rule,
             "Match rules with both 'path' and 'path_namespace' are not allowed.");
     }
 
-    // Finally, remember the callback
-    callback = handler;
+    // Finally, remember the callback, whose state is shared by copies of the rule
+    const auto shared = std::make_shared<Message::CallbackFunctionSignal>(handler);
+    callback = [shared](const DBus::Message::Signal& signal) { (*shared)(signal); };
 }
 
 bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 00cd968..2a77f5b 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -21,9 +21,23 @@
 #include "dbus_matchrule.h"
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
+#include <memory>
 
 std::string DBus::Native::DBusDaemon("org.freedesktop.DBus");
 
+namespace {
+
+// A copy of the handler is called, for it may unregister itself. What the
+// handler remembers from one call to the next is shared by its copies.
+template <class Callback>
+Callback shareState(const Callback& handler)
+{
+    const auto shared = std::make_shared<Callback>(handler);
+    return [shared](const auto& message) { (*shared)(message); };
+}
+
+} // namespace
+
 DBus::Native::Native(const std::string& busname)
     : m_MessageProtocol(new DBus::MessageProtocol())
 {
@@ -102,7 +116,7 @@ void DBus::Native::registerMethodCallHandler(
 {
     boost::recursive_mutex::scoped_lock guard(m_MethodCallMapMutex);
 
-    m_MethodCallMap.emplace(name, handler);
+    m_MethodCallMap.emplace(name, shareState(handler));
 }
 
 void DBus::Native::registerSignalHandler(
@@ -111,7 +125,7 @@ void DBus::Native::registerSignalHandler(
 {
     boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);
 
-    m_SignalMap.emplace(name, handler);
+    m_SignalMap.emplace(name, shareState(handler));
 }
 
 void DBus::Native::unRegisterMethodCallHandler(
-- 
2.43.0


From 3549ac5943951dd6ecccbfbd85dd5ecdeddf8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:22 +0000
Subject: [PATCH 40/43] fix: keep the name of received errors

---
 src/dbus_message.cpp       | 3 +++
 src/dbus_message.h         | 1 +
 src/dbus_message_error.cpp | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 18cdf90..59328cd 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -67,6 +67,9 @@ DBus::Message::Base::Base(const DBus::Type::Struct& header,
         case Header::HEADER_MEMBER:
             m_Header.member = DBus::Type::asString(headerField[1]);
             break;
+        case Header::HEADER_ERROR_NAME:
+            m_Header.errorName = DBus::Type::asString(headerField[1]);
+            break;
         case Header::HEADER_DESTINATION:
             m_Header.destination = DBus::Type::asString(headerField[1]);
             break;
diff --git a/src/dbus_message.h b/src/dbus_message.h
index 6846b0d..f70de66 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -123,6 +123,7 @@ namespace Message {
         std::string path;
         std::string interface;
         std::string member;
+        std::string errorName;
         std::string destination;
         std::string sender;
     };
diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 88230ad..47d09a7 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -50,6 +50,7 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
         m_Message = DBus::Type::asString(getParameter(0));
     }
     m_SerialReplyingTo = getReplySerial();
+    m_Errorname = m_Header.errorName;
 
     Log::write(Log::WARNING,
         "DBus :: Received an error from message serial #%d : %s\n",
-- 
2.43.0


From 69bdf6488856a1270d13375a562ef193fdd7656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:22 +0000
Subject: [PATCH 41/43] fix: throw for arguments that are not there

---
 src/dbus_message.cpp   | 2 +-
 src/dbus_type_struct.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 59328cd..c6d5158 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -230,7 +230,7 @@ size_t DBus::Message::MethodCallParameters::getParameterCount() const
 const DBus::Type::Generic&
 DBus::Message::MethodCallParameters::getParameter(size_t idx) const
 {
-    return m_Contents.m_TypeList[idx];
+    return m_Contents.m_TypeList.at(idx);
 }
 
 DBus::Message::MethodCallParametersIn::MethodCallParametersIn(
diff --git a/src/dbus_type_struct.h b/src/dbus_type_struct.h
index 143cca3..f3a76ff 100644
--- a/src/dbus_type_struct.h
+++ b/src/dbus_type_struct.h
@@ -76,7 +76,7 @@ namespace Type {
         std::string asString() const;
 
         size_t getEntries() const { return m_Value.size(); }
-        const Generic& operator[](std::size_t idx) const { return m_Value[idx]; }
+        const Generic& operator[](std::size_t idx) const { return m_Value.at(idx); }
 
         static std::string s_StaticTypeCode;
 
-- 
2.43.0


From 35493cb6636c05345bd1a06328273ad5a0300297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:48 +0000
Subject: [PATCH 42/43] fix: look for the end of a handshake line only where it
 can be

Everything received of an unfinished line was searched again at each line
feed, so the work grew with the square of the number of line feeds.
---
 src/dbus_auth.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index a9d4614..08b7da2 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -68,10 +68,11 @@ void DBus::AuthenticationProtocol::sendAuth(
 
 bool DBus::AuthenticationProtocol::processData()
 {
-    const size_t pos = m_data.find("\r\n");
-    if (pos != std::string::npos) {
-        const std::string command(m_data, 0, pos + 2);
-        m_data.erase(0, pos + 2);
+    // Everything up to a line feed has been added since this was called last, so
+    // a complete line is all there is
+    if (m_data.size() >= 2 && m_data.compare(m_data.size() - 2, 2, "\r\n") == 0) {
+        const std::string command(m_data);
+        m_data.clear();
         return onCommand(command);
     };
 
-- 
2.43.0


From 1cfac2c8960b763ce6fd9bef2e8c3ebdff9828a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:51 +0000
Subject: [PATCH 43/43] fix: keep the separators of the process's locale out of
 the text of numbers

With a locale that groups digits, as in std::locale::global(std::locale(""))
for many languages, 1000 was written as 1,000. Serials, reply serials and
body sizes are read back from that text, and were taken for 1.
---
 src/dbus_type_double.cpp | 1 +
 src/dbus_type_int16.cpp  | 1 +
 src/dbus_type_int32.cpp  | 1 +
 src/dbus_type_int64.cpp  | 1 +
 src/dbus_type_uint16.cpp | 1 +
 src/dbus_type_uint32.cpp | 1 +
 src/dbus_type_uint64.cpp | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/dbus_type_double.cpp b/src/dbus_type_double.cpp
index 439eadd..4446b69 100644
--- a/src/dbus_type_double.cpp
+++ b/src/dbus_type_double.cpp
@@ -57,6 +57,7 @@ std::string DBus::Type::Double::toString(const std::string& prefix) const
 std::string DBus::Type::Double::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // always a point
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_int16.cpp b/src/dbus_type_int16.cpp
index 58dd02b..9837d74 100644
--- a/src/dbus_type_int16.cpp
+++ b/src/dbus_type_int16.cpp
@@ -59,6 +59,7 @@ std::string DBus::Type::Int16::toString(const std::string& prefix) const
 std::string DBus::Type::Int16::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators between digits
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_int32.cpp b/src/dbus_type_int32.cpp
index 5f3509d..ad1720e 100644
--- a/src/dbus_type_int32.cpp
+++ b/src/dbus_type_int32.cpp
@@ -59,6 +59,7 @@ std::string DBus::Type::Int32::toString(const std::string& prefix) const
 std::string DBus::Type::Int32::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators between digits
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_int64.cpp b/src/dbus_type_int64.cpp
index 7c8024e..e0ce62d 100644
--- a/src/dbus_type_int64.cpp
+++ b/src/dbus_type_int64.cpp
@@ -59,6 +59,7 @@ std::string DBus::Type::Int64::toString(const std::string& prefix) const
 std::string DBus::Type::Int64::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators between digits
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_uint16.cpp b/src/dbus_type_uint16.cpp
index e422bd6..1aa4f9f 100644
--- a/src/dbus_type_uint16.cpp
+++ b/src/dbus_type_uint16.cpp
@@ -59,6 +59,7 @@ std::string DBus::Type::Uint16::toString(const std::string& prefix) const
 std::string DBus::Type::Uint16::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators between digits
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_uint32.cpp b/src/dbus_type_uint32.cpp
index 9afbbc9..797d5b7 100644
--- a/src/dbus_type_uint32.cpp
+++ b/src/dbus_type_uint32.cpp
@@ -59,6 +59,7 @@ std::string DBus::Type::Uint32::toString(const std::string& prefix) const
 std::string DBus::Type::Uint32::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators between digits
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_uint64.cpp b/src/dbus_type_uint64.cpp
index 7ec60c1..d9c1f12 100644
--- a/src/dbus_type_uint64.cpp
+++ b/src/dbus_type_uint64.cpp
@@ -59,6 +59,7 @@ std::string DBus::Type::Uint64::toString(const std::string& prefix) const
 std::string DBus::Type::Uint64::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic()); // no separators between digits
     ss << m_Value;
     return ss.str();
 }
-- 
2.43.0

