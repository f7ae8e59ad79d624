From 4d50491dc0b672b8b47e38d616cadd2eeae71764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 01/40] fix: release the previous content id in
 Attachment::setContentId

---
 src/attachment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..571286a 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -112,9 +112,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 
 void Attachment::setContentId(const char * pContentId) {
     size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    char *new_contentid = new char[contentid_len + 1];
+    strncpy(new_contentid, pContentId, contentid_len);
+    new_contentid[contentid_len] = '\0';
+    delete[] mContentId;
+    mContentId = new_contentid;
 }
 
 const char *Attachment::getName() const {
-- 
2.43.0


From b21490175e48b3a6701a5bf30a12a3bcc40e95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 02/40] fix: allocate the empty subject and body of a message
 as arrays

They are released with delete[].
---
 src/message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..c38aeb5 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -42,7 +42,7 @@ Message::Message(const MessageAddress &pFrom,
       mAttachments(nullptr),
       mAttachmentCount(pAttachmentsSize) {
     if (pSubject == nullptr) {
-        mSubject = new char('\0');
+        mSubject = new char[1] { '\0' };
     } else {
         size_t subject_len = strlen(pSubject);
         mSubject = new char[subject_len + 1];
@@ -51,7 +51,7 @@ Message::Message(const MessageAddress &pFrom,
     }
 
     if (pBody == nullptr) {
-        mBody = new char('\0');
+        mBody = new char[1] { '\0' };
     } else {
         size_t body_len = strlen(pBody);
         mBody = new char[body_len + 1];
-- 
2.43.0


From e0582c882cb2c8d14a19516bc6eee4c11949214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 03/40] fix: make the copy assignment of a message copy the
 sender and drop the old arrays

The sender was not copied, and an array was left dangling when the source
had no such elements (released again by the destructor).
---
 src/message.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index c38aeb5..c1f387a 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -184,6 +184,8 @@ Message::Message(const Message &other)
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        // mFrom
+        mFrom = other.mFrom;
         // mSubject
         delete[] mSubject;
         size_t subject_len = strlen(other.mSubject);
@@ -197,11 +199,12 @@ Message& Message::operator=(const Message &other) {
         strncpy(mBody, other.mBody, body_len);
         mBody[body_len] = '\0';
         // mTo and mToCount
-        if (mToCount > 0) {
+        if (mTo != nullptr) {
             for (unsigned int i = 0; i < mToCount; i++) {
                 delete mTo[i];
             }
             delete[] mTo;
+            mTo = nullptr;
         }
         if (other.mToCount > 0) {
             mTo = new MessageAddress*[other.mToCount];
@@ -211,11 +214,12 @@ Message& Message::operator=(const Message &other) {
         }
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
+        if (mCc != nullptr) {
             for (unsigned int i = 0; i < mCCCount; i++) {
                 delete mCc[i];
             }
             delete[] mCc;
+            mCc = nullptr;
         }
         if (other.mCCCount > 0) {
             mCc = new MessageAddress*[other.mCCCount];
@@ -225,11 +229,12 @@ Message& Message::operator=(const Message &other) {
         }
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
+        if (mBcc != nullptr) {
             for (unsigned int i = 0; i < mBCCCount; i++) {
                 delete mBcc[i];
             }
             delete[] mBcc;
+            mBcc = nullptr;
         }
         if (other.mBCCCount > 0) {
             mBcc = new MessageAddress*[other.mBCCCount];
@@ -239,11 +244,12 @@ Message& Message::operator=(const Message &other) {
         }
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
+        if (mAttachments != nullptr) {
             for (unsigned int i = 0; i < mAttachmentCount; i++) {
                 delete mAttachments[i];
             }
             delete[] mAttachments;
+            mAttachments = nullptr;
         }
         if (other.mAttachmentCount > 0) {
             mAttachments = new Attachment*[other.mAttachmentCount];
-- 
2.43.0


From c5bde3c42e9929f9a8f95e97dd51ca28b22183a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 04/40] fix: leave room for the terminator when a reply fills
 the receive buffer

---
 src/smtpclientbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..d45075e 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -691,7 +691,7 @@ int SMTPClientBase::getRawCommandReply() {
     setSocketToNonBlocking();
 
     do {
-        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
+        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH - 1, 0);
         if (bytes_received > 0) {
             receivedAtLeastOnce = true;
             outbuf[bytes_received] = '\0';  // Null-terminate the received data
-- 
2.43.0


From 6eee58b9953a3221ef9538fc957744bee2454979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 05/40] fix: accept only three digits as the code of a server
 reply

---
 src/smtpclientbase.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index d45075e..b1b2bd9 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1067,13 +1067,13 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
 
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
-        std::string code_str { pOutput };
-        try {
-            return std::stoi(code_str.substr(0, 3));
-        }
-        catch (std::exception const &) {
+        // A reply code is made of three digits and never starts with zero
+        if (pOutput[0] < '1' || pOutput[0] > '9'
+                || pOutput[1] < '0' || pOutput[1] > '9'
+                || pOutput[2] < '0' || pOutput[2] > '9') {
             return -1;
         }
+        return (pOutput[0] - '0') * 100 + (pOutput[1] - '0') * 10 + (pOutput[2] - '0');
     }
     return -1;
 }
-- 
2.43.0


From b3967cdc24d39f64bde16f805b855ddd2a0f7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:25 +0000
Subject: [PATCH 06/40] fix: do not dereference missing authentication options

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index b1b2bd9..44391f6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -759,6 +759,9 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        if (mAuthOptions == nullptr) {
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From bc66db7a989546bb3dfb7aa8b8ba25c53ee69757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 07/40] fix: release the old log, response and credentials when
 a client is assigned

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 44391f6..25e7b63 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -124,6 +124,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mBatchMode
         mBatchMode = other.mBatchMode;
         // mCommunicationLog
+        delete[] mCommunicationLog;
         mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
         if (mCommunicationLog != nullptr) {
             size_t communication_log_len = strlen(other.mCommunicationLog);
@@ -132,6 +133,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         }
         mCommunicationLogSize = other.mCommunicationLogSize;
         // mLastServerResponse
+        delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
         if (mLastServerResponse != nullptr) {
             size_t last_server_response_len = strlen(other.mLastServerResponse);
@@ -144,6 +146,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mAuthOptions;
         mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
         // mCredential
+        delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
         mSock = 0;
-- 
2.43.0


From e98d57a9024d0bd26a94423527d18f506673aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 08/40] fix: record the real size of a copied communication log

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 25e7b63..eb2a286 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -83,7 +83,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mPort(other.mPort),
       mBatchMode(other.mBatchMode),
       mCommunicationLog(other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr),
-      mCommunicationLogSize(other.mCommunicationLogSize),
+      mCommunicationLogSize(other.mCommunicationLog != nullptr ? strlen(other.mCommunicationLog) + 1 : 0),
       mLastServerResponse(other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr),
       mCommandTimeOut(other.mCommandTimeOut),
       mLastSocketErrNo(other.mLastSocketErrNo),
@@ -131,7 +131,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
             strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
             mCommunicationLog[communication_log_len] = '\0';
         }
-        mCommunicationLogSize = other.mCommunicationLogSize;
+        mCommunicationLogSize = other.mCommunicationLog != nullptr ? strlen(other.mCommunicationLog) + 1 : 0;
         // mLastServerResponse
         delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
-- 
2.43.0


From 508f2796ba461d00b021478ee99b2ebd33156510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 09/40] fix: let a client's own credentials be passed to
 setCredentials

---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index eb2a286..1786daa 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -279,8 +279,9 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
+    auto *new_credential = new Credential(pCredential);
     delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = new_credential;
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
-- 
2.43.0


From f14fe163d321d7598e1e1367b210ae68e037251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 10/40] fix: let a client's own server name be passed to
 setServerName

---
 src/smtpclientbase.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1786daa..4fd0798 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -263,11 +263,12 @@ void SMTPClientBase::setServerName(const char *pServerName) {
     if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
-    delete []mServerName;
     size_t server_name_len = strlen(pServerName);
-    mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
+    char *new_servername = new char[server_name_len + 1];
+    strncpy(new_servername, pServerName, server_name_len);
+    new_servername[server_name_len] = '\0';
+    delete []mServerName;
+    mServerName = new_servername;
 }
 
 void SMTPClientBase::setBatchMode(bool pEnabled) {
-- 
2.43.0


From 87b5954721a85887f580e8a9bf7dbc917663397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 11/40] fix: send through the TLS session after an earlier
 unencrypted connection

---
 src/opportunisticsecuresmtpclient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..90492b5 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -66,6 +66,7 @@ int OpportunisticSecureSMTPClient::establishConnectionWithServer() {
 
     if (isStartTLSSupported(getLastServerResponse())) {
         addCommunicationLogItem("Info: STARTTLS is available by the server, the communication will be encrypted.");
+        setKeepUsingBaseSendCommands(false);
         int tls_init_return_code = upgradeToSecureConnection();
         if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
             return tls_init_return_code;
-- 
2.43.0


From 0cd870c2ccdcbedad79b504e799ed0f63759fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 12/40] fix: close the connection when it cannot be established

---
 src/smtpclientbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 4fd0798..be03b9e 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -350,6 +350,7 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     if (!mIsConnected) {
         int client_connect_ret_code = establishConnectionWithServer();
         if (client_connect_ret_code != 0) {
+            cleanup();
             return client_connect_ret_code;
         }
     }
-- 
2.43.0


From ab0ca070f5cb07868dfc3e7294077b7aad7763bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 13/40] fix: do not clean up again and again when the QUIT
 command fails

---
 src/securesmtpclientbase.cpp | 5 +++--
 src/smtpclient.cpp           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..e72909d 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -102,10 +102,11 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    bool sendQuit = getBatchMode() && mIsConnected;
+    mIsConnected = false;
+    if (sendQuit) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     if (mCTX != nullptr) {
         SSL_CTX_free(mCTX);
     }
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..80b1355 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -45,10 +45,11 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    bool sendQuit = getBatchMode() && mIsConnected;
+    mIsConnected = false;
+    if (sendQuit) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     int socket { getSocketFileDescriptor() };
     if (socket != 0) {
 #ifdef _WIN32
-- 
2.43.0


From 6c4b53bc3c65bbf0957241e834ebb644a175a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 14/40] fix: stop when the To or Cc header cannot be sent

---
 src/smtpclientbase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index be03b9e..36e7d95 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -929,13 +929,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From e6d865e5ad4df2f505e640608d223f4fca879afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 15/40] fix: return the error code of a socket that cannot be
 made non-blocking

---
 src/smtpclientbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 36e7d95..b645a9b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -523,7 +523,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
            host->h_addr,
            static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX()) {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
-- 
2.43.0


From 1fc94ae90541df55fa20425a3ea2e7b79b7b8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 16/40] fix: report that the flags of the socket cannot be read

---
 src/smtpclientbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index b645a9b..17effb6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -579,6 +579,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
-- 
2.43.0


From 3fd4682d9a0e53b79d7103562f90e7ed6fa6df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:16 +0000
Subject: [PATCH 17/40] fix: wait again when the connection attempt is
 interrupted by a signal

---
 src/smtpclientbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 17effb6..6485c7b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -560,7 +560,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
                         return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;
                     }
                     break;
-                } else {
+                } else if (res == 0) {
                     return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
                 }
             } while (1);
-- 
2.43.0


From 90cd07d9fcb0bf6e2a324664a5b8f76d5d8777c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 18/40] fix: let a credential's own user name or password be
 passed to its setters

---
 src/credential.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..b7ff389 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -127,11 +127,12 @@ void Credential::setUsername(const char *pUsername) {
         throw std::invalid_argument("Username cannot be null or empty");
     }
 
-    delete []mUsername;
     size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
+    char *new_username = new char[username_len + 1];
+    strncpy(new_username, pUsername, username_len);
+    new_username[username_len] = '\0';
+    delete []mUsername;
+    mUsername = new_username;
 }
 
 void Credential::setPassword(const char *pPassword) {
@@ -139,11 +140,12 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
-    delete []mPassword;
     size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    char *new_password = new char[password_len + 1];
+    strncpy(new_password, pPassword, password_len);
+    new_password[password_len] = '\0';
+    delete []mPassword;
+    mPassword = new_password;
 }
 
 void Credential::setRecommendedAuthOption(
-- 
2.43.0


From 936624c85dafa7aff4189d4f924c8e37bb52541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 19/40] fix: release the error message in the C++ clients

---
 src/cpp/forcedsecuresmtpclient.cpp        | 6 +++++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 6 +++++-
 src/cpp/smtpclient.cpp                    | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..4496fd8 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -68,7 +68,10 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string retval { errorMsg };
+    delete[] errorMsg;
+    return retval;
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -77,6 +80,7 @@ int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..0560694 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -68,7 +68,10 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string retval { errorMsg };
+    delete[] errorMsg;
+    return retval;
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -77,6 +80,7 @@ int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..eb13206 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -59,7 +59,10 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string retval { errorMsg };
+    delete[] errorMsg;
+    return retval;
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
@@ -68,6 +71,7 @@ int SmtpClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
-- 
2.43.0


From f916e002d8223c91dd777319448b9a9f3dc80cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 20/40] fix: release the encoded file in the C++ attachment

---
 src/cpp/attachment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..1baacd8 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -24,7 +24,9 @@ std::string Attachment::getContentId() const {
 
 std::string Attachment::getBase64EncodedFile() const {
     const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    std::string base64 { retval == nullptr ? "" : retval };
+    delete[] retval;
+    return base64;
 }
 
 std::string Attachment::getMimeType() const {
-- 
2.43.0


From 5460fc63e9532854480fff86558f809fcec4b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:43 +0000
Subject: [PATCH 21/40] fix: keep the recommended authentication option in
 cpp::SmtpClient::setCredentials

---
 src/cpp/smtpclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index eb13206..61ab294 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -49,7 +49,8 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
     delete mCredential;
     mCredential = new Credential(pCredential);
 }
-- 
2.43.0


From b188d1d8947672c295170f98ac11be014e8fa75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:16 +0000
Subject: [PATCH 22/40] fix: manage the lifetime of the credentials of the C++
 clients

---
 src/cpp/forcedsecuresmtpclient.cpp        | 5 ++---
 src/cpp/forcedsecuresmtpclient.hpp        | 3 ++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 ++---
 src/cpp/opportunisticsecuresmtpclient.hpp | 3 ++-
 src/cpp/smtpclient.cpp                    | 5 ++---
 src/cpp/smtpclient.hpp                    | 3 ++-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 4496fd8..0cff335 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..bb5bd8f 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPFORCEDSECURESMTPCLIENT_H
 #define CPPFORCEDSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../forcedsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 0560694..3296475 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..d52648b 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPOPPORTUNISTICSECURESMTPCLIENT_H
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../opportunisticsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 61ab294..b6f1830 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -28,7 +28,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -51,8 +51,7 @@ void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..8ed4abe 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPSMTPCLIENT
 #define CPPSMTPCLIENT
 
+#include <memory>
 #include <string>
 #include "credential.hpp"
 #include "message.hpp"
@@ -143,7 +144,7 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From 4b58021750beec6aeffe41023a2f18fb5f6d1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 23/40] fix: define the comparison of C++ message addresses

---
 src/cpp/messageaddress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 2e3a095..e9fa1c3 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -8,6 +8,10 @@ MessageAddress::MessageAddress(const std::string &pEmailAddress,
     : jed_utils::MessageAddress(pEmailAddress.c_str(), pDisplayName.c_str()) {
 }
 
+bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
+    return jed_utils::MessageAddress::operator==(pMsgComp);
+}
+
 MessageAddress::operator std::string() const {
     return jed_utils::MessageAddress::operator std::string();
 }
-- 
2.43.0


From 551a156922f4e4bb4d9190990a8941536280d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:21 +0000
Subject: [PATCH 24/40] fix: keep the last byte of a reply read through TLS

---
 src/securesmtpclientbase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index e72909d..4ef309c 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -279,7 +279,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
         } else if (replyCode != EHLO_SUCCESS_CODE) {
             return replyCode;
         }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
+        returnedOptions += getLastServerResponse();
     }
     // Inspect the returned values for authentication options
     setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(returnedOptions.c_str()));
@@ -319,12 +319,12 @@ int SecureSMTPClientBase::getServerReply() {
     unsigned int waitTime {0};
     int bytes_received {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
+    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH - 1)) <= 0 && waitTime < getCommandTimeout()) {
         crossPlatformSleep(1);
         waitTime += 1;
     }
     if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
+        outbuf[bytes_received] = '\0';
         setLastServerResponse(outbuf);
         addCommunicationLogItem(outbuf, "s");
         return extractReturnCode(outbuf);
-- 
2.43.0


From 7116462fbfdd8df0c099fc4b13cabea7ff4cde5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 25/40] fix: join the parts of an EHLO reply as they were
 received

---
 src/smtpclientbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 6485c7b..1af8c38 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -644,7 +644,7 @@ int SMTPClientBase::sendServerIdentification() {
         } else if (replyCode != EHLO_SUCCESS_CODE) {
             return replyCode;
         }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
+        returnedOptions += getLastServerResponse();
     }
     // Inspect the returned values for authentication options
     setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
-- 
2.43.0


From d531200a31caf0dbf058c5f64b3dec6ec9ee03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 26/40] fix: look for STARTTLS in the whole EHLO reply

---
 src/smtpclientbase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1af8c38..2943691 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -648,6 +648,8 @@ int SMTPClientBase::sendServerIdentification() {
     }
     // Inspect the returned values for authentication options
     setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
+    // The last response is the whole reply, not its last part only
+    setLastServerResponse(returnedOptions.c_str());
     return EHLO_SUCCESS_CODE;
 }
 
-- 
2.43.0


From efaa290def6478f9d8eec773672b526564d0da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 27/40] fix: recognise STARTTLS on the last line of the EHLO
 reply

---
 src/opportunisticsecuresmtpclient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index 90492b5..24fe276 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -111,5 +111,7 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
     }
 
     const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    const std::string STARTTLS_LAST_LINE_PREFIX { "250 STARTTLS" };
+    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos
+        || serverResponse.find(STARTTLS_LAST_LINE_PREFIX) != std::string::npos;
 }
-- 
2.43.0


From 126c9a73fa10989a9ff87a528594d7352cfe45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 28/40] fix: parse the last line of the EHLO reply once and do
 not leak the options

---
 src/smtpclientbase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2943691..f2248f7 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1151,9 +1151,9 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
             break;
         }
         ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
-            retVal = ParseAuthenticationOptions(ehlo_output);
-        }
+    }
+    if (!ehlo_output.empty() && retVal == nullptr) {
+        retVal = ParseAuthenticationOptions(ehlo_output);
     }
     return retVal;
 }
-- 
2.43.0


From af7fdcca020344e7c1472e7e3d9103847f87b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 29/40] fix: do not overflow the buffer for the name of the TLS
 server

---
 src/securesmtpclientbase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 4ef309c..9856d07 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -167,13 +167,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    std::string name { std::string(getServerName()) + ":" + std::to_string(getServerPort()) };
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
-- 
2.43.0


From 4b27bca52e25dab08e65d55f05ddd68ab7399740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 30/40] fix: report a command that could not be written to the
 TLS session

---
 src/securesmtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 9856d07..b833bfd 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -285,7 +285,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
@@ -298,7 +298,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
-- 
2.43.0


From 7318c8b6886836a825d4edf563f9bbb27d881b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:49 +0000
Subject: [PATCH 31/40] fix: send the whole command when the socket accepts
 only a part of it

---
 src/smtpclientbase.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f2248f7..2294e2c 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -684,10 +684,16 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #else
     size_t commandSize = strlen(pCommand);
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        cleanup();
-        return pErrorCode;
+    // The socket may accept only a part of the command at once
+    decltype(commandSize) sentSize = 0;
+    while (sentSize < commandSize) {
+        auto sent = send(mSock, pCommand + sentSize, commandSize - sentSize, 0);
+        if (sent == -1) {
+            setLastSocketErrNo(errno);
+            cleanup();
+            return pErrorCode;
+        }
+        sentSize += static_cast<decltype(commandSize)>(sent);
     }
     return 0;
 }
-- 
2.43.0


From bbd0ba17c24c9e83187bec937db2e87085f5ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 32/40] fix: double the dot at the beginning of a line of the
 message

---
 src/smtpclientbase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2294e2c..d710c05 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -996,6 +996,15 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
         body_real += attachments_text;
     }
 
+    // A line that begins with a dot gets another one so that it does not end the data (RFC 5321 4.5.2)
+    const std::string DOT_LINE { "\r\n." };
+    const std::string STUFFED_DOT_LINE { "\r\n.." };
+    size_t dot_pos = 0;
+    while ((dot_pos = body_real.find(DOT_LINE, dot_pos)) != std::string::npos) {
+        body_real.replace(dot_pos, DOT_LINE.length(), STUFFED_DOT_LINE);
+        dot_pos += STUFFED_DOT_LINE.length();
+    }
+
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
         // Split into chunk
-- 
2.43.0


From d0bb33ea8d7a171f4d718ec348bf69e3c68c7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:57 +0000
Subject: [PATCH 33/40] fix: send no more recipients once the connection is
 closed

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index d710c05..02a3f5a 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -901,6 +901,9 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
     int rcpt_to_ret_code = RECIPIENT_OK;
     std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
+            if (rcpt_to_ret_code < 0) {
+            return;  // The connection has been closed
+            }
             std::stringstream ss_rcpt_to;
             ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
             addCommunicationLogItem(ss_rcpt_to.str().c_str());
-- 
2.43.0


From a343ccf7f1b2193f688b8b53bb89feaae232160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 34/40] fix: close the connection of a client that another one
 is assigned to

---
 src/securesmtpclientbase.cpp | 2 ++
 src/smtpclient.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index b833bfd..5cc6669 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -50,6 +50,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(const SecureSMTPClientBase& other)
 // Assignment operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(const SecureSMTPClientBase& other) {
     if (this != &other) {
+        cleanup();
         SMTPClientBase::operator=(other);
         mBIO = nullptr;
         mCTX = nullptr;
@@ -77,6 +78,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        cleanup();
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 80b1355..bc408b1 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -26,6 +26,7 @@ SmtpClient::~SmtpClient() {
 // Assignment operator
 SmtpClient& SmtpClient::operator=(const SmtpClient &other) {
     if (this != &other) {
+        cleanup();
         SMTPClientBase::operator=(other);
     }
     return *this;
@@ -39,6 +40,7 @@ SmtpClient::SmtpClient(SmtpClient &&other) noexcept
 // Move assignement
 SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
     if (this != &other) {
+        cleanup();
         SMTPClientBase::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From 0c0e1f7aaa4342209fd7f255b561cda56618caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:42 +0000
Subject: [PATCH 35/40] fix: read an attached file of any size and detect what
 cannot be read

---
 src/attachment.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 571286a..c49ddc9 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -136,11 +136,11 @@ const char *Attachment::getBase64EncodedFile() const {
     std::ifstream in(mFilename, std::ios::in | std::ios::binary);
     if (in) {
         std::string contents;
-        in.seekg(0, std::ios::end);
-        contents.resize(static_cast<unsigned int>(in.tellg()));
-        in.seekg(0, std::ios::beg);
-        if (static_cast<intmax_t>(contents.size()) <= std::numeric_limits<std::streamsize>::max()) {
-            in.read(&contents[0], static_cast<std::streamsize>(contents.size()));
+        char buffer[4096];
+        while (in.read(buffer, sizeof(buffer)) || in.gcount() > 0) {
+            contents.append(buffer, static_cast<size_t>(in.gcount()));
+        }
+        if (!in.bad()) {
             in.close();
             std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
             auto *base64_file = new char[base64_result.length() + 1];
-- 
2.43.0


From a4255c20485ec134447d05b3a6ebc5dac570b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 36/40] fix: wait for the connection with poll so that any file
 descriptor works

---
 src/smtpclientbase.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 02a3f5a..042eccf 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -31,6 +31,7 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/in.h>
+    #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
     #include <unistd.h>
@@ -501,8 +502,6 @@ void SMTPClientBase::doWSACleanup() {
 #else
 int SMTPClientBase::initializeSessionPOSIX() {
     // POSIX socket version
-    fd_set fdset;
-    struct timeval tv;
     socklen_t lon;
     int valopt;
     mSock = socket(AF_INET, SOCK_STREAM, 0);
@@ -533,17 +532,17 @@ int SMTPClientBase::initializeSessionPOSIX() {
     if (res < 0) {
         if (errno == EINPROGRESS) {
             do {
-                tv.tv_sec = mCommandTimeOut;
-                tv.tv_usec = 0;
-                FD_ZERO(&fdset);
-                FD_SET(mSock, &fdset);
-                res = select(mSock+1, NULL, &fdset, NULL, &tv);
+                struct pollfd pfd {};
+                pfd.fd = mSock;
+                pfd.events = POLLOUT;
+                const unsigned int MAX_TIMEOUT = static_cast<unsigned int>((std::numeric_limits<int>::max)() / 1000);
+                res = poll(&pfd, 1, static_cast<int>((std::min)(mCommandTimeOut, MAX_TIMEOUT) * 1000));
                 if (res < 0 && errno != EINTR) {
                     setLastSocketErrNo(errno);
                     addCommunicationLogItem(strerror(errno));
                     return SOCKET_INIT_SESSION_CONNECT_ERROR;
                 } else if (res > 0) {
-                    // Socket selected for write
+                    // Socket ready for write
                     lon = sizeof(int);
                     if (getsockopt(mSock,
                                    SOL_SOCKET,
-- 
2.43.0


From 2d721ded4ab978a110cd4fa7dc1de3b11d93118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 37/40] fix: do not let a closed connection end the process

---
 src/smtpclientbase.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 042eccf..4769174 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -37,6 +37,13 @@
     #include <unistd.h>
 #endif
 
+// A closed connection is reported by send, not by a signal
+#ifdef MSG_NOSIGNAL
+static const int SEND_FLAGS = MSG_NOSIGNAL;
+#else
+static const int SEND_FLAGS = 0;
+#endif
+
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
@@ -686,7 +693,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
     // The socket may accept only a part of the command at once
     decltype(commandSize) sentSize = 0;
     while (sentSize < commandSize) {
-        auto sent = send(mSock, pCommand + sentSize, commandSize - sentSize, 0);
+        auto sent = send(mSock, pCommand + sentSize, commandSize - sentSize, SEND_FLAGS);
         if (sent == -1) {
             setLastSocketErrNo(errno);
             cleanup();
-- 
2.43.0


From 35fc463b4801f19b5708be8c5388bf0d5c0905ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:50 +0000
Subject: [PATCH 38/40] fix: read the rest of an EHLO reply that arrives in
 parts before STARTTLS

---
 src/securesmtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 5cc6669..f076ede 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -316,6 +316,10 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
 }
 
 int SecureSMTPClientBase::getServerReply() {
+    // Check if we are in the TLS mode of before it
+    if (mBIO == nullptr) {
+        return getRawCommandReply();
+    }
     unsigned int waitTime {0};
     int bytes_received {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-- 
2.43.0


From 1ea639463b4571d7a6874b18e04d02ebc712d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 39/40] fix: do not wait for ever for a server that accepts the
 connection and stays silent

---
 src/forcedsecuresmtpclient.cpp | 3 +++
 src/securesmtpclientbase.cpp   | 3 +++
 src/smtpclientbase.cpp         | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/forcedsecuresmtpclient.cpp b/src/forcedsecuresmtpclient.cpp
index e8bf919..ae5e14c 100644
--- a/src/forcedsecuresmtpclient.cpp
+++ b/src/forcedsecuresmtpclient.cpp
@@ -82,10 +82,13 @@ int ForcedSecureSMTPClient::checkServerGreetings() {
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     unsigned int waitTime = 0;
     ssize_t bytes_received = 0;
+    // A server that does not answer must not block the client longer than the timeout
+    setSocketToNonBlocking();
     while ((bytes_received = BIO_read(getBIO(), outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
         crossPlatformSleep(1);
         waitTime += 1;
     }
+    setSocketToBlocking();
     if (waitTime < getCommandTimeout()) {
         outbuf[bytes_received-1] = '\0';
         addCommunicationLogItem(outbuf, "s");
diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index f076ede..cbd38a9 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -323,10 +323,13 @@ int SecureSMTPClientBase::getServerReply() {
     unsigned int waitTime {0};
     int bytes_received {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
+    // A server that does not answer must not block the client longer than the timeout
+    setSocketToNonBlocking();
     while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH - 1)) <= 0 && waitTime < getCommandTimeout()) {
         crossPlatformSleep(1);
         waitTime += 1;
     }
+    setSocketToBlocking();
     if (waitTime < getCommandTimeout()) {
         outbuf[bytes_received] = '\0';
         setLastServerResponse(outbuf);
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 4769174..3b0f5fb 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -663,11 +663,14 @@ int SMTPClientBase::checkServerGreetings() {
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     unsigned int waitTime = 0;
     ssize_t bytes_received = 0;
+    // A server that does not answer must not block the client longer than the timeout
+    setSocketToNonBlocking();
     while ((bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0)) <= 0
             && waitTime < mCommandTimeOut) {
         crossPlatformSleep(1);
         waitTime += 1;
     }
+    setSocketToBlocking();
     if (waitTime < mCommandTimeOut) {
         outbuf[bytes_received-1] = '\0';
         addCommunicationLogItem(outbuf, "s");
-- 
2.43.0


From 51764fff702631fcec7af76dbd224cd8e73e52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 40/40] fix: sendMail closes the connection when the message
 fails

A rejected recipient, a refused DATA or a refused message left the connection
open, outside batch mode too, with the mail transaction still under way: the
next message was then refused by the server (nested MAIL command).
---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 3b0f5fb..b7e2255 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -366,16 +366,19 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
 
     int set_mail_recipients_ret_code = setMailRecipients(pMsg);
     if (set_mail_recipients_ret_code != 0) {
+        cleanup();
         return set_mail_recipients_ret_code;
     }
 
     int set_mail_headers_ret_code = setMailHeaders(pMsg);
     if (set_mail_headers_ret_code != 0) {
+        cleanup();
         return set_mail_headers_ret_code;
     }
 
     int set_mail_body_ret_code = setMailBody(pMsg);
     if (set_mail_body_ret_code != 0) {
+        cleanup();
         return set_mail_body_ret_code;
     }
 
-- 
2.43.0

