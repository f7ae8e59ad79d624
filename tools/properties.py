S = "src/"
COMMON = " All obligations are for every input; strings below 2^30 bytes, library functions by model, allocation succeeds, termination only as progress of each loop iteration."

P("P01", "Base64 encoding is exact for every byte sequence",
  "Encoding any sequence of bytes yields its standard Base64 text: four alphabet characters per three bytes in order, '=' padding for an incomplete last group, a line break after every 65536 characters, and nothing else. No byte outside the given sequence is read.",
  ["inputs"], "every byte sequence of every length", "tests encode a few short samples; sign, padding and the line-break rule need every byte value and every length",
  [S + "base64.cpp"], [("group loop, padding, line break", "Base64::Encode")], observe=["Base64::Encode"], note="Proof: the loop is shown to be a fold over 3-byte groups." + COMMON)
P("P02", "Base64 decoding is exact for every text",
  "Decoding a text yields exactly the bytes that the alphabet characters before the first other character encode, for complete and incomplete last groups alike. Nothing outside the text is read, whatever it contains.",
  ["inputs"], "every text of every length, including malformed ones", "tests decode a few well-formed samples; bytes above 127, malformed and unpadded texts need all inputs",
  [S + "base64.cpp"], [("group loop, remainder", "Base64::Decode")], observe=["Base64::Decode"], note="Proof: the loop is shown to be a fold over 4-character groups." + COMMON)
P("P03", "Attachment MIME type is the one registered for the file's extension",
  "The MIME type of an attachment is the one the library's table gives for the text after the last '.' of its file name (the whole name when there is no '.'), compared without regard to letter case. A name whose extension is not in the table yields the empty string, never a wrong type.",
  ["inputs"], "every file name", "the tests try a few dozen names; the claim is about every name, including several dots, no dot, mixed case and near misses",
  [S + "attachment.cpp", S + "stringutils.cpp"], [("extension lookup", "Attachment::getMimeType")], observe=["Attachment::getMimeType"],
  note="Proof over all file names." + COMMON)
P("P04", "String trimming and case conversion are exact for every byte string",
  "Trimming removes exactly the leading and/or trailing white space (space, \\t, \\n, \\v, \\f, \\r) and keeps every other byte; case conversion changes exactly the ASCII letters and preserves length.",
  ["inputs"], "every string of every length", "tests use a handful of short samples; interior white space, all-blank strings and non-ASCII bytes need all inputs",
  [S + "stringutils.cpp"], [("trim and case helpers", "StringUtils")], observe=["StringUtils::trim, trimLeft, trimRight, toLower, toUpper"],
  note="Proof over all strings; C locale." + COMMON)
P("P05", "Validated values are accepted exactly when valid and rejection has no effect",
  "Constructing or changing an e-mail address, a credential (user name, password), an attachment file name or a server name is rejected with an invalid-argument error exactly when the value is null/empty/blank (password: null or empty; e-mail: blank or not matching the documented pattern, ignoring case). After a rejected change the object still holds its previous value and nothing leaks.",
  ["inputs", "histories"], "every argument value, every prior state of the object", "tests sample a few valid and invalid values and never look at the object after a rejection",
  [S + "messageaddress.cpp", S + "credential.cpp", S + "attachment.cpp", S + "smtpclientbase.cpp"], [("constructors and setters", "Credential, MessageAddress, Attachment, SMTPClientBase")],
  observe=["constructors, setUsername, setPassword, setServerName"], note="Proof; std::regex by its regular-language semantics." + COMMON)
P("P06", "Addresses, credentials and attachments are independent values",
  "Copies of an e-mail address, a credential or an attachment equal the original and are independent of it: changing or destroying either never affects the other, moved-to objects hold exactly what the source held, and self-assignment changes nothing. Every object releases what it owns exactly once, and two addresses compare equal exactly when both e-mail and display name are the same.",
  ["inputs", "histories"], "every content, every sequence of copy/move/assign/set/destroy", "tests copy a few samples and check the getters; aliasing, leaks and double frees need every history",
  [S + "attachment.cpp", S + "credential.cpp", S + "messageaddress.cpp"], [("special member functions, setters, equality", "Attachment, Credential, MessageAddress")],
  observe=["copy/move constructors and assignments, destructors, getters, operator=="],
  note="Proof of each member function against an ownership contract; a moved-from object may only be assigned to or destroyed." + COMMON)
P("P07", "Messages hold exactly what they were given and are independent values",
  "A message holds exactly the sender, To, Cc and Bcc recipients, subject, body and attachments it was constructed with, in order, and every copy holds the same and is independent of its source. Moving transfers everything, self-assignment changes nothing, and every object releases what it owns exactly once.",
  ["inputs", "histories"], "every number of recipients and attachments, every content, every sequence of copy/move/assign/destroy", "tests use one or two recipients and never assign over a message that already has elements; aliasing and double frees need every combination of counts",
  [S + "message.cpp", S + "plaintextmessage.cpp", S + "htmlmessage.cpp"], [("constructors, special member functions, getters", "Message, PlaintextMessage, HTMLMessage")],
  observe=["getters of Message after construction, copy, move, assignment, destruction"],
  note="Proof for arbitrary element counts by inferred and verified loop invariants over arrays of owned objects; a null array must have count 0 and a moved-from message may only be assigned to or destroyed." + COMMON)
NET = " Bounded stand-ins for functions outside the verifier's reach are listed in the evidence (bounded_stand_in), never counted as proved."
P("P08", "Clients are independent values that keep exactly what they were given",
  "A new client holds exactly the given server and port with the documented defaults, every setter changes exactly its own setting, and a copy holds the same settings, credentials and log as its source but no connection and shares nothing with it. Moving hands over everything including an open connection, assigning to a client first ends its own connection, self-assignment changes nothing, and every owned object is released exactly once.",
  ["inputs", "histories"], "every content, every sequence of construct/copy/move/assign/set/destroy, connected or not", "tests copy a few fresh clients; connected clients, aliasing, leaks and double frees need every history",
  [S + "smtpclientbase.cpp", S + "smtpclient.cpp", S + "securesmtpclientbase.cpp", S + "opportunisticsecuresmtpclient.cpp", S + "forcedsecuresmtpclient.cpp"],
  [("special member functions, setters and getters", "SMTPClientBase, SmtpClient, SecureSMTPClientBase and the two TLS clients")], observe=["getters after construction, copy, move, assignment, set; connection count"],
  note="Proof of each member function against an ownership contract; a moved-from client may only be assigned to or destroyed." + NET + COMMON)
P("P09", "Reply codes and multi-line EHLO replies are read exactly",
  "The code of a server reply is the three-digit number with a non-zero first digit that the reply begins with, and -1 for any other text. An EHLO reply counts as complete exactly when its last line begins with '250 ', the client keeps reading until then, and the complete reply is what it evaluates and keeps as last response.",
  ["inputs", "schedules"], "every text; every way the EHLO reply is split into pieces", "tests use well-formed samples in one piece; malformed codes and split replies need all inputs",
  [S + "smtpclientbase.cpp", S + "securesmtpclientbase.cpp", S + "serveroptionsanalyzer.cpp"], [("reply code", "SMTPClientBase::extractReturnCode"), ("completeness", "ServerOptionsAnalyzer::containsAllOptions"),
   ("reading loop", "SMTPClientBase::sendServerIdentification, SecureSMTPClientBase::getServerSecureIdentification")], observe=["extractReturnCode, containsAllOptions, getLastServerResponse"], note="Proof." + NET + COMMON)
P("P10", "The AUTH mechanisms a server offers are recognised exactly",
  "From an EHLO reply the client takes the mechanisms of the first line that begins with '250-AUTH' or '250 AUTH', wherever that line stands: each of PLAIN, LOGIN, XOAUTH2, PLAIN-CLIENTTOKEN, OAUTHBEARER and XOAUTH counts as offered exactly when it is one of the space-separated words of that line. Without such a line (or without a reply) there are no authentication options, and nothing leaks.",
  ["inputs"], "every reply text", "tests use a few sample replies; word boundaries, the position of the line and its last line need every text",
  [S + "smtpclientbase.cpp"], [("line search", "SMTPClientBase::extractAuthenticationOptions"), ("words of the line", "ParseAuthenticationOptions")], observe=["extractAuthenticationOptions; the AUTH command sent"],
  note="Proof." + NET + COMMON)
P("P11", "The communication log keeps every entry in order and loses nothing",
  "Each logged item is appended as one new line made of its prefix, ': ' and its text, CR LF in client items being shown as \\r\\n, and everything logged before stays unchanged. This holds for every length of item and log and after the client was copied or moved, and no byte outside the log's buffer is touched.",
  ["inputs", "histories"], "every item, prefix and log length, every sequence of entries", "tests log short items into a fresh buffer; growth boundaries and copied logs need every length",
  [S + "smtpclientbase.cpp"], [("append and growth", "SMTPClientBase::addCommunicationLogItem")], state=[("mCommunicationLog, mCommunicationLogSize", "buffer and its size", S + "smtpclientbase.h")], observe=["getCommunicationLog"], note="Proof." + COMMON)
P("P12", "Waiting for the server is bounded and replies are delivered whole",
  "Waiting for the connection, the greeting or a reply never exceeds the configured command timeout (at least one second), whatever the server does, and a missing reply is reported. A reply that arrives is delivered completely, in pieces or at once, with its own code, and no byte outside the receive buffer is read or written.",
  ["schedules", "inputs"], "every timing and splitting of what the server sends, silence and disconnection included", "tests have no server; timing, splitting and silence need every schedule",
  [S + "smtpclientbase.cpp", S + "securesmtpclientbase.cpp", S + "forcedsecuresmtpclient.cpp"], [("receive loops", "SMTPClientBase::getRawCommandReply, checkServerGreetings; SecureSMTPClientBase::getServerReply; ForcedSecureSMTPClient::checkServerGreetings")],
  observe=["time slept, result, getLastServerResponse"], note="Proof over a model of recv/BIO_read/sleep; name lookup and the TLS handshake are not bounded by the timeout. Data that arrives in the very last second may be treated as late." + NET + COMMON)
P("P13", "A command is sent completely and in order, or its failure is reported",
  "Every send either puts exactly the given text on the connection, once and in order, however little the system accepts at once, or returns the given error code and closes the connection. The lack of a reply is told apart from the failure to send by the timeout code, and a connection broken by the peer never ends the process.",
  ["inputs", "schedules"], "every text, every sequence of partial sends and failures", "tests have no connection; partial sends and failures need every schedule",
  [S + "smtpclientbase.cpp", S + "smtpclient.cpp", S + "securesmtpclientbase.cpp"], [("sending", "SMTPClientBase::sendRawCommand; sendCommand and sendCommandWithFeedback of the clients")], observe=["bytes on the wire, result"],
  note="Proof over a model of send/BIO_puts with arbitrary partial sends and failures." + NET + COMMON)
P("P14", "Authentication follows the offer and the configuration and is never logged",
  "With credentials the client authenticates with the first mechanism of PLAIN, LOGIN, XOAUTH2 that the server offers and the configured method allows, sends exactly the commands that mechanism prescribes with the exact user name and password, and reports that no method fits otherwise. Success requires the server's 235, and neither the password nor anything computed from it enters the communication log.",
  ["inputs", "schedules"], "every credential, offer, configured method and server reply", "tests cannot reach authentication without a server; every offer, credential and reply matters",
  [S + "smtpclientbase.cpp"], [("choice and commands", "SMTPClientBase::authenticateClient, authenticateWithMethodPlain, authenticateWithMethodLogin, authenticatedWithMethodXOauth2"), ("log", "SMTPClientBase::addCommunicationLogItem callers")],
  observe=["commands on the wire, result, getCommunicationLog"], note="Proof." + NET + COMMON)
P("P15", "The envelope names the sender and every recipient, and rejections are reported",
  "Every message is announced with its sender address (in the three documented forms, one after the other while the server answers 501) and with one RCPT TO for each To, Cc and Bcc recipient, in order, none omitted or repeated. If the server accepts no form of the sender or rejects any recipient, the message is not sent and the rejection's reply code (or the error code) is the result.",
  ["inputs", "schedules"], "every number of recipients, every sequence of server replies", "tests have no server; each position of a rejection matters",
  [S + "smtpclientbase.cpp"], [("envelope", "SMTPClientBase::setMailRecipients, addMailRecipients")], observe=["commands on the wire, result of sendMail"], note="Proof." + NET + COMMON)
P("P16", "The message arrives as composed: headers, body, dot-stuffing, no Bcc",
  "The data sent are exactly the From, To, Cc and Subject headers with the given names and addresses, the multipart Content-Type header, the body part with the message's MIME type and its exact text, the attachments part and the end mark, with every line of the body parts that begins with a dot given a second one. Nothing is lost, repeated or reordered however long the text is, and no Bcc address appears.",
  ["inputs"], "every message content and length", "tests have no server and check only header values; chunk boundaries and dots need every content",
  [S + "smtpclientbase.cpp"], [("headers", "SMTPClientBase::setMailHeaders, addMailHeader, generateHeaderAddressValues"), ("body", "SMTPClientBase::setMailBody")], observe=["bytes on the wire between DATA and the end mark"],
  note="Proof. Line breaks inside header values are not filtered by the library (limitation, not claimed)." + NET + COMMON)
P("P17", "Attachment parts carry every attachment's name, type, id and exact content",
  "The attachments text has one part per attachment, in order, with its MIME type, name, content id and disposition exactly as configured and the Base64 text of exactly the file's content, and ends with the closing boundary. An unreadable file yields an empty part, and nothing leaks.",
  ["inputs"], "every number of attachments, every name, id and content", "tests use a few samples; every combination of id, name and content matters",
  [S + "smtpclientbase.cpp", S + "attachment.cpp"], [("parts", "SMTPClientBase::createAttachmentsText")], observe=["createAttachmentsText"], note="Proof." + NET + COMMON)
P("P18", "Success is reported only for a message the server accepted",
  "sendMail returns 0 only after the server accepted the connection, the greeting, the sender, every recipient, the DATA command and the complete message, each with the reply code that step requires. Otherwise the result is the reply code or the error code of the first step that failed, no later step is performed, and nothing is reported as sent that was cut short.",
  ["schedules", "inputs"], "every sequence of server replies, failures and timeouts, every message", "tests have no server; each step's failure needs its own schedule",
  [S + "smtpclientbase.cpp", S + "smtpclient.cpp", S + "opportunisticsecuresmtpclient.cpp", S + "forcedsecuresmtpclient.cpp"], [("steps", "SMTPClientBase::sendMail, setMailRecipients, setMailHeaders, setMailBody; establishConnectionWithServer of the clients")],
  observe=["result of sendMail, commands on the wire"], note="Proof." + NET + COMMON)
P("P19", "TLS is verified before anything confidential is sent and never silently dropped",
  "The forced client sends nothing before a TLS session with the configured server is established, and the opportunistic client uses TLS whenever the server offers STARTTLS and, after offering it, never continues in clear text. A session is used only when the peer presented a certificate that verifies (or is self-signed and the user accepts that), and from then on every command and reply travels inside TLS.",
  ["schedules", "inputs"], "every server behaviour and every outcome of handshake and verification", "tests have no TLS server; each failing step needs its own schedule",
  [S + "securesmtpclientbase.cpp", S + "opportunisticsecuresmtpclient.cpp", S + "forcedsecuresmtpclient.cpp"],
  [("negotiation and verification", "SecureSMTPClientBase::startTLSNegotiation"), ("order", "establishConnectionWithServer of the TLS clients"), ("channel choice", "SecureSMTPClientBase::sendCommand, sendCommandWithFeedback")],
  observe=["what is sent outside and inside TLS, result"], note="Proof over a model of OpenSSL. The certificate's host name is not checked by the library (limitation, not claimed)." + NET + COMMON)
P("P20", "Connections go to the configured server and are always released",
  "A session connects to the configured server and port, each failing step is reported with its own code, and every connection, TLS object and descriptor is released exactly once: after a message unless batch mode is on, after any failure, on assignment and on destruction. In batch mode the connection is kept for the next message and ended with QUIT, and a descriptor that is not the client's open connection is never used.",
  ["schedules", "histories"], "every failure point, every sequence of sends and client operations", "tests have no server; leaks and double closes need every failure point and history",
  [S + "smtpclientbase.cpp", S + "smtpclient.cpp", S + "securesmtpclientbase.cpp"], [("connecting", "SMTPClientBase::initializeSession"), ("closing", "cleanup of the clients, destructors, assignment")], observe=["descriptors and TLS objects open after each operation"],
  note="Proof over a model of the socket calls and OpenSSL." + NET + COMMON)
P("P22", "The C++ interface behaves exactly like the C interface it wraps",
  "Every class of the C++ interface passes its arguments unchanged to the class it wraps and returns what that class returns: values, counts, messages, credentials with their recommended method, errors. Copies are independent, equality agrees, and nothing it obtains from the wrapped class leaks.",
  ["inputs", "histories"], "every value and every sequence of operations", "tests check a few values per getter; forwarding mistakes and leaks show only for particular values and histories",
  [S + "cpp/attachment.cpp", S + "cpp/credential.cpp", S + "cpp/messageaddress.cpp", S + "cpp/message.cpp", S + "cpp/plaintextmessage.cpp", S + "cpp/htmlmessage.cpp", S + "cpp/smtpclient.cpp", S + "cpp/opportunisticsecuresmtpclient.cpp", S + "cpp/forcedsecuresmtpclient.cpp"],
  [("forwarding", "jed_utils::cpp")], observe=["getters and sendMail of the C++ classes against the wrapped ones"], note="Proof." + NET + COMMON)
P("P21", "Every error code has its documented message, delivered intact",
  "Each error code of the library resolves to its documented message and any other code to the fixed fallback text; copies keep code and message. The buffer variant never writes beyond the caller's buffer, terminates the text, and reports truncation as documented.",
  ["inputs"], "every integer code, every buffer size", "tests list codes but not every integer, buffer size or copy history",
  [S + "errorresolver.cpp", S + "smtpclientbase.cpp"], [("message lookup", "ErrorResolver"), ("allocating and buffer variants", "SMTPClientBase::getErrorMessage, getErrorMessage_r")],
  observe=["ErrorResolver, getErrorMessage, getErrorMessage_r"], note="Proof." + COMMON)
