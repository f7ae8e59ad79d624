"""Attachment, Credential, MessageAddress, ErrorResolver, StringUtils."""
from .common import *
from ..lib import filetext
from .base64 import encoded, B64SET

AT, CR, MA, ER, SU = J("Attachment"), J("Credential"), J("MessageAddress"), J("ErrorResolver"), J("StringUtils")

owned_class("Attachment", ("mName", "mFilename", "mContentId"))
owned_class("Credential", ("mUsername", "mPassword"), ("mRecommendedAuthMethod",))
owned_class("MessageAddress", ("mEmailAddress", "mDisplayName"))
owned_class("ErrorResolver", ("mErrorMessage",), ("mErrorCode",), props=("P21",))

for f, g in (("mName", "getName"), ("mFilename", "getFilename"), ("mContentId", "getContentId")):
    getter_cstr("Attachment", g, f, ("P06",))
for f, g in (("mUsername", "getUsername"), ("mPassword", "getPassword")):
    getter_cstr("Credential", g, f, ("P06",))
getter_val("Credential", "getRecommendedAuthOption", "mRecommendedAuthMethod", ("P06",))
for f, g in (("mEmailAddress", "getEmailAddress"), ("mDisplayName", "getDisplayName")):
    getter_cstr("MessageAddress", g, f, ("P06",))
getter_cstr("ErrorResolver", "getErrorMessage", "mErrorMessage", ("P21",))
getter_val("ErrorResolver", "getErrorCode", "mErrorCode", ("P21",))


# ---------------------------------------------------------------- StringUtils
@spec(SU + "::trimLeft", ("P04",))
def _(c):
    s = c.arg_str(0)
    watch(c, s)
    c.body()
    c.ret(ltrim(c.I, s))


@spec(SU + "::trimRight", ("P04",))
def _(c):
    s = c.arg_str(0)
    watch(c, s)
    c.body()
    c.ret(rtrim(c.I, s))


@spec(SU + "::trim", ("P04",))
def _(c):
    s = c.arg_str(0)
    watch(c, s)
    c.body()
    c.ret(trimmed(c.I, s))


@spec(SU + "::toLower", ("P04",))
def _(c):
    s = c.arg_str(0)
    c.body()
    c.ret(lower(s))


@spec(SU + "::toUpper", ("P04",))
def _(c):
    s = c.arg_str(0)
    c.body()
    c.ret(upper(s))


# ------------------------------------------------------------------ Attachment
@spec(AT + "::Attachment", ("P05", "P06"), [CHARP, CHARP, CHARP])
def _(c):
    c.this_obj(raw=True)
    fn, nm, ci = c.arg_cstr(0), c.arg_cstr(1), c.arg_cstr(2)
    c.body()
    if c.throws(blank(c.I, fn)):
        return
    for f, v in (("mName", nm), ("mFilename", fn), ("mContentId", ci)):
        c.set_owned(c.field(c.this, f), v)


@spec(AT + "::setContentId", ("P06",))
def _(c):
    c.this_obj()
    s = c.arg_cstr(0, alias="mContentId")
    c.body()
    c.set_owned(c.field(c.this, "mContentId"), s)


MIME = [
    ("PNG", "image/png"), ("JPEG JPG JPE", "image/jpeg"), ("GIF", "image/gif"), ("TIFF TIF", "image/tiff"), ("ICO", "image/x-icon"),
    ("XML XSL", "application/xml"), ("XHTML XHT", "application/xhtml+xml"), ("PDF", "application/pdf"), ("JS", "application/javascript"),
    ("CSS", "text/css"), ("CSV", "text/csv"), ("HTML HTM", "text/html"), ("TXT TEXT CONF DEF LIST LOG IN", "text/plain"),
    ("MPEG MPG MPE M1V M2V", "video/mpeg"), ("MP4 MP4V MPG4", "video/mp4"), ("QT MOV", "video/quicktime"), ("WMV", "video/x-ms-wmv"),
    ("AVI", "video/x-msvideo"), ("FLV", "video/x-flv"), ("WEBM", "video/webm"), ("WAV", "audio/wav"), ("MP3", "audio/mpeg"), ("OGA", "audio/ogg"),
    ("OPUS", "audio/opus"), ("AAC", "audio/aac"), ("ZIP", "application/zip"), ("RAR", "application/x-rar-compressed"),
    ("ODT", "application/vnd.oasis.opendocument.text"), ("ODS", "application/vnd.oasis.opendocument.spreadsheet"),
    ("ODP", "application/vnd.oasis.opendocument.presentation"), ("ODG", "application/vnd.oasis.opendocument.graphics"),
    ("XLS XLM XLA XLC XLT XLW", "application/vnd.ms-excel"), ("XLAM", "application/vnd.ms-excel.addin.macroenabled.12"),
    ("XLSB", "application/vnd.ms-excel.sheet.binary.macroenabled.12"), ("XLSM", "application/vnd.ms-excel.sheet.macroenabled.12"),
    ("XLTM", "application/vnd.ms-excel.template.macroenabled.12"), ("XLSX", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"),
    ("XLTX", "application/vnd.openxmlformats-officedocument.spreadsheetml.template"), ("PPT PPS POT", "application/vnd.ms-powerpoint"),
    ("PPAM", "application/vnd.ms-powerpoint.addin.macroenabled.12"), ("PPTM", "application/vnd.ms-powerpoint.presentation.macroenabled.12"),
    ("SLDM", "application/vnd.ms-powerpoint.slide.macroenabled.12"), ("PPSM", "application/vnd.ms-powerpoint.slideshow.macroenabled.12"),
    ("POTM", "application/vnd.ms-powerpoint.template.macroenabled.12"), ("PPTX", "application/vnd.openxmlformats-officedocument.presentationml.presentation"),
    ("SLDX", "application/vnd.openxmlformats-officedocument.presentationml.slide"), ("PPSX", "application/vnd.openxmlformats-officedocument.presentationml.slideshow"),
    ("POTX", "application/vnd.openxmlformats-officedocument.presentationml.template"), ("DOC DOT", "application/msword"),
    ("DOCX", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"),
    ("DOTX", "application/vnd.openxmlformats-officedocument.wordprocessingml.template"), ("XUL", "application/vnd.mozilla.xul+xml")]


def mime(I_, fn):
    """the type for the text after the last '.', compared without regard to case ("" when unknown)"""
    p = rindex(I_, fn, S("."))
    # p+1 is 0 when there is no dot: the whole name
    ext = upper(I_.sub(fn, add(p, I(1)), sub(length(fn), add(p, I(1)))))
    for exts, typ in MIME:
        for e in exts.split():
            if I_.decide(eqS(ext, S(e))):
                return S(typ)
    return EMPTY


def mime_name(fn):
    """at call sites: the type as a function of the file name"""
    return ufS("mime", [fn], NONUL)


def file_base64(fn):
    """the Base64 text of a file's content; nothing when it cannot be read"""
    f = ufS("file", [fn])
    return ite(ufB("readable", [fn]), ufS("base64", [f], B64SET), EMPTY)


@spec(AT + "::getBase64EncodedFile", ("P17",))
def _(c):
    """the Base64 text of exactly the file's content, in memory the caller must release; null when the file cannot be read"""
    I_ = c.I
    c.this_obj()
    fn = c.get_cstr(c.field(c.this, "mFilename"))
    f = filetext(I_, fn)
    c.body()
    if not I_.decide(ufB("readable", [fn])):
        c.ret_cstr(None, "an unreadable file yields no text")
    else:
        c.ret_cstr(encoded(I_, f, length(f)), "the result is the Base64 text of exactly the file's content", owned=True)


@spec(AT + "::getMimeType", ("P03",))
def _(c):
    c.this_obj()
    fn = c.get_cstr(c.field(c.this, "mFilename"))
    c.body()
    c.ret_cstr(mime(c.I, fn) if c.verify else mime_name(fn))


# ------------------------------------------------------------------ Credential
def bad_user(c, u):
    return TRUE if u is None else blank(c.I, u)


def bad_pass(c, p):
    return TRUE if p is None else eqS(p, EMPTY)


@spec(CR + "::Credential", ("P05", "P06"), [CHARP, CHARP])
def _(c):
    c.this_obj(raw=True)
    u, p = c.arg_cstr(0, True), c.arg_cstr(1, True)
    c.body()
    if c.throws(Or(bad_user(c, u), bad_pass(c, p))):
        return
    c.set_owned(c.field(c.this, "mUsername"), u)
    c.set_owned(c.field(c.this, "mPassword"), p)
    c.set_val(c.field(c.this, "mRecommendedAuthMethod"), I(0))


@spec(CR + "::Credential", ("P05", "P06"), [CHARP, CHARP, "jed_utils::RecommendedAuthenticationMethod"])
def _(c):
    c.this_obj(raw=True)
    u, p = c.arg_cstr(0, True), c.arg_cstr(1, True)
    m = c.arg_int(2)
    c.body()
    if c.throws(Or(bad_user(c, u), bad_pass(c, p))):
        return
    c.set_owned(c.field(c.this, "mUsername"), u)
    c.set_owned(c.field(c.this, "mPassword"), p)
    c.set_val(c.field(c.this, "mRecommendedAuthMethod"), m)


@spec(CR + "::setUsername", ("P05", "P06"))
def _(c):
    c.this_obj()
    u = c.arg_cstr(0, True, alias="mUsername")
    c.body()
    if c.throws(bad_user(c, u)):
        return
    c.set_owned(c.field(c.this, "mUsername"), u)


@spec(CR + "::setPassword", ("P05", "P06"))
def _(c):
    c.this_obj()
    p = c.arg_cstr(0, True, alias="mPassword")
    c.body()
    if c.throws(bad_pass(c, p)):
        return
    c.set_owned(c.field(c.this, "mPassword"), p)


@spec(CR + "::setRecommendedAuthOption", ("P06",))
def _(c):
    c.this_obj()
    m = c.arg_int(0)
    c.body()
    c.set_val(c.field(c.this, "mRecommendedAuthMethod"), m)


# -------------------------------------------------------------- MessageAddress
EMAIL = "^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$"


def email_ok(I_, s):
    return inre(lower(s), define(I_.regexes, EMAIL))


@spec(MA + "::isEmailAddressValid", ("P05",))
def _(c):
    c.this_obj(raw=True)
    s = c.arg_str(0)
    c.body()
    c.ret(email_ok(c.I, s))


@spec(MA + "::MessageAddress", ("P05", "P06"), [CHARP, CHARP])
def _(c):
    c.this_obj(raw=True)
    e, d = c.arg_cstr(0), c.arg_cstr(1)
    c.body()
    if c.throws(Or(blank(c.I, e), Not(email_ok(c.I, e)))):
        return
    c.set_owned(c.field(c.this, "mEmailAddress"), e)
    c.set_owned(c.field(c.this, "mDisplayName"), d)


@spec(MA + "::operator==", ("P06",))
def _(c):
    c.this_obj()
    o = c.arg_obj(0, MA, alias=True)
    e1, d1 = [c.get_cstr(c.field(c.this, f)) for f in ("mEmailAddress", "mDisplayName")]
    e2, d2 = [c.get_cstr(c.field(o, f)) for f in ("mEmailAddress", "mDisplayName")]
    c.body()
    c.ret(And(eqS(e1, e2), eqS(d1, d2)))


def addr_text(email, name):
    """what the string conversion of an address yields"""
    return ite(eqS(name, EMPTY), email, cat(name, " <", email, ">"))


@spec(MA + "::operator basic_string", ("P06", "P16"))
def _(c):
    c.this_obj()
    e, d = [c.get_cstr(c.field(c.this, f)) for f in ("mEmailAddress", "mDisplayName")]
    c.body()
    c.ret(addr_text(e, d))


# --------------------------------------------------------------- ErrorResolver
ERRORS = {
    538: 'Encryption required for requested authentication mechanism',
    535: 'Authentication credentials invalid',
    534: 'Authentication mechanism is too weak',
    530: 'Authentication required',
    334: 'Token based authentication failed. See https://support.google.com/mail/thread/204884242/334-authentication-unsuccessful?hl=en',
    -1: 'Unable to create the socket',
    -2: 'Unable to connect to the socket',
    -3: 'The connection attempt has timed out',
    -4: 'Unable to start WSA (Winsock)',
    -5: 'Unable to get address info (Winsock)',
    -6: 'Unable to get host by name',
    -7: 'Unable to get socket file descriptor status flags',
    -8: 'Unable to set socket file descriptor status flags',
    -9: 'Unable to get socket options',
    -10: 'Error in delayed connection',
    -20: 'Unable to send the EHLO command',
    -21: 'The EHLO command has timed out',
    -30: 'Unable to send the STARTTLS command',
    -31: 'The STARTTLS command has timed out',
    -51: 'Unable to initialize the SSL Context',
    -52: 'Unable to create the SSL BIO',
    -53: 'Unable to open the Windows Certificate System Store',
    -54: 'Unable to open the specifies that the default locations from which CA certificates are loaded',
    -55: 'Unable to connect SSL BIO',
    -56: 'Unable to handshake with SSL BIO',
    -57: 'Unable to get peer certificate',
    -58: 'Unable to verify the result of chain verification',
    -59: 'Unable to EHLO the server via the secure channel',
    -60: 'The EHLO command via the secure channel timed out',
    -81: 'Unable to authenticate with the credentials provided',
    -82: 'The authentication to the server has timed out',
    -83: 'The authentication is not needed on the server',
    -84: 'The authentication method selected is not supported by the server',
    -85: 'The MAIL FROM command return an error',
    -86: 'The MAIL FROM command timed out',
    -87: 'The RCPT TO command return an error',
    -88: 'The RCPT TO command timed out',
    -89: 'The DATA command return an error',
    -90: 'The DATA command timed out',
    -91: 'The From header command return an error',
    -92: 'The To and CC header command return an error',
    -93: 'The Subject header command return an error',
    -94: 'The Content type header command return an error',
    -95: 'The Body part return an error',
    -96: 'The Body command return an error',
    -97: 'The End data command return an error',
    -98: 'The End data command timed out',
    -99: 'The QUIT command return an error',
}


def _errors(I_, code):
    for k, v in sorted(ERRORS.items()):
        if I_.decide(eqI(code, I(k))):
            return S(v)
    return S("No message correspond to this error code")


@spec(ER + "::ErrorResolver", ("P21",), ["int"])
def _(c):
    c.this_obj(raw=True)
    n = c.arg_int(0)
    c.body()
    c.set_val(c.field(c.this, "mErrorCode"), n)
    c.set_owned(c.field(c.this, "mErrorMessage"), _errors(c.I, n))


# ------------------------------------------------------------ class invariants
def not_blank(I_, s):
    return Not(blank(I_, s))


VIEW = {("inv", MA + "::mEmailAddress"): lambda I_, s: And(Not(blank(I_, s)), email_ok(I_, s)),
        ("inv", AT + "::mFilename"): not_blank,
        ("inv", CR + "::mUsername"): not_blank,
        ("inv", CR + "::mPassword"): lambda I_, s: Not(eqS(s, EMPTY)),
        ("inv", J("SMTPClientBase") + "::mServerName"): not_blank}
