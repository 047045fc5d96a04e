"""The fields of HTTP: (name, direction, kind, deprecated), from the specifications and IANA's registry.

direction: q requests, r responses, b both (None: the specifications don't settle it);
kind: s one value, l comma-separated list, f structured field, o other."""

FIELDS = """
Accept b l          ; RFC 9110 12.5.1 (responses: what later requests may send)
Accept-CH r f       ; RFC 8942
Accept-Encoding b l ; RFC 9110 12.5.3 (responses: what later requests may send)
Accept-Language q l ; RFC 9110 12.5.4
Accept-Patch r l    ; RFC 5789
Accept-Post r l     ; Linked Data Platform
Accept-Query r f    ; HTTP QUERY
Accept-Ranges r l   ; RFC 9110 14.3
Access-Control-Allow-Credentials r s ; Fetch
Access-Control-Allow-Headers r l
Access-Control-Allow-Methods r l
Access-Control-Allow-Origin r s
Access-Control-Expose-Headers r l
Access-Control-Max-Age r s
Access-Control-Request-Headers q l
Access-Control-Request-Method q s
Age r s             ; RFC 9111 5.1
Allow r l           ; RFC 9110 10.2.1
Alt-Svc r l         ; RFC 7838
Authentication-Info r l ; RFC 9110 11.6.3
Authorization q s   ; RFC 9110 11.6.2
Available-Dictionary q f ; RFC 9842
Cache-Control b l   ; RFC 9111 5.2
Cache-Group-Invalidation r f ; RFC 9875
Cache-Groups r f    ; RFC 9875
Cache-Status r f    ; RFC 9211
CDN-Cache-Control r f ; RFC 9213
Clear-Site-Data r l
Connection b l      ; RFC 9110 7.6.1
Content-Disposition b s
Content-Encoding b l ; RFC 9110 8.4
Content-Language b l ; RFC 9110 8.5
Content-Length b s  ; RFC 9110 8.6
Content-Location b s ; RFC 9110 8.7 (requests: where the representation was obtained)
Content-Range - s
Content-Security-Policy r l
Content-Security-Policy-Report-Only r l
Content-Transfer-Encoding - s dep
Content-Type b s    ; RFC 9110 8.3
Cookie q o          ; RFC 6265
Cross-Origin-Embedder-Policy r f
Cross-Origin-Embedder-Policy-Report-Only r f
Cross-Origin-Opener-Policy r f
Cross-Origin-Opener-Policy-Report-Only r f
Cross-Origin-Resource-Policy r s
Date b s            ; RFC 9110 6.6.1
Deprecation r f     ; RFC 9745
ETag - s
Expect q l          ; RFC 9110 10.1.1
Expires r s         ; RFC 9111 5.3
From q s            ; RFC 9110 10.1.2
Host q s            ; RFC 9110 7.2
If-Match q l        ; RFC 9110 13.1
If-Modified-Since q s
If-None-Match q l
If-Range q s
If-Unmodified-Since q s
Keep-Alive b l dep
Last-Modified r s   ; RFC 9110 8.8.2
Link b l            ; RFC 8288
Location r s        ; RFC 9110 10.2.2
Max-Forwards q s    ; RFC 9110 7.6.2
MIME-Version b s dep
NEL r o
Origin q s          ; RFC 6454
P3P r s dep
Permissions-Policy r f
Pragma q l dep      ; RFC 9111 5.4
Proxy-Authenticate r l ; RFC 9110 11.7
Proxy-Authentication-Info r l
Proxy-Authorization q s
Proxy-Status r f    ; RFC 9209
Range q s           ; RFC 9110 14.2
Referer q s         ; RFC 9110 10.1.3
Referrer-Policy r l
Report-To r o dep
Reporting-Endpoints r f
Retry-After r s     ; RFC 9110 10.2.3
Server r l          ; RFC 9110 10.2.4
Server-Timing r l
Set-Cookie r o      ; RFC 6265
Set-Cookie2 r l dep
SoapAction q s
Speculation-Rules r f
Strict-Transport-Security r s ; RFC 6797
Sunset r s          ; RFC 8594
TCN r l
TE q l              ; RFC 9110 10.1.4
Trailer b l         ; RFC 9110 6.6.2
Transfer-Encoding b l ; RFC 9112 6.1
Upgrade b l         ; RFC 9110 7.8
Use-As-Dictionary r f ; RFC 9842
User-Agent q s      ; RFC 9110 10.1.5
Vary r l            ; RFC 9110 12.5.5
Via b l             ; RFC 9110 7.6.3
Warning - l dep
WWW-Authenticate r l ; RFC 9110 11.6.1
X-Cache r l
X-Cache-Lookup r l
X-Content-Type-Options r l
X-Frame-Options r s ; RFC 7034
"""

# IANA: "deprecated" and "obsoleted", without fields of their own above
DEPRECATED = """
Accept-CH-Lifetime Accept-Charset C-PEP-Info Protocol-Info Protocol-Query Access-Control C-Ext C-Man C-Opt C-PEP
Content-Base Content-DPR Content-ID Content-MD5 Content-Script-Type Content-Style-Type Content-Version Cookie2
Default-Style Derived-From DNT Differential-ID Digest DPR Expect-CT Ext Feature-Policy GetProfile HTTP2-Settings Man
Method-Check Method-Check-Expires Opt PEP Pep-Info PICS-Label ProfileObject Protocol Protocol-Request Proxy-Features
Proxy-Instruction Public Public-Key-Pins Public-Key-Pins-Report-Only Referer-Root Safe Security-Scheme SetProfile URI
Viewport-Width Want-Digest Width X-Content-Security-Policy X-Webkit-CSP
""".split()

UNNECESSARY = """
X-AspNet-Version X-AspNetMvc-Version X-Powered-By X-Generator X-Drupal-Cache X-Varnish X-Mod-Pagespeed X-Pingback
X-Runtime X-Rack-Cache X-Content-Encoded-By X-Backend-Server
""".split()

# names that broken software sends, and the note their readers get
ALIASES = {
    "x-pad-for-netscrape-bug": "X-Pad", "xx-pad": "X-Pad", "x-browseralignment": "X-Pad", "x-pad": "X-Pad",
}
MISSPELLED = ["nncoection", "cneonction", "yyyyyyyyyy", "xxxxxxxxxx", "x-cnection", "-onnection"]


class Field:
    def __init__(self, name, way, kind, dep):
        self.name, self.way, self.kind, self.dep = name, way, kind, dep
        self.low = name.lower()

    def side(self, want=None):
        """A direction the field has meaning in."""
        return "request" if self.way == "q" else "response"


def fields():
    out = []
    for line in FIELDS.strip().split("\n"):
        w = line.split(";")[0].split()
        out.append(Field(w[0], None if w[1] == "-" else w[1], w[2], "dep" in w[3:]))
    return out
