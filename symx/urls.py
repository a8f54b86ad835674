"""urllib.parse and shlex.quote for symbolic strings (same rules as the library)."""

import urllib.parse as _p

from . import values, strings
from .values import ctx, SymStr
from .strings import decode, Rope, Atom, rope


def is_text(x):
    return isinstance(x, (str, SymStr))


class _Net:
    """username, password, hostname and port, as in urllib.parse."""

    @property
    def _userinfo(self):
        userinfo, at, _ = self.netloc.rpartition("@")
        if not at:
            return None, None
        user, colon, password = userinfo.partition(":")
        return user, (password if colon else None)

    @property
    def _hostinfo(self):
        hostinfo = self.netloc.rpartition("@")[2]
        _, br, bracketed = hostinfo.partition("[")
        if br:
            host, _, port = bracketed.partition("]")
            port = port.partition(":")[2]
        else:
            host, _, port = hostinfo.partition(":")
        return host, (port if bool(port) else None)

    @property
    def username(self):
        return self._userinfo[0]

    @property
    def password(self):
        return self._userinfo[1]

    @property
    def hostname(self):
        host = self._hostinfo[0]
        if not bool(host):
            return None
        host, pct, zone = host.partition("%")
        return host.lower() + pct + zone

    @property
    def port(self):
        port = self._hostinfo[1]
        if port is None:
            return None
        if isinstance(port, str):
            if not (port.isdigit() and port.isascii()):
                raise ValueError("Port could not be cast to integer value as %r" % port)
            n = int(port)
            if n > 65535:
                raise ValueError("Port out of range 0-65535")
            return n
        if not bool(port.isdigit()):
            raise ValueError("Port could not be cast to integer value")
        ctx().cut("the number of a symbolic port")

    def geturl(self):
        return unparse(self)


class Parsed(_Net, _p._ParseResultBase):
    __slots__ = ()


class Split(_Net, _p._SplitResultBase):
    __slots__ = ()


def split(url, scheme="", allow_fragments=True):
    url = decode(url)
    if isinstance(url, str):
        return _p.urlsplit(url, scheme, allow_fragments)
    a, colon, rest = url.partition(":")
    if colon:
        if isinstance(a, str):
            if a and a[0].isascii() and a[0].isalpha() and all(ch in _p.scheme_chars for ch in a):
                scheme, url = a.lower(), rest
        else:
            ctx().cut("a symbolic URL scheme")
    netloc = query = fragment = ""
    url = decode(url)
    if bool(url.startswith("//")):
        url = decode(url[2:])
        netloc, tail = url, ""
        for d in "/?#":
            a, s, b = netloc.partition(d)
            netloc, tail = a, s + b + tail
        if ("[" in netloc) != ("]" in netloc):
            raise ValueError("Invalid IPv6 URL")
        url = tail
    if allow_fragments:
        url, _, fragment = url.partition("#")
    url, _, query = url.partition("?")
    return Split(scheme, netloc, url, query, fragment)


def parse(url, scheme="", allow_fragments=True):
    url = decode(url)
    if isinstance(url, str):
        return _p.urlparse(url, scheme, allow_fragments)
    s = split(url, scheme, allow_fragments)
    path, params = s.path, ""
    if s.scheme in _p.uses_params:
        head, slash, last = path.rpartition("/")
        a, semi, b = last.partition(";")
        if semi:
            path, params = head + slash + a, b
    return Parsed(s.scheme, s.netloc, path, params, s.query, s.fragment)


def unparse(parts):
    parts = [decode(x) for x in parts]
    if len(parts) == 6:
        scheme, netloc, url, params, query, fragment = parts
        if bool(params):
            url = url + ";" + params
    else:
        scheme, netloc, url, query, fragment = parts
    if bool(netloc):
        if bool(url) and not bool(url.startswith("/")):
            url = "/" + url
        url = "//" + netloc + url
    if scheme:
        url = scheme + ":" + url
    if bool(query):
        url = url + "?" + query
    if bool(fragment):
        url = url + "#" + fragment
    return url


def unquote(s, *a, **k):
    s = decode(s)
    if isinstance(s, str):
        return _p.unquote(s, *a, **k)
    if "%" in s:
        ctx().cut("unquoting a symbolic string")
    return s


class Quoted(Atom):
    """The result of shlex.quote()."""

    __slots__ = ("of",)


def shell_quote(s):
    import shlex

    s = decode(s)
    if isinstance(s, str):
        return shlex.quote(s)
    c = ctx()
    c.general()
    import z3

    q = Quoted("quoted", z3.String(c.fresh("quoted")), "", True)
    q.of = s
    return Rope([q])
