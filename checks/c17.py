"""C17: what cannot be loaded is an error, what can is read as it is.

Every way a local file or an HTTP(S) server on the loopback interface can
answer (status codes, redirects, encodings, every cut of the answer at every
byte, refused and reset connections, untrusted certificates) with every way
pykickstart reads something: the content is taken exactly as it is on the disk
or in the answer, or there is a KickstartError and nothing has changed.
"""
import contextlib
import gzip
import io
import itertools
import os
import shutil
import socket
import ssl
import struct
import sys
import threading
import time
import warnings

for _k in list(os.environ):
    if _k.lower().endswith("_proxy") or _k in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"):
        del os.environ[_k]
os.environ["no_proxy"] = os.environ["NO_PROXY"] = "*"

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, tool                                 # noqa: E402
from mc.core import VERIF, canon_handler, fresh, quiet_stderr     # noqa: E402
from pykickstart import load, parser as kp, version as kv         # noqa: E402
from pykickstart.errors import KickstartError             # noqa: E402
from tools import ksflatten, ksvalidator                  # noqa: E402

PROP = "C17"
socket.setdefaulttimeout(30)

CONTENTS = {
    "plain": b"lang en_US\nskipx\n%pre\necho\n%end\n",
    "nonl": b"lang en_US\nskipx",
    "crlf": b"lang en_US\r\nskipx\r\n%pre\r\necho\r\n%end\r\n",
    "cr": b"lang en_US\rskipx\r",
    "empty": b"",
    "blank": b"\n\n",
    "utf8": "rootpw --plaintext h\u00e9\u20ac\n%pre\n# \U0001f600 \u00df\n%end\n# \u2028 \x0c \x0b \u0085 x\nskipx\n".encode("utf-8"),
    "version": b"#version=F20\nlang en_US\n",
    "wrong": b"lang en_US\nnosuchcommand\n",
    "latin": b"rootpw --plaintext h\xe9\n",
    "cut8": "lang en_US\n# \u20ac".encode("utf-8")[:-1],
}
BAD8 = ("latin", "cut8")


class Server(object):
    """Answers every request for /N with the N-th prepared bytes, verbatim."""

    def __init__(self, tls=False):
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.ctx = None
        if tls:
            self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.ctx.load_cert_chain(os.path.join(VERIF, "spec", "tls", "cert.pem"), os.path.join(VERIF, "spec", "tls", "key.pem"))
        self.answers = {}
        t = threading.Thread(target=self.run)
        t.daemon = True
        t.start()

    def run(self):
        while True:
            try:
                c, _a = self.sock.accept()
            except OSError:
                return
            try:
                c.settimeout(20)
                if self.ctx:
                    c = self.ctx.wrap_socket(c, server_side=True)
                req = b""
                while b"\r\n\r\n" not in req:
                    d = c.recv(65536)
                    if not d:
                        break
                    req += d
                    if req[:1] == b"\x16":
                        # somebody speaks TLS
                        req = b"GET /400 x\r\n\r\n"
                path = req.split(b" ")[1].decode("latin1") if req.count(b" ") > 1 else ""
                data, how = self.answers.get(path, (b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", "close"))
                if data:
                    c.sendall(data)
                if how == "reset":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except (OSError, ValueError):
                pass
            finally:
                c.close()

    def close(self):
        self.sock.close()


def answer(body, status="200 OK", headers=(), length=None):
    h = ["HTTP/1.1 " + status, "Connection: close"] + list(headers)
    if length is not False:
        h.append("Content-Length: %d" % (len(body) if length is None else length))
    return ("\r\n".join(h) + "\r\n\r\n").encode("latin1") + body


def chunked(body, size=7):
    out = b""
    for i in range(0, len(body), size):
        out += b"%x\r\n" % len(body[i:i + size]) + body[i:i + size] + b"\r\n"
    return out + b"0\r\n\r\n"


# ------------------------------------------------- the ways to read something
def guard(fn):
    """("ok", result), ("KickstartError", message) or ("other", ...)"""
    with warnings.catch_warnings(), quiet_stderr():
        warnings.simplefilter("ignore")
        try:
            return ("ok", fn())
        except KickstartError as e:
            return ("KickstartError", str(e), getattr(e, "lineno", None))
        except Exception as e:      # pylint: disable=broad-except
            return ("other", "%s: %s" % (type(e).__name__, e))


def conf(h):
    return canon_handler(h), [s.lineno for s in h.scripts]


def read_parser(loc, sc):
    h = fresh("F34")
    r = guard(lambda: kp.KickstartParser(h).readKickstart(loc))
    return r[0], conf(h)


def read_include(loc, sc, **kw):
    h = fresh("F34")
    r = guard(lambda: kp.KickstartParser(h, **kw).readKickstartFromString("zerombr\n%%include %s\nfirstboot --disable\n" % loc))
    return r[0], conf(h)


def read_include_skip(loc, sc):
    return read_include(loc, sc, missingIncludeIsFatal=False)


def read_include_section(loc, sc):
    h = fresh("F34")
    r = guard(lambda: kp.KickstartParser(h).readKickstartFromString("%%post\na\n%%include %s\nb\n%%end\n" % loc))
    return r[0], conf(h)


def read_str(loc, sc):
    return guard(lambda: load.load_to_str(loc))


def read_file(loc, sc):
    """a new file"""
    dst = os.path.join(sc.work, "new")
    r = guard(lambda: load.load_to_file(loc, dst) == dst)
    data = None
    if os.path.exists(dst):
        with open(dst, "rb") as f:
            data = f.read()
        os.remove(dst)
    return r[:2] + (data,) if r[0] == "ok" else (r[0], data)


def read_over(loc, sc):
    """an existing one"""
    dst = os.path.join(sc.work, "old")
    with open(dst, "wb") as f:
        f.write(b"old\n" * 5000)
    r = guard(lambda: load.load_to_file(loc, dst) == dst)
    with open(dst, "rb") as f:
        data = f.read()
    return r[:2] + (data,) if r[0] == "ok" else (r[0], data == b"old\n" * 5000)


def append(fn):
    def f(loc, sc):
        def go():
            r = fn("skipx\n%%ksappend %s\nzerombr\n" % loc, sc)
            return r
        r = guard(go)
        return r[:2] if r[0] == "ok" else (r[0],) + r[2:]
    f.__name__ = "append_" + fn.__name__
    return f


def _file(name):
    if name is None:
        return None
    with open(name, "rb") as f:
        data = f.read()
    os.remove(name)
    return data


def str2str(s, sc):
    return kp.preprocessFromStringToString(s)


def str2file(s, sc):
    return _file(kp.preprocessFromString(s))


def file2str(s, sc):
    sc.write("in.ks", s)
    return kp.preprocessKickstartToString(os.path.join(sc.work, "in.ks"))


def file2file(s, sc):
    sc.write("in.ks", s)
    return _file(kp.preprocessKickstart(os.path.join(sc.work, "in.ks")))


def pre_string(loc, sc):
    r = guard(lambda: kp.preprocessKickstartToString(loc))
    return r[:2] if r[0] == "ok" else r[:1]


def pre_file(loc, sc):
    r = guard(lambda: _file(kp.preprocessKickstart(loc)))
    return r[:2] if r[0] == "ok" else r[:1]


def version(loc, sc):
    r = guard(lambda: kv.versionFromFile(loc))
    return r[:2] if r[0] == "ok" else r[:1]


def validator(loc, sc):
    with contextlib.redirect_stdout(io.StringIO()):
        r = guard(lambda: ksvalidator.main([loc]))
    return (r[0], r[1][0], bool(r[1][1])) if r[0] == "ok" else r


def flattener(loc, sc):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = guard(lambda: ksflatten.main(["-c", loc]))
    return (r[0], r[1][0], bool(r[1][1]), out.getvalue()) if r[0] == "ok" else r


READERS = [read_str, read_file, read_over, read_parser, read_include, read_include_skip, read_include_section, append(str2str), append(str2file), append(file2str), append(file2file),
           pre_string, pre_file, version, validator, flattener]


def expect_missing(reader, sc):
    """What has to come of a location that cannot be loaded."""
    n = reader.__name__
    if n in ("read_str",):
        return lambda r: r[0] == "KickstartError" and r[1]
    if n == "read_file":
        return lambda r: r[0] == "KickstartError" and r[1] is None
    if n == "read_over":
        return lambda r: r[0] == "KickstartError" and r[1] is True
    if n.startswith("append_"):
        return lambda r: r[0] == "KickstartError" and r[1] == 2
    if n in ("validator", "flattener"):
        return lambda r: r[0] == "ok" and r[1] == 1 and r[2] is True and (n == "validator" or not r[3])
    h = fresh("F34")
    if n in ("read_include", "read_include_skip", "read_include_section"):
        full = n == "read_include_skip"
        if n != "read_include_section":
            kp.KickstartParser(h).readKickstartFromString("zerombr\n" + ("firstboot --disable\n" if full else ""))
        want = conf(h)
        return lambda r: r[0] == ("ok" if full else "KickstartError") and r[1] == want
    if n == "read_parser":
        want = conf(h)
        return lambda r: r[0] == "KickstartError" and r[1] == want
    return lambda r: r[0] == "KickstartError"


def oracle(reader, data, sc):
    """What has to come of a location with this content: what the reader makes
    of the same bytes on disk, and for the simple ones the bytes themselves."""
    n = reader.__name__
    path = os.path.join(sc.work, "local")
    with open(path, "wb") as f:
        f.write(data)
    r = reader(path, sc)
    os.remove(path)
    if n == "read_str":
        return ("ok", data.decode("utf-8"))
    if n in ("read_file", "read_over"):
        return ("ok", True, data)
    if n == "append_str2str":
        return ("ok", b"skipx\n" + data + (b"\n" if data and not data.endswith(b"\n") else b"") + b"zerombr\n")
    if n == "pre_string":
        return ("ok", data if data else r[1])
    return r


def judge(what, loc, data, sc, st, cache, readers=READERS):
    """data: what is there, or None if it cannot be loaded, or "any" """
    for reader in readers:
        st.count("evaluations")
        got = reader(loc, sc)
        n = reader.__name__
        if data is None:
            good = expect_missing(reader, sc)(got)
            want = "an error"
        elif data == "any":
            good, want = got[0] in ("ok", "KickstartError"), "no crash"
        else:
            k = (n, data)
            if k not in cache:
                cache[k] = oracle(reader, data, sc)
            want = cache[k]
            good = got == want
        if os.listdir(sc.tmp):
            good, want = False, "nothing left behind: %s" % os.listdir(sc.tmp)
            for f in os.listdir(sc.tmp):
                p = os.path.join(sc.tmp, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        st.outcome(what, n)
        if not good:
            st.violation("%s:%s" % (what, n), "%s of %s gives %.600r, expected %.600r" % (n, what, got, want), {"what": what, "reader": n})


def answers(quick):
    """(name, bytes sent, how the connection ends, what it means)"""
    for n, b in sorted(CONTENTS.items()):
        none = None if n in BAD8 else b
        yield "200 " + n, answer(b), "close", none
        yield "200 chunked " + n, answer(chunked(b), headers=["Transfer-Encoding: chunked"], length=False), "close", none
        yield "200 until close " + n, answer(b, length=False), "close", none
        for t in ("text/plain", "application/octet-stream", "text/html", "text/plain; charset=utf-8", "text/plain; charset=\"UTF-8\"", "application/json", "text/plain;", "bogus"):
            yield "200 %s %s" % (t, n), answer(b, headers=["Content-Type: " + t]), "close", none
        yield "200 gzip " + n, answer(gzip.compress(b), headers=["Content-Encoding: gzip"]), "close", none
        if n not in BAD8:
            try:
                yield "200 latin1 " + n, answer(b.decode("utf-8").encode("iso-8859-1"), headers=["Content-Type: text/plain; charset=iso-8859-1"]), "close", b
            except UnicodeEncodeError:
                pass
            yield "200 utf-16 " + n, answer(b.decode("utf-8").encode("utf-16"), headers=["Content-Type: text/plain; charset=utf-16"]), "close", b
    b = CONTENTS["plain"]
    yield "200 latin as latin1", answer(CONTENTS["latin"], headers=["Content-Type: text/plain; charset=ISO-8859-1"]), "close", CONTENTS["latin"].decode("latin1").encode("utf-8")
    yield "200 bogus charset", answer(b, headers=["Content-Type: text/plain; charset=bogus"]), "close", "any"
    yield "200 empty charset", answer(b, headers=["Content-Type: text/plain; charset="]), "close", "any"
    for s in (201, 202, 203, 204, 205, 206, 300, 304, 305, 400, 401, 403, 404, 405, 407, 408, 410, 418, 429, 451, 500, 501, 502, 503, 504, 505, 599, 999):
        yield "status %d" % s, answer(b"" if s in (204, 205, 304) else b, "%d Something" % s), "close", None
    for s in (301, 302, 303, 307, 308):
        yield "status %d without location" % s, answer(b, "%d Moved" % s), "close", None
    yield "no answer", b"", "close", None
    yield "no answer, reset", b"", "reset", None
    yield "garbage", b"\x00\x01garbage\r\n\r\n", "close", None
    yield "garbage status", b"HTTP/1.1 abc\r\n\r\n", "close", None
    yield "bad chunk", answer(b"zz\r\nxx\r\n", headers=["Transfer-Encoding: chunked"], length=False), "close", None
    yield "bad gzip", answer(b"not gzip", headers=["Content-Encoding: gzip"]), "close", None
    yield "cut gzip", answer(gzip.compress(b)[:-12], headers=["Content-Encoding: gzip"]), "close", "any"


def cuts():
    """Every answer cut at every byte."""
    b = CONTENTS["plain"]
    full = answer(b, headers=["Content-Type: text/plain"])
    head = full.index(b"\r\n\r\n") + 4
    ch = answer(chunked(b), headers=["Transfer-Encoding: chunked"], length=False)
    chead = ch.index(b"\r\n\r\n") + 4
    for how in ("close", "reset"):
        for i in range(head, len(full)):
            yield "cut body %d %s" % (i - head, how), full[:i], how, None
        for i in range(chead, len(ch) - 5):
            yield "cut chunk %d %s" % (i - chead, how), ch[:i], how, None
    for i in range(1, head):
        # a cut status line or header may still make sense
        yield "cut header %d" % i, full[:i], "close", "any"


def serve(items, sc, st, readers=READERS):
    srv = Server()
    cache = {}
    try:
        for i, (name, data, how, means) in enumerate(items):
            srv.answers["/%d" % i] = (data, how)
            judge(name, "http://127.0.0.1:%d/%d" % (srv.port, i), means, sc, st, cache, readers)
        st.sample({"answer": name})
    finally:
        srv.close()


def redirects(sc, st):
    srv = Server()
    cache = {}
    b = CONTENTS["plain"]
    base = "http://127.0.0.1:%d" % srv.port
    try:
        srv.answers["/good"] = (answer(b), "close")
        for s in (301, 302, 303, 307, 308):
            srv.answers["/r%d" % s] = (answer(b"moved", "%d Moved" % s, ["Location: /good"]), "close")
            judge("redirect %d" % s, base + "/r%d" % s, b, sc, st, cache)
            srv.answers["/a%d" % s] = (answer(b"moved", "%d Moved" % s, ["Location: %s/r%d" % (base, s)]), "close")
            judge("redirect %d twice" % s, base + "/a%d" % s, b, sc, st, cache)
            srv.answers["/n%d" % s] = (answer(b"moved", "%d Moved" % s, ["Location: /nowhere"]), "close")
            judge("redirect %d to nowhere" % s, base + "/n%d" % s, None, sc, st, cache)
            srv.answers["/l%d" % s] = (answer(b"moved", "%d Moved" % s, ["Location: /l%d" % s]), "close")
            judge("redirect %d to itself" % s, base + "/l%d" % s, None, sc, st, cache, READERS[:5])
            srv.answers["/f%d" % s] = (answer(b"moved", "%d Moved" % s, ["Location: file:///etc/hostname"]), "close")
            judge("redirect %d to a local file" % s, base + "/f%d" % s, None, sc, st, cache)
        # names with queries and fragments
        srv.answers["/k?a=b&c=%20"] = (answer(b), "close")
        judge("query", base + "/k?a=b&c=%20", b, sc, st, cache)
    finally:
        srv.close()


def https(sc, st):
    srv = Server(tls=True)
    cache = {}
    b = CONTENTS["plain"]
    srv.answers["/good"] = (answer(b), "close")
    plain = Server()
    plain.answers["/good"] = (answer(b), "close")
    plain.answers["/r"] = (answer(b"moved", "302 Moved", ["Location: https://127.0.0.1:%d/good" % srv.port]), "close")
    try:
        judge("untrusted certificate", "https://127.0.0.1:%d/good" % srv.port, None, sc, st, cache)
        judge("redirect to untrusted certificate", "http://127.0.0.1:%d/r" % plain.port, None, sc, st, cache)
        judge("https from an http server", "https://127.0.0.1:%d/good" % plain.port, None, sc, st, cache)
        judge("http from an https server", "http://127.0.0.1:%d/good" % srv.port, None, sc, st, cache)
        # a certificate that is trusted
        os.environ["REQUESTS_CA_BUNDLE"] = os.path.join(VERIF, "spec", "tls", "cert.pem")
        judge("trusted certificate", "https://127.0.0.1:%d/good" % srv.port, b, sc, st, cache)
        judge("redirect to trusted certificate", "http://127.0.0.1:%d/r" % plain.port, b, sc, st, cache)
    finally:
        os.environ.pop("REQUESTS_CA_BUNDLE", None)
        srv.close()
        plain.close()


def local(sc, st):
    """Everything that can be wrong with a file, or a name."""
    cache = {}
    for n, b in sorted(CONTENTS.items()):
        p = os.path.join(sc.work, "f.ks")
        with open(p, "wb") as f:
            f.write(b)
        if n in BAD8:
            # copying does not look at the content
            judge("file " + n, p, None, sc, st, cache, [r for r in READERS if r.__name__ not in ("read_file", "read_over", "validator")])
            judge("file " + n, p, b, sc, st, cache, [r for r in READERS if r.__name__ in ("read_file", "read_over")])
            r = validator(p, sc)
            if r[0] != "ok" or r[1] != 1 or not r[2]:
                st.violation("file %s:validator" % n, "ksvalidator of %s: %r" % (n, r), {"what": n})
        else:
            judge("file " + n, p, b, sc, st, cache)
            link = os.path.join(sc.work, "link")
            os.symlink(p, link)
            judge("link to file " + n, link, b, sc, st, cache)
            os.remove(link)
        os.remove(p)
    w = sc.work
    os.mkdir(os.path.join(w, "dir"))
    os.symlink("nowhere", os.path.join(w, "dangling"))
    os.symlink("loop", os.path.join(w, "loop"))
    sc.write("x", "skipx\n")
    for what, name in (("missing file", "missing"), ("missing directory", "nodir/x"), ("directory", "dir"), ("dangling link", "dangling"), ("link loop", "loop"),
                       ("file as directory", "x/y"), ("long name", "n" * 300), ("long path", "d/" * 3000 + "x"), ("unicode name", "\u00e9\u20ac")):
        judge(what, os.path.join(w, name), None, sc, st, cache)
        judge(what + ", relative", name, None, sc, st, cache)
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    for what, url in (("refused", "http://127.0.0.1:%d/x" % port), ("refused https", "https://127.0.0.1:%d/x" % port), ("no scheme", "://x"), ("unknown scheme", "nosuch://h/x"), ("ftp", "ftp://127.0.0.1:%d/x" % port),
                      ("file", "file:///etc/hostname"), ("no host", "http://"), ("no host 2", "http:///x"), ("port", "http://127.0.0.1:99999/x"), ("port text", "http://127.0.0.1:x/x"),
                      ("open bracket", "http://[/x"), ("open bracket 2", "http://[::1/x"), ("odd host", "http://.x/"), ("odd host 2", "http://*:0/"), ("long label", "http://%s/x" % ("a" * 70)), ("port 0", "http://127.0.0.1:0/"),
                      ("nfs", "nfs://h/x"), ("hd", "hd://sda1/x"), ("percent", "http://%zz/"), ("user", "http://a:b@127.0.0.1:%d/" % port), ("backslash", "http://a\\b/"), ("unicode host", "http://\u00e9\u00e9..x/")):
        judge(what, url, None, sc, st, cache)
    s.close()
    # destinations that cannot be written
    srv = Server()
    srv.answers["/good"] = (answer(CONTENTS["plain"]), "close")
    for dst in (os.path.join(w, "dir"), os.path.join(w, "nodir", "x"), os.path.join(w, "x", "y"), "", os.path.join(w, "n" * 300), "/dev/full"):
        for src in (os.path.join(w, "x"), "http://127.0.0.1:%d/good" % srv.port):
            st.count("evaluations")
            r = guard(lambda: load.load_to_file(src, dst))      # pylint: disable=cell-var-from-loop
            if r[0] != "KickstartError":
                st.violation("destination %s %s" % (dst[-10:], src[:4]), "load_to_file(%r, %r): %r" % (src, dst, r), {"src": src[:4], "dst": dst})
    x = os.path.join(w, "x")
    r = guard(lambda: load.load_to_file(x, x))
    with open(x) as f:
        if r[0] == "other" or f.read() != "skipx\n":
            st.violation("onto itself", "load_to_file onto itself: %r" % (r,), {})
    srv.close()


def body(item, st):
    with tool.Scratch() as sc:
        if item[0] == "answers":
            serve(list(answers(True))[item[1]::item[2]], sc, st)
        elif item[0] == "cuts":
            serve(list(cuts())[item[1]::item[2]], sc, st, READERS if item[3] else [r for r in READERS if r.__name__ in ("read_str", "read_over", "read_include_skip", "append_file2file")])
        elif item[0] == "redirects":
            redirects(sc, st)
        elif item[0] == "https":
            https(sc, st)
        else:
            local(sc, st)


def main():
    t0 = time.time()
    tier = core.tier()
    quick = tier == "quick"
    items = [("local",), ("redirects",), ("https",)]
    items += [("answers", i, 12) for i in range(12)]
    items += [("cuts", i, 12, not quick) for i in range(12)]
    st = core.pmap(body, items)
    core.finish(PROP, st, "fault_enumeration", tier, t0, {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.outcomes), "exhaustive": True,
        "rule": "all server answers of the catalogue and all cuts of an answer, all kinds of local files, with all 16 ways to read; non-trivial: distinct answers and readers",
        "samples": st.samples}, assumptions=["a host that does not answer at all is not tried (there is no time limit)"])


if __name__ == "__main__":
    main()
