"""The web as the code under test sees it: a stand-in for every host, whatever the URL."""
import contextlib, email.message, http.client, io, urllib.request, urllib.response


class _Memory(urllib.request.HTTPHandler, urllib.request.HTTPSHandler):
    def __init__(self, answer):
        urllib.request.HTTPHandler.__init__(self)
        self.answer = answer

    def _open(self, req):
        body = self.answer(req.full_url)
        h = email.message.Message()
        h["Content-Length"] = str(len(body))
        r = urllib.response.addinfourl(io.BytesIO(body), h, req.full_url, 200)
        r.msg = "OK"
        return r
    http_open = https_open = _open


class _Loopback(urllib.request.HTTPHandler, urllib.request.HTTPSHandler):
    """Every connection goes to this port of the loopback interface, unencrypted."""
    def __init__(self, port):
        urllib.request.HTTPHandler.__init__(self)
        self.port = port

    def _open(self, req):
        return self.do_open(lambda host, **kw: http.client.HTTPConnection("127.0.0.1", self.port, timeout=60), req)
    http_open = https_open = _open
    http_request = https_request = urllib.request.AbstractHTTPHandler.do_request_


@contextlib.contextmanager
def _installed(handler):
    old = urllib.request._opener
    urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({}), handler))
    try:
        yield
    finally:
        urllib.request.install_opener(old)


@contextlib.contextmanager
def pages():
    """Every URL has a page that names it; yields the URLs asked for."""
    asked = []

    def answer(url):
        asked.append(url)
        return content(url)
    with _installed(_Memory(answer)):
        yield asked


def content(url):
    return ("// " + url).encode("utf-8")


def loopback(port):
    return _installed(_Loopback(port))
