# Stub of google.appengine.ext.webapp (Python 2.5 runtime)
import StringIO


class Headers(dict):
    """case insensitive like wsgiref.headers.Headers"""

    def __setitem__(self, k, v):
        for o in list(self):
            if o.lower() == k.lower():
                dict.__delitem__(self, o)
        dict.__setitem__(self, k, v)


class Request(object):
    def __init__(self, method, body, headers):
        self.method = method
        self._body = body
        self.headers = headers

    @property
    def body(self):
        if isinstance(self._body, Exception):
            raise self._body
        return self._body


class Response(object):
    def __init__(self):
        self.headers = Headers()
        self.headers['Content-Type'] = 'text/html; charset=utf-8'
        self.headers['Cache-Control'] = 'no-cache'
        self.out = StringIO.StringIO()
        self.status = (200, 'OK')

    def set_status(self, code, message=None):
        self.status = (code, message or '')

    def clear(self):
        self.out.seek(0)
        self.out.truncate(0)


class RequestHandler(object):
    def initialize(self, request, response):
        self.request = request
        self.response = response

    def error(self, code):
        self.response.set_status(code)
        self.response.clear()
