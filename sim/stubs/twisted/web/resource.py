# simulation stub
from twisted.web import server


class Resource(object):
    isLeaf = 0

    def __init__(self):
        self.children = {}

    def render(self, request):
        m = getattr(self, 'render_' + request.method, None)
        if not m:
            raise server.UnsupportedMethod(
                getattr(self, 'allowedMethods', ()))
        return m(request)
