# simulation stub
NOT_DONE_YET = 1


class UnsupportedMethod(Exception):
    def __init__(self, allowed):
        Exception.__init__(self, allowed)
        self.allowedMethods = allowed
