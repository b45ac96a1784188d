"""A stand-in for the HTTP library: every request is recorded, every answer has the status and text given."""


class HTTPError(Exception):
    pass


class Asked:
    def __init__(self, url):
        self.url = url


class Response:
    def __init__(self, url, status, text, content):
        self.status_code = status
        self.text = text
        self.content = content
        self.reason = 'reason'
        self.headers = {}
        self.request = Asked(url)
        self.url = url
        self.ok = status < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(self.reason)


class Session:
    def __init__(self, log, status, text, content):
        self.headers = {}
        self.log_, self.status_, self.text_, self.content_ = log, status, text, content

    def get(self, url, params=None, **kwargs):
        self.log_.append((url, params))
        return Response(url, self.status_, self.text_, self.content_)

    def request(self, method, url, params=None, **kwargs):
        return self.get(url, params)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


class Member:
    def __init__(self, lines):
        self.lines = lines

    def readlines(self):
        return list(self.lines)

    def __iter__(self):
        return iter(self.lines)

    def read(self, n=-1):
        return ''.join(self.lines)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


class ZipFile:
    """An archive of one file of the given lines."""

    def __init__(self, lines):
        self.lines = lines

    def infolist(self):
        return ['member']

    def namelist(self):
        return ['member']

    def open(self, name, mode='r'):
        return Member(self.lines)

    def read(self, name):
        return ''.join(self.lines)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None
