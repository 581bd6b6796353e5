"""
The JSON-LD/ActivityStreams side: a closed world in place of the web (every
HTTP request is answered from memory, nothing leaves the process), and helpers
about classes and properties.
"""
import io
import json
import os

import core  # noqa: F401  (paths)

import requests
import requests.adapters
from requests.models import Response
from requests.structures import CaseInsensitiveDict

AS = 'https://www.w3.org/ns/activitystreams'
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'data', 'activitystreams.json')) as f:
    AS_CONTEXT = json.load(f)


class Web:
    """What every URL answers, and which requests were made."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.pages = {}
        self.requests = []          # (url, headers)
        self.add(AS, AS_CONTEXT, ctype='application/ld+json')

    def add(self, url, body, status=200, ctype='application/activity+json',
            headers=None, redirect=None):
        """body: JSON-able, or bytes, or an exception to raise."""
        self.pages[url] = (body, status, ctype, headers or {}, redirect)

    def urls(self):
        return [u for u, _ in self.requests]

    def send(self, request):
        self.requests.append((request.url, dict(request.headers)))
        url = request.url
        page = self.pages.get(url)
        if page is None and url.endswith('/'):
            page = self.pages.get(url[:-1])
        if page is None:
            page = self.pages.get(url.split('#')[0])
        r = Response()
        r.request = request
        r.url = url
        if page is None:
            raise requests.exceptions.ConnectionError(f'no such host: {url}')
        body, status, ctype, headers, redirect = page
        if isinstance(body, BaseException):
            raise body
        r.status_code = status
        h = dict(headers)
        if ctype is not None:
            h['content-type'] = ctype
        if redirect:
            h['location'] = redirect
            r.status_code = 302
        r.headers = CaseInsensitiveDict(h)
        data = body if isinstance(body, bytes) else json.dumps(body).encode()
        r.raw = io.BytesIO(data)
        r._content = data
        r._content_consumed = True
        r.reason = 'OK'
        r.encoding = 'utf-8'
        return r


WEB = Web()


def _send(self, request, **kwargs):
    return WEB.send(request)


requests.adapters.HTTPAdapter.send = _send


def _remembered():
    """The dictionaries in which the loaders remember what they fetched."""
    from jsonld import docloader
    for owner in [docloader] + [c for c in vars(docloader).values()
                                if isinstance(c, type)
                                and c.__module__ == docloader.__name__]:
        for v in list(vars(owner).values()):
            if isinstance(v, dict):
                yield v
            elif hasattr(v, 'cache_clear'):
                v.cache_clear()


def forget_documents():
    for d in _remembered():
        for url in [k for k in d if str(k).startswith('http')]:
            del d[url]


def remembers(url):
    return any(url in d for d in _remembered())


def fresh_web():
    WEB.reset()
    return WEB
