"""Stand-ins the demonstrations share: a fake aiohttp request and session; nothing goes over the network."""
import asyncio
import logging
import os
import sys
from datetime import datetime, timedelta, timezone

sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)

import openleadr                                             # noqa: E402
from openleadr import messaging, utils, objects, enums, errors   # noqa: E402
from openleadr.client import OpenADRClient                   # noqa: E402
from openleadr.server import OpenADRServer                   # noqa: E402

UTC = timezone.utc


def run(coro):
    return asyncio.run(asyncio.wait_for(coro, 60))


def check(cond, text):
    if not cond:
        print('BROKEN:', text)
        sys.exit(1)


class Request:
    def __init__(self, content, secure=False, ctype='application/xml'):
        self.headers = {'content-type': ctype}
        self.content = content.encode() if isinstance(content, str) else content
        self.secure = secure
        self.transport = self

    def get_extra_info(self, name):
        return None

    async def read(self):
        return self.content


class Reply:
    def __init__(self, content, status=200):
        self.content, self.status = content.encode() if isinstance(content, str) else content, status

    async def read(self):
        return self.content

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False


class Session:
    """client_session stand-in: replies(url, xml) -> Reply; keeps what was sent"""
    closed = False

    def __init__(self, replies):
        self.replies, self.sent = replies, []

    def post(self, url, data=None, **kw):
        mt, payload = messaging.parse_message(data)
        self.sent.append((url.split('/')[-1], mt, payload))
        r = self.replies(url, mt, payload)
        if isinstance(r, Exception):
            raise r
        return r if isinstance(r, Reply) else Reply(r)

    async def close(self):
        self.closed = True


def client(replies, **kw):
    c = OpenADRClient(ven_name='myven', vtn_url='http://localhost:1/OpenADR2/Simple/2.0b', **kw)
    c.client_session = Session(replies)
    return c


def ok_response(**kw):
    return messaging.create_message('oadrResponse', ven_id='ven1', response={'response_code': 200, 'response_description': 'OK',
                                                                           'request_id': kw.get('request_id', 'r')})


def event(event_id='e1', start=None, duration=timedelta(hours=1), mod=0, required='always', status='far', priority=0, **kw):
    start = start or datetime.now(UTC) + timedelta(hours=1)
    return {'event_descriptor': {'event_id': event_id, 'modification_number': mod, 'market_context': 'http://m', 'priority': priority,
                                 'event_status': status, 'created_date_time': datetime.now(UTC), 'test_event': False, 'vtn_comment': ''},
            'active_period': {'dtstart': start, 'duration': duration},
            'event_signals': [{'signal_id': 's', 'signal_name': 'simple', 'signal_type': 'level',
                               'intervals': [{'dtstart': start, 'duration': duration, 'signal_payload': 1, 'uid': 0}]}],
            'targets': [{'ven_id': 'ven1'}], 'response_required': required, **kw}


def service(server, name):
    return server.services[name + '_service']


async def post(svc, message_type, **payload):
    """Send a message to a service of the VTN; returns (status, type, payload) of the reply."""
    r = await svc.handler(Request(messaging.create_message(message_type, **payload)))
    if r.status != 200 or not r.text:
        return r.status, None, r.text
    return (r.status, *messaging.parse_message(r.text))
