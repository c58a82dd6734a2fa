CL, SV, MS, OB, VS, EV, UT, HK, RS = 'client.py', 'server.py', 'messaging.py', 'objects.py', 'service/vtn_service.py', 'service/event_service.py', 'utils.py', 'hooks.py', 'service/report_service.py'
BUGS = [
    ('class handlers', 'C43', [(VS, "    verify_message_signatures = True\n", "    verify_message_signatures = True\n    handlers = {}\n"), (VS, "        self.handlers = {}\n", "")]),
    ('setting on class', 'C43', [(SV, "            service.verify_message_signatures = verify_message_signatures", "            type(service).verify_message_signatures = verify_message_signatures")]),
    ('setting on VTNService', 'C43', [(SV, "        for service in self.services.values():\n            service.verify_message_signatures = verify_message_signatures", "        VTNService.verify_message_signatures = verify_message_signatures"), (SV, "from openleadr.service import EventService,", "from openleadr.service import VTNService, EventService,")]),
    ('default list', 'C43', [(UT, "def order_events(events, limit=None, offset=None):", "def order_events(events=[], limit=None, offset=None, log=[]):"), (UT, "    if events is None:\n        return None\n    if isinstance(events, objects", "    log.append(events)\n    if events is None:\n        return None\n    if isinstance(events, objects")]),
    ('default dict kept', 'C43', [(VS, "    def __init__(self, vtn_id):\n        self.vtn_id = vtn_id\n        self.handlers = {}", "    def __init__(self, vtn_id, handlers={}):\n        self.vtn_id = vtn_id\n        self.handlers = handlers")]),
    ('now once', 'C43', [(OB, "    created_date_time: datetime = None\n    modification_date_time", "    created_date_time: datetime = datetime.now(timezone.utc)\n    modification_date_time")]),
    ('now default', 'C43', [(UT, "def determine_event_status(active_period):", "def determine_event_status(active_period, now=datetime.now(timezone.utc)):")]),
    ('global dict kept', 'C43', [(CL, "        self.reports = []", "        self.reports = REPORTS"), (CL, "logger = logging.getLogger('openleadr')\n", "logger = logging.getLogger('openleadr')\nREPORTS = []\n")]),
    ('map changed', 'C43', [(SV, "        self.app = web.Application()\n", "        self.app = web.Application()\n        OpenADRServer._MAP['on_custom'] = vtn_id\n")]),
    ('signer passphrase', 'C43', [(MS, "    template = TEMPLATES.get_template(f'{message_type}.xml')", "    TEMPLATES.globals['payload'] = message_payload\n    template = TEMPLATES.get_template(f'{message_type}.xml')")]),
    ('cache status', 'C43', [(UT, "def determine_event_status(active_period):", "@lru_cache(maxsize=None)\ndef determine_event_status(active_period):"), (UT, "import re\n", "import re\nfrom functools import lru_cache\n")]),
    ('cache dict', 'C43', [(UT, "def ungroup_targets_by_type(targets_by_type):", "@lru_cache(maxsize=None)\ndef ungroup_targets_by_type(targets_by_type):"), (UT, "import re\n", "import re\nfrom functools import lru_cache\n")]),
    ('global counter', 'C43', [(CL, "logger = logging.getLogger('openleadr')\n", "logger = logging.getLogger('openleadr')\nLAST = {}\n"), (CL, "        self.ven_name = ven_name\n", "        self.ven_name = ven_name\n        LAST['ven'] = ven_name\n")]),
    ('through helper', 'C43', [(CL, "logger = logging.getLogger('openleadr')\n", "logger = logging.getLogger('openleadr')\nLAST = {}\n\n\ndef _note(where, what):\n    where['x'] = what\n\n\n"), (CL, "        self.ven_name = ven_name\n", "        self.ven_name = ven_name\n        _note(LAST, ven_name)\n")]),
    ('alias', 'C43', [(MS, "    message_dict = xmltodict.parse(data, process_namespaces=True, namespaces=NAMESPACES)", "    known = NAMESPACES\n    known[str(len(data))] = None\n    message_dict = xmltodict.parse(data, process_namespaces=True, namespaces=known)")]),
    ('global stmt', 'C43', [(MS, "    template = TEMPLATES.get_template(f'{message_type}.xml')", "    global SIGNER\n    SIGNER = SIGNER if cert is None else XMLSigner(method=methods.detached)\n    template = TEMPLATES.get_template(f'{message_type}.xml')")]),
]
SAME = [
    ('local copy', 'C43', [(MS, "    message_dict = xmltodict.parse(data, process_namespaces=True, namespaces=NAMESPACES)", "    known = dict(NAMESPACES)\n    known['x'] = None\n    message_dict = xmltodict.parse(data, process_namespaces=True, namespaces=known)")]),
    ('default not changed', 'C43', [(UT, "def order_events(events, limit=None, offset=None):", "def order_events(events=(), limit=None, offset=None, skip=[]):")]),
    ('class default', 'C43', [(CL, "class OpenADRClient:\n", "class OpenADRClient:\n    reports = []\n")]),
    ('const table', 'C43', [(UT, "def determine_event_status(active_period):", "STATUSES = {'a': 1}\n\n\ndef determine_event_status(active_period):")]),
    ('cache pure', 'C43', [(UT, "def ensure_bytes(obj):", "@lru_cache(maxsize=None)\ndef ensure_bytes(obj):"), (UT, "import re\n", "import re\nfrom functools import lru_cache\n")]),
    ('rename nonces', 'C43', [(MS, "NONCE_CACHE", "SEEN_NONCES")] * 5),
]
