O = 'objects.py'
BUGS = [
    ('signal type warn', 'C45', [(O, "        if self.signal_type not in enums.SIGNAL_TYPE.values:\n            raise ValueError(", "        if self.signal_type not in enums.SIGNAL_TYPE.values:\n            print(")]),
    ('signal name x', 'C45', [(O, "not self.signal_name.startswith('x-'):", "not self.signal_name.startswith('x'):")]),
    ('signal name type', 'C45', [(O, "        if self.signal_name not in enums.SIGNAL_NAME.values and not", "        if self.signal_name in enums.SIGNAL_TYPE.values and not")]),
    ('opt reason', 'C45', [(O, "        if self.opt_reason not in enums.OPT_REASON.values:", "        if self.opt_type not in enums.OPT_REASON.values and self.opt_reason not in enums.OPT_REASON.values and self.event_id is None:")]),
    ('mrid', 'C45', [(O, "        if self.signal_target_mrid is not None and self.signal_target_mrid not in enums.SIGNAL_TARGET_MRID.values and not self.signal_target_mrid.startswith('x-'):", "        if self.signal_target_mrid is not None and self.signal_target_mrid in enums.SIGNAL_TARGET_MRID.values and self.signal_target_mrid.startswith('x-'):")]),
    ('both', 'C45', [(O, "        if self.event_id is not None and self.vavailability is not None:", "        if self.event_id is not None and self.vavailability is not None and not self.targets:")]),
    ('neither', 'C45', [(O, "        if self.event_id is None and self.vavailability is None:", "        if self.event_id is None and self.vavailability is None and self.targets is None:")]),
    ('descriptor modified', 'C45', [(O, "            self.modification_date_time = datetime.now(timezone.utc)", "            self.modification_date_time = self.created_date_time")]),
    ('descriptor naive', 'C45', [(O, "            self.modification_date_time = datetime.now(timezone.utc)\n        if self.created_date_time is None:\n            self.created_date_time = datetime.now(timezone.utc)", "            self.modification_date_time = datetime.now(timezone.utc)\n        if self.created_date_time is None:\n            self.created_date_time = datetime.now()")]),
    ('descriptor number', 'C45', [(O, "        if self.modification_number is None:\n            self.modification_number = 0\n\n\n@dataclass\nclass ActivePeriod", "        if not self.modification_number:\n            self.modification_number = 1\n\n\n@dataclass\nclass ActivePeriod")]),
    ('descriptor created always', 'C45', [(O, "        if self.created_date_time is None:\n            self.created_date_time = datetime.now(timezone.utc)\n        if self.modification_number", "        self.created_date_time = datetime.now(timezone.utc)\n        if self.modification_number")]),
    ('report list', 'C45', [(O, "            self.report_descriptions = []", "            self.report_descriptions = _NONE_YET"), (O, "@dataclass\nclass Report:", "_NONE_YET = []\n\n\n@dataclass\nclass Report:")]),
    ('measurement ns first', 'C45', [(O, "        if self.name not in enums._MEASUREMENT_NAMESPACES:\n            self.name = 'customUnit'\n        self.ns = enums._MEASUREMENT_NAMESPACES[self.name]", "        self.ns = enums._MEASUREMENT_NAMESPACES.get(self.name, 'power')\n        if self.name not in enums._MEASUREMENT_NAMESPACES:\n            self.name = 'customUnit'")]),
    ('measurement ns given', 'C45', [(O, "        self.ns = enums._MEASUREMENT_NAMESPACES[self.name]", "        self.ns = self.ns or enums._MEASUREMENT_NAMESPACES[self.name]")]),
]
SAME = [
    ('helper', 'C45', [(O, "        if self.opt_type not in enums.OPT.values:", "        known = self.opt_type in enums.OPT.values\n        if not known:")]),
    ('or default', 'C45', [(O, "        if self.report_descriptions is None:\n            self.report_descriptions = []", "        self.report_descriptions = self.report_descriptions or []")]),
    ('xor', 'C45', [(O, "        if self.event_id is not None and self.vavailability is not None:", "        if not (self.event_id is None or self.vavailability is None):")]),
    ('function', 'C45', [(O, "@dataclass\nclass EventDescriptor:", "def _now():\n    return datetime.now(timezone.utc)\n\n\n@dataclass\nclass EventDescriptor:"), (O, "            self.modification_date_time = datetime.now(timezone.utc)", "            self.modification_date_time = _now()")]),
    ('measurement if', 'C45', [(O, "        if self.name not in enums._MEASUREMENT_NAMESPACES:\n            self.name = 'customUnit'\n", "        self.name = self.name if self.name in enums._MEASUREMENT_NAMESPACES else 'customUnit'\n")]),
]
