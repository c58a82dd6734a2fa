T = 'templates/'
EV = T + 'parts/eiEvent.xml'
SIG = T + 'parts/eiEventSignal.xml'
REQ = T + 'parts/oadrReportRequest.xml'
DESC = T + 'parts/oadrReportDescription.xml'
REMIX = T + 'parts/reportDescriptionEmix.xml'

FLATTEN = "re.sub(r'>\\s*\\n\\s*<', '><', message.strip())"

BUGS = [
    ('lines joined', 'C26', [('utils.py', FLATTEN, "re.sub(r'\\n\\s*', '', message)")]),
    ('spaces squeezed', 'C26', [('utils.py', FLATTEN, "re.sub(r'\\s+', ' ', message).replace('> <', '><')")]),
    ('lines stripped', 'C26', [('utils.py', FLATTEN, "''.join(line.strip() for line in message.splitlines())")]),
    ('envelope: other template', 'C20', [('messaging.py', "TEMPLATES.get_template('oadrPayload.xml')", "TEMPLATES.get_template('oadrResponse.xml')")]),
    ('measurement: which', 'C23', [('enums.py', "    VOLTAGE = Measurement(name='voltage',", "    VOLTAGE = Measurement(name='current',")]),
    ('months: 31 days', 'C24', [('utils.py', "days = days + 30 * months", "days = days + 31 * months")]),
    ('months: dropped', 'C24', [('utils.py', "days = days + 30 * months", "days = 30 * months")]),
    ('years: 366 days', 'C24', [('utils.py', "days = days + 365 * years", "days = days + 366 * years")]),
    ('comment is safe', 'C20', [(T + 'parts/eiEventDescriptor.xml', '{{ event.event_descriptor.vtn_comment }}', '{{ event.event_descriptor.vtn_comment|safe }}')]),
    ('no autoescape', 'C20', [('messaging.py', 'autoescape=True', 'autoescape=False')]),
    ('autoescape by default', 'C20', [('messaging.py', ', autoescape=True', '')]),
    ('signature of the envelope from the message', 'C20', [('messaging.py', 'signature=signature,', "signature=message_payload.get('signature', signature),")]),
    ('order of elements', 'C21', [(DESC, '  <ei:reportType>{{ report_description.report_type }}</ei:reportType>\n  {% include \'parts/reportDescriptionEmix.xml\' %}\n',
                                   "  {% include 'parts/reportDescriptionEmix.xml' %}\n  <ei:reportType>{{ report_description.report_type }}</ei:reportType>\n")]),
    ('guard lost', 'C21', [(REMIX, '{% if report_description.measurement.pulse_factor %}<oadr:pulseFactor>{{ report_description.measurement.pulse_factor }}</oadr:pulseFactor>{% else %}', ''),
                           (REMIX, '</scale:siScaleCode>\n    {% endif %}', '</scale:siScaleCode>')]),
    ('required element behind a condition', 'C21', [(REQ, '<ei:readingType>{{ specifier_payload.reading_type }}</ei:readingType>',
                                                     '{% if specifier_payload.measurement %}<ei:readingType>{{ specifier_payload.reading_type }}</ei:readingType>{% endif %}')]),
    ('misspelt element', 'C21', [(REQ, '<xcal:granularity>', '<xcal:granularityx>'), (REQ, '</xcal:granularity>', '</xcal:granularityx>')]),
    ('wrapper inside the loop', 'C21', [(EV, '''        <ei:eiEventSignals>
            {% for event_signal in event.event_signals %}
                {% include 'parts/eiEventSignal.xml' %}
            {% endfor %}
        </ei:eiEventSignals>''', '''            {% for event_signal in event.event_signals %}
        <ei:eiEventSignals>
                {% include 'parts/eiEventSignal.xml' %}
        </ei:eiEventSignals>
            {% endfor %}''')]),
    ('undeclared prefix', 'C21', [(REQ, ' xmlns:xcal="urn:ietf:params:xml:ns:icalendar-2.0"', '')]),
    ('field not written', 'C22', [(DESC, '''    {% if report_description.report_data_source.party_id %}
        <ei:partyID>{{ report_description.report_data_source.party_id }}</ei:partyID>
    {% endif %}
''', '')]),
    ('zero report back duration', 'C22', [(REQ, '{% if report_request.report_specifier.report_back_duration is defined and report_request.report_specifier.report_back_duration is not none %}',
                                           '{% if report_request.report_specifier.report_back_duration %}')]),
    ('other field', 'C22 C26', [(DESC, '<ei:groupName>{{ report_description.report_data_source.group_name }}</ei:groupName>',
                                 '<ei:groupName>{{ report_description.report_data_source.group_id }}</ei:groupName>')]),
    ('one item of the list', 'C22', [(REQ, '{% for specifier_payload in report_request.report_specifier.specifier_payloads %}',
                                      '{% for specifier_payload in report_request.report_specifier.specifier_payloads[:1] %}')]),
    ('unit misspelt', 'C23', [('enums.py', 'J/m2', 'J/m3')]) if False else
    ('signal name misspelt', 'C23', [('enums.py', '"ELECTRICITY_PRICE"', '"ELECTRICTY_PRICE"')]),
    ('duration not formatted', 'C24', [(REQ, 'report_interval.duration|timedeltaformat', 'report_interval.duration')]),
    ('filter of the wrong kind', 'C24', [(REQ, 'report_interval.dtstart|datetimeformat', 'report_interval.dtstart|timedeltaformat')]),
    ('days lost', 'C24', [('utils.py', '    if days:\n        formatted += f"{days}D"\n', '')]),
    ('days lost when there are hours', 'C24', [('utils.py', '    if days:\n        formatted', '    if days and not hours:\n        formatted')]),
    ('seconds total', 'C24', [('utils.py', 'divmod(value.seconds, 3600)', 'divmod(value.seconds, 3660)')]),
    ('local time with Z', 'C24', [('utils.py', 'value.astimezone(timezone.utc).strftime(format)', 'value.strftime(format)')]),
    ('sign ignored', 'C24', [('utils.py', '    if matches.groups()[0] == "-":\n        duration = -1 * duration\n', '')]),
    ('month is 31 days', 'C24', [('utils.py', 'days + 30 * months', 'days + 365 * months')]) if False else
    ('weeks lost', 'C24', [('utils.py', 'timedelta(weeks=weeks, days=days,', 'timedelta(days=days,')]),
    ('fraction not padded', 'C24', [('utils.py', 'micro = int(micro + "0" * (6 - len(micro)))', 'micro = int(micro)')]),
    ('boolean backwards', 'C24', [('utils.py', 'if value is True:\n            return "true"', 'if value is False:\n            return "true"')]),
    ('one report is no list', 'C26', [('utils.py', "elif key in ('report_request', 'report', 'specifier_payload'):", "elif key in ('report_request', 'specifier_payload'):")]),
    ('float only', 'C26', [('utils.py', r"r'^-?(\d+\.\d*|\.\d+)$'", r"r'^(\d+\.\d*|\.\d+)$'")]) if False else
    ('zero payload stays wrapped', 'C26', [('utils.py', "if 'payload_float' in d[key] and 'value' in d[key]['payload_float'] \\\n                        and d[key]['payload_float']['value'] is not None:",
                                            "if d[key].get('payload_float') and d[key]['payload_float'].get('value'):")]),
    ('response_required of the first event', 'C26', [('utils.py', "new_event['response_required'] = event['response_required']",
                                                      "new_event['response_required'] = events[0]['response_required']")]),
    ('break after the first measurement', 'C26', [('utils.py', '                else:\n                    continue\n                item[', '                else:\n                    break\n                item[')]),
    ('two targets of a type', 'C26', [('utils.py', 'new_targets.extend([{ikey: value} for value in targets[ikey]])', 'new_targets.append({ikey: targets[ikey]})')]),
    ('modification number lost', 'C26', [('utils.py', "            d['modification_number'] = qeid['modification_number']\n", '')]),
    ('min period is text', 'C26', [('utils.py', '"max_period", "min_period"', '"max_period"')]),
]

SAME = [
    ('flatten: any white space between elements', 'C26', [('utils.py', FLATTEN, "re.sub(r'>\\s+<', '><', message.strip())")]),
    ('flatten: compiled', 'C26', [('utils.py', FLATTEN, "re.compile(r'>\\s*\\n\\s*<').sub('><', message.strip())")]),
    ('explicit condition', 'C21 C22', [(DESC, '{% if report_description.market_context %}', '{% if report_description.market_context is defined and report_description.market_context is not none and report_description.market_context %}')]),
    ('with in template', 'C20 C21 C22 C24 C26', [(REQ, '    <ei:reportSpecifierID>{{ report_request.report_specifier.report_specifier_id }}</ei:reportSpecifierID>',
                                              '    {% set specifier = report_request.report_specifier %}<ei:reportSpecifierID>{{ specifier.report_specifier_id }}</ei:reportSpecifierID>')]),
    ('inlined include', 'C20 C21 C22 C24 C26', [(EV, "{% include 'parts/eiEventTarget.xml' %}", open('/repo/openleadr/templates/parts/eiEventTarget.xml').read())]),
    ('comment in template', 'C20 C21 C22 C24 C26', [(EV, '    <ei:eiEvent>', '    {# one event #}<ei:eiEvent>')]),
    ('total seconds', 'C24 C26', [('utils.py', '    hours, seconds = divmod(value.seconds, 3600)\n    minutes, seconds = divmod(seconds, 60)',
                               '    hours = value.seconds // 3600\n    minutes = value.seconds % 3600 // 60\n    seconds = value.seconds % 60')]),
    ('helper for the measurement', 'C26', [('utils.py', '''                item['description'] = item.pop('item_description', None)
                item['unit'] = item.pop('item_units', None)
''', '''                _rename(item)
'''), ('utils.py', 'def parse_datetime(value):', '''def _rename(item):
    item['description'] = item.pop('item_description', None)
    item['unit'] = item.pop('item_units', None)


def parse_datetime(value):''')]),
    ('boolean by table', 'C24 C26', [('utils.py', "    if value == 'true':\n        return True\n    else:\n        return False", "    return value == 'true'")]),
    ('select_autoescape', 'C20', [('messaging.py', 'autoescape=True', 'autoescape=bool(1)')]),
    ('attributes of the description', 'C26', [('utils.py', "        elif isinstance(value, list):\n            d[key] = []\n            for item in value:\n                if isinstance(item, (OrderedDict, dict)):\n                    dict_item = normalize_dict(item)\n                    d[key].append(normalize_dict(dict_item))\n                else:\n                    d[key].append(item)",
                                               "        elif isinstance(value, list):\n            d[key] = [normalize_dict(normalize_dict(item)) if isinstance(item, dict) else item for item in value]")]),
]
SAME += [
    ('total in one', 'C24', [('utils.py', '    hours, seconds = divmod(value.seconds, 3600)\n    minutes, seconds = divmod(seconds, 60)',
                              '    seconds = int(value.total_seconds())\n    days, seconds = divmod(seconds, 86400)\n    hours, seconds = divmod(seconds, 3600)\n    minutes, seconds = divmod(seconds, 60)'),
                             ('utils.py', '    days = value.days\n', '')]),
    ('seconds only', 'C24', [('utils.py', '''    days = value.days
    hours, seconds = divmod(value.seconds, 3600)
    minutes, seconds = divmod(seconds, 60)
    formatted = "P"
''', '''    days = value.days
    hours = 0
    minutes = 0
    seconds = value.seconds
    formatted = "P"
''')]),
    ('joined parts', 'C24', [('utils.py', '''    if hours or minutes or seconds:
        formatted += "T"
    if hours:
        formatted += f"{hours}H"
    if minutes:
        formatted += f"{minutes}M"
    if seconds:
        formatted += f"{seconds}S"
    return formatted''', '''    time = ""
    for number, letter in ((hours, "H"), (minutes, "M"), (seconds, "S")):
        if number:
            time += str(number) + letter
    return formatted + ("T" + time if time else "")''')]),
]
BUGS += [
    ('total in one, days twice', 'C24', [('utils.py', 'divmod(value.seconds, 3600)', 'divmod(int(value.total_seconds()), 3600)')]),
    ('no T without hours', 'C24', [('utils.py', '    if hours or minutes or seconds:\n        formatted += "T"', '    if hours or minutes:\n        formatted += "T"')]),
]
