F = 'preflight.py'
U = 'utils.py'
BUGS = [
    ('rule 8: first event only', 'C18', [(F, "                event['active_period']['duration'] = signal_durations[0]", "                message_payload['events'][0]['active_period']['duration'] = signal_durations[0]")]),
    ('rule 8: last signal', 'C18', [(F, "        signal_durations = []\n        for signal in event['event_signals']:\n            signal_durations.append(", "        for signal in event['event_signals']:\n            signal_durations = []\n            signal_durations.append(")]),
    ('rule 8: any', 'C18', [(F, "            if not all([d == signal_durations[0] for d in signal_durations]):", "            if not any([d == signal_durations[0] for d in signal_durations]):")]),
    ('rule 8: any outer', 'C18', [(F, "        if not all([d == active_period_duration for d in signal_durations]):", "        if not any([d == active_period_duration for d in signal_durations]):")]),
    ('rule 8: not stored', 'C18', [(F, "                event['active_period']['duration'] = signal_durations[0]", "                active_period_duration = signal_durations[0]")]),
    ('rule 9: first interval', 'C18', [(F, "                    if interval['signal_payload'] not in (0, 1, 2, 3):", "                    if event_signal['intervals'][0]['signal_payload'] not in (0, 1, 2, 3):")]),
    ('rule 9: 4', 'C18', [(F, "not in (0, 1, 2, 3)", "not in (0, 1, 2, 3, 4)")]),
    ('rule 9: warns', 'C18', [(F, """                        raise ValueError("Payload Values used with Signal Name SIMPLE "
                                         "must be one of 0, 1, 2 or 3")""", """                        logger.warning("Payload Values used with Signal Name SIMPLE "
                                       "must be one of 0, 1, 2 or 3")""")]),
    ('rule 14: far only', 'C18', [(F, "event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:", "event['event_descriptor']['event_status'] == enums.EVENT_STATUS.FAR:")]),
    ('rule 14: every signal', 'C18', [(F, "                if event_signal['signal_name'] == \"SIMPLE\" \\\n                        and event['event_descriptor']", "                if event['event_descriptor']")]),
    ('rule 14: first signal', 'C18', [(F, "        for event_signal in event['event_signals']:\n            if 'current_value' in event_signal", "        for event_signal in event['event_signals'][:1]:\n            if 'current_value' in event_signal")]),
    ('rule 14: one', 'C18', [(F, "event_signal['current_value'] = 0", "event_signal['current_value'] = None")]),
    ('ns: break', 'C18', [(F, "                    event_signal['measurement']['ns'] = measurement_ns\n", "                    event_signal['measurement']['ns'] = measurement_ns\n                    break\n")]),
    ('ns: unknown passes', 'C18', [(F, "                    event_signal['measurement']['ns'] = measurement_ns\n                else:\n                    raise ValueError(\"The Measurement Name is unknown\")", "                    event_signal['measurement']['ns'] = measurement_ns\n                else:\n                    event_signal['measurement']['ns'] = 'oadr'")]),
    ('ns: constant', 'C18', [(F, "                    event_signal['measurement']['ns'] = measurement_ns\n", "                    event_signal['measurement']['ns'] = 'power'\n")]),
    ('response: missing kept', 'C18', [(F, "        if 'response_required' not in event:\n            event['response_required'] = 'always'\n        elif", "        if 'response_required' not in event:\n            continue\n        elif")]),
    ('response: never', 'C18', [(F, "Changing to 'always'.\")\n            event['response_required'] = 'always'", "Changing to 'always'.\")\n            event['response_required'] = 'never'")]),
    ('response: always', 'C18', [(F, "        elif event['response_required'] not in ('never', 'always'):", "        elif event['response_required'] not in ('always',):")]),
    ('created: always now', 'C18', [(F, "        if 'created_date_time' not in event['event_descriptor'] \\\n                or not event['event_descriptor']['created_date_time']:", "        if event['event_descriptor']:")]),
    ('created: start', 'C18', [(F, "event['event_descriptor']['created_date_time'] = datetime.now(timezone.utc)", "event['event_descriptor']['created_date_time'] = event['active_period']['dtstart']")]),
    ('created: none', 'C18', [(F, "        if 'created_date_time' not in event['event_descriptor'] \\\n                or not event['event_descriptor']['created_date_time']:", "        if 'created_date_time' not in event['event_descriptor']:")]),
    ('offers: no prefix', 'C18', [(F, "        if report['report_name'] in enums.REPORT_NAME.values \\\n                and not", "        if report['report_name'] not in enums.REPORT_NAME.values \\\n                and not")]),
    ('offers: double', 'C18', [(F, "        if report['report_name'] in enums.REPORT_NAME.values \\\n                and not report['report_name'].startswith(\"METADATA\"):", "        if report['report_name'] in enums.REPORT_NAME.values:")]),
    ('offers: unchecked', 'C18', [(F, "                utils.validate_report_measurement_dict(report_description['measurement'])", "                utils.validate_report_measurement_dict(dict(report_description['measurement']))")]),
    ('offers: first', 'C18', [(F, "                utils.validate_report_measurement_dict(report_description['measurement'])", "                utils.validate_report_measurement_dict(report_description['measurement'])\n                break")]),
    ('dispatch: not called', 'C18', [(F, "    if f'_preflight_{message_type}' in globals():", "    if f'_preflight{message_type}' in globals():")]),
    ('dispatch: original', 'C18', [(F, "        globals()[f'_preflight_{message_type}'](message_payload)\n    return message_payload", "        globals()[f'_preflight_{message_type}'](message_payload)\n        message_payload = {**message_payload, 'events': []}\n    return message_payload")]),
    ('units: other description', 'C18', [(U, "            if description.lower() == required_description.lower():", "            if description.lower() in required_description.lower():")]),
    ('units: any', 'C18', [(U, "        if unit not in _ACCEPTABLE_UNITS[name]:", "        if not any(unit in units for units in _ACCEPTABLE_UNITS.values()):")]),
    ('units: power without', 'C18', [(U, "    if 'power' in name:\n        if 'power_attributes' in measurement:", "    if 'power' in name and 'power_attributes' in measurement:\n        if True:")]),
    ('units: hertz', 'C18', [(U, "                    or 'ac' not in power_attributes \\\n                    or 'hertz' not in power_attributes:", "                    or 'ac' not in power_attributes:")]),
    ('refuses: none', 'C18', [(F, "            if 'measurement' in event_signal and event_signal['measurement'] is not None:", "            if 'measurement' in event_signal and event_signal['measurement'] is None:\n                raise ValueError('measurement is None')\n            elif 'measurement' in event_signal:")]),
    ('examples: wrong place', 'C18', [(F, "                if report_description['measurement']['name'] in enums._MEASUREMENT_NAMESPACES:", "                if report['measurement']['name'] in enums._MEASUREMENT_NAMESPACES:")]),
    ('examples: near is active', 'C18', [(F, "!= enums.EVENT_STATUS.ACTIVE:", "not in (enums.EVENT_STATUS.ACTIVE, enums.EVENT_STATUS.NEAR):")]),
    ('signal: several types', 'C19', [('objects.py', '        if len(targets_by_type) > 1:', '        if len(targets_by_type) > 2:')]),
    ('signal: several types accepted', 'C19', [('objects.py', """            raise ValueError("In OpenADR, the EventSignal target may only be of type endDeviceAsset. "
                             f"You provided types: '{', '.join(targets_by_type)}'")""", """            enums.logger.warning("In OpenADR, the EventSignal target may only be of type endDeviceAsset. ")""")]),
    ('signal: several types in one form', 'C19', [('objects.py', """        if len(targets_by_type) > 1:""", """        if self.targets_by_type is None and len(targets_by_type) > 1:""")]),
]
SAME = [
    ('one loop', 'C18', [(F, """    # Check that there is a valid oadrResponseRequired value for each Event
    for event in message_payload['events']:
        if 'created_date_time' not in""", """        if 'created_date_time' not in""")]),
    ('helper', 'C18', [(F, "def _preflight_oadrDistributeEvent(message_payload):", """def _total(signal):
    from .utils import parse_duration
    total = timedelta(seconds=0)
    for interval in signal['intervals']:
        total = total + parse_duration(interval['duration'])
    return total


def _preflight_oadrDistributeEvent(message_payload):"""), (F, """            signal_durations.append(sum([parse_duration(i['duration'])
                                         for i in signal['intervals']], timedelta(seconds=0)))
""", """            signal_durations.append(_total(signal))
""")]),
    ('comprehension', 'C18', [(F, """        signal_durations = []
        for signal in event['event_signals']:
            signal_durations.append(sum([parse_duration(i['duration'])
                                         for i in signal['intervals']], timedelta(seconds=0)))
""", """        signal_durations = [sum((parse_duration(i['duration']) for i in s['intervals']), timedelta(seconds=0)) for s in event['event_signals']]
"""), (F, "        if not all([d == active_period_duration for d in signal_durations]):", "        if any(d != active_period_duration for d in signal_durations):")]),
    ('set', 'C18', [(F, "not in (0, 1, 2, 3)", "not in {0, 1, 2, 3}"), (F, "        if 'response_required' not in event:\n            event['response_required'] = 'always'\n        elif", "        event.setdefault('response_required', 'always')\n        if")]),
    ('rule 14: flat', 'C18', [(F, """            if 'current_value' in event_signal and event_signal['current_value'] != 0:
                if event_signal['signal_name'] == "SIMPLE" \\
                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                    logger.warning("The current_value for a SIMPLE event "
                                   "that is not yet active must be 0. "
                                   "This will be corrected.")
                    event_signal['current_value'] = 0
""", """            if event_signal['signal_name'] != "SIMPLE" or 'current_value' not in event_signal:
                continue
            if event['event_descriptor']['event_status'] == 'active':
                continue
            event_signal['current_value'] = 0
""")]),
    ('ns: get', 'C18', [(F, """                if event_signal['measurement']['name'] in enums._MEASUREMENT_NAMESPACES:
                    measurement_name = event_signal['measurement']['name']
                    measurement_ns = enums._MEASUREMENT_NAMESPACES[measurement_name]
                    event_signal['measurement']['ns'] = measurement_ns
                else:
                    raise ValueError("The Measurement Name is unknown")
""", """                measurement = event_signal['measurement']
                if measurement['name'] not in enums._MEASUREMENT_NAMESPACES:
                    raise ValueError("The Measurement Name is unknown")
                measurement['ns'] = enums._MEASUREMENT_NAMESPACES[measurement['name']]
""")]),
    ('offers: fstring', 'C18', [(F, "            report['report_name'] = 'METADATA_' + report['report_name']", "            report['report_name'] = f\"METADATA_{report['report_name']}\"")]),
    ('units: keys', 'C18', [(U, """                if 'voltage' not in power_attributes \\
                    or 'ac' not in power_attributes \\
                    or 'hertz' not in power_attributes:""".replace('                if', '            if'), "            if not all(key in power_attributes for key in ('voltage', 'ac', 'hertz')):")]),
    ('dispatch: table', 'C18', [(F, "    if f'_preflight_{message_type}' in globals():", "    checks = {'oadrRegisterReport': _preflight_oadrRegisterReport, 'oadrDistributeEvent': _preflight_oadrDistributeEvent}\n    if message_type in checks:"), (F, "        globals()[f'_preflight_{message_type}'](message_payload)", "        checks[message_type](message_payload)")]),
]
