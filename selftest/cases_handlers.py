G = 'service/registration_service.py'
PO = 'service/poll_service.py'
R = 'service/report_service.py'
ER = 'errors.py'
EV = 'service/event_service.py'
S = 'server.py'
K = 'client.py'
BUGS = [
    ('add: x- refused', 'C47', [(S, "if signal_name not in enums.SIGNAL_NAME.values and not signal_name.startswith('x-'):", "if signal_name not in enums.SIGNAL_NAME.values:")]),
    ('add: lists wrapped', 'C47', [(S, "if not isinstance(targets, list):", "if isinstance(targets, list):")]),
    ('add: other targets', 'C47', [(S, "utils.ungroup_targets_by_type(targets_by_type)", "utils.ungroup_targets_by_type(targets)")]),
    ('raw: no id', 'C47', [(S, "self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback\n        return event_id", "self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback\n        return event")]),
    ('raw: delivery is id', 'C47', [(S, "self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback", "self.event_delivery_callbacks[(ven_id, event_id)] = callback")]),
    ('raw: delivery by event', 'C47', [(S, "self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback", "self.event_delivery_callbacks[(event_id, ven_id)] = delivery_callback")]),
    ('raw: no news', 'C47', [(S, "        self.events[ven_id].append(event)\n        self.events_updated[ven_id] = True\n", "        self.events[ven_id].append(event)\n")]),
    ('raw: news elsewhere', 'C47', [(S, "return self.services['poll_service'].events_updated", "return self.services['event_service'].events_updated")]),
    ('raw: callbacks elsewhere', 'C47', [(S, "return self.services['event_service'].event_callbacks", "return self.services['poll_service'].event_callbacks")]),
    ('raw: front', 'C47', [(S, "self.events[ven_id].append(event)", "self.events[event_id].append(event)")]),
    ('map: entry lost', 'C08', [(S, "            'on_poll': 'poll_service',\n", "")]),
    ('map: other service', 'C08', [(S, "'on_poll': 'poll_service'", "'on_poll': 'event_service'")]),
    ('map: created event', 'C08', [(S, "'on_created_event': 'event_service'", "'on_created_event': 'report_service'")]),
    ('srv: port lost', 'C48', [(S, 'self.http_port = http_port', 'self.http_port = 8080')]),
    ('srv: host any', 'C48', [(S, 'self.http_host = http_host', "self.http_host = '0.0.0.0'")]),
    ('ven: key is cert', 'C48', [(K, 'self.key_path = key', 'self.key_path = cert')]),
    ('reg: own venID', 'C09', [(G, "'registration_id': result[1],", "'registration_id': payload['request_id'],")]),
    ('reg: swapped', 'C09', [(G, "response_payload = {'ven_id': result[0],\n                                    'registration_id': result[1],",
                              "response_payload = {'ven_id': result[1],\n                                    'registration_id': result[0],")]),
    ('reg: refused gets registration id', 'C09', [(G, "            response_payload = {'profiles': [{'profile_name': payload['profile_name'],",
                                                  "            response_payload = {'registration_id': payload.get('registration_id'),\n                                'profiles': [{'profile_name': payload['profile_name'],")]),
    ('reg: other transport', 'C09', [(G, "                ven_id, registration_id = result\n                transports = [{'transport_name': payload['transport_name']}]",
                                      "                ven_id, registration_id = result\n                transports = [{'transport_name': 'simpleHttp'}]")]),
    ('reg: fixed profile', 'C09', [(G, "'registration_id': result[1],\n                                    'profiles': [{'profile_name': payload['profile_name'],",
                                    "'registration_id': result[1],\n                                    'profiles': [{'profile_name': '2.0b',")]),
    ('reg: no poll frequency', 'C09', [(G, "                                                  'transports': transports}],\n                                    'requested_oadr_poll_freq': self.poll_freq}",
                                        "                                                  'transports': transports}],\n                                    'requested_oadr_poll_freq': None}")]),
    ('reg: cancel confirms nothing', 'C09', [(G, "'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}", "'oadrCanceledPartyRegistration', {'registration_id': payload['ven_id']}")]),
    ('reg: cancel handler gets venID', 'C09', [(G, "result = self.on_cancel_party_registration(payload)", "result = self.on_cancel_party_registration(payload['ven_id'])")]),
    ('reg: query with 2.0a', 'C09', [(G, "'request_id': payload['request_id'],\n                            'profiles': [{'profile_name': '2.0b',", "'request_id': payload['request_id'],\n                            'profiles': [{'profile_name': '2.0a',")]),
    ('reg: coroutine not awaited', 'C09', [(G, "        result = self.on_cancel_party_registration(payload)\n        if iscoroutine(result):\n            result = await result\n", "        result = self.on_cancel_party_registration(payload)\n")]),
    ('poll: own handler gets payload', 'C27', [(PO, "self.on_poll(ven_id=payload['ven_id'])", "self.on_poll(ven_id=payload)")]),
    ('poll: only the first event', 'C27', [(PO, "return 'oadrDistributeEvent', {'events': result}", "return 'oadrDistributeEvent', {'events': result[:1]}")]),
    ('poll: tuple after list', 'C27', [(PO, "        if isinstance(result, tuple):\n            return result\n        if isinstance(result, list):", "        if isinstance(result, (list, tuple)):")]),
    ('poll: event not listed', 'C27', [(PO, "return 'oadrDistributeEvent', {'events': [asdict(result)]}", "return 'oadrDistributeEvent', {'events': asdict(result)}")]),
    ('rep: prefix kept', 'C49', [(R, "report_copy['report_name'] = report_copy['report_name'][9:]", "report_copy['report_name'] = report_copy['report_name']")]),
    ('rep: original renamed', 'C35', [(R, "report_copy = report.copy()", "report_copy = report")]),
    ('rep: always new list', 'C49', [(R, "            if payload['ven_id'] not in self.registered_reports:\n                self.registered_reports", "            if True:\n                self.registered_reports")]),
    ('rep: list per message', 'C49', [(R, "        for report in payload['reports']:\n            if payload['ven_id'] not in self.registered_reports:\n                self.registered_reports[payload['ven_id']] = []\n",
                                       "        self.registered_reports[payload['ven_id']] = []\n        for report in payload['reports']:\n")]),
    ('rep: specifier id recorded', 'C49', [(R, "append(pending_report['report_request_id'])", "append(pending_report['report_specifier_id'])")]),
    ('rep: created list lost', 'C49', [(R, "        if payload['ven_id'] not in self.created_reports:\n", "        if payload.get('pending_reports'):\n")]),
    ('rep: only supported recorded', 'C49', [(R, "            self.registered_reports[payload['ven_id']].append(report_copy)\n", "            if report['report_name'].startswith('METADATA_TELEMETRY'):\n                self.registered_reports[payload['ven_id']].append(report_copy)\n")]),
    ('err: no code', 'C06', [(ER, "    response_code = STATUS_CODES.DEPLOYMENT_ERROR_OR_OTHER_ERROR\n    response_description = 'DEPLOYMENT ERROR OR OTHER ERROR'\n", "    pass\n")]),
    ('err: ven_id lost', 'C06', [(ER, "        super().__init__()\n        self.ven_id = ven_id\n", "        super().__init__(ven_id)\n")]),
    ('err: code swapped', 'C06', [(ER, "self.response_code = STATUS_CODES.NOT_ALLOWED\n", "self.response_code = STATUS_CODES.NOT_RECOGNIZED\n")]),
    ('err: http status fixed', 'C06', [(ER, "self.response_code = status\n", "self.response_code = 500\n")]),
]
SAME = [
    ('add: sets', 'C47', [(S, "if signal_name not in enums.SIGNAL_NAME.values and not signal_name.startswith('x-'):", "known = signal_name in enums.SIGNAL_NAME.values or signal_name.startswith('x-')\n        if not known:")]),
    ('raw: key', 'C47', [(S, "        # Add the callback for the response to this event\n", "        key = (ven_id, event_id)\n"), (S, "self.event_delivery_callbacks[(ven_id, event_id)]", "self.event_delivery_callbacks[key]")]),
    ('raw: setdefault', 'C47', [(S, "        if ven_id not in self.events:\n            self.events[ven_id] = []\n", "        queue = self.events.setdefault(ven_id, [])\n"), (S, "self.events[ven_id].append(event)", "queue.append(event)")]),
    ('raw: service', 'C47', [(S, "self.events[ven_id].append(event)\n", "self.services['event_service'].events[ven_id] += [event]\n")]),
    ('srv: private port', 'C48', [(S, 'self.http_port = http_port', 'self._port = http_port'), (S, 'port=self.http_port', 'port=self._port'), (S, '{self.http_port}', '{self._port}')]),
    ('ven: private key', 'C48', [(K, 'self.key_path = key', 'self._keyfile = key'), (K, 'self.cert_path, self.key_path,', 'self.cert_path, self._keyfile,')]),
    ('reg: await_if_required', 'C09', [(G, "        result = self.on_create_party_registration(payload)\n        if iscoroutine(result):\n            result = await result\n", "        result = self.on_create_party_registration(payload)\n        result = (await result) if iscoroutine(result) else result\n")]),
    ('reg: helper', 'C09', [(G, "            transports = [{'transport_name': payload['transport_name']}]\n            response_payload = {'profiles': [{'profile_name': payload['profile_name'],\n                                              'transports': transports}],\n                                'requested_oadr_poll_freq': self.poll_freq}\n        return",
                             "            response_payload = self._offer(payload)\n        return"),
                            (G, "    def on_create_party_registration(self, payload):\n", "    def _offer(self, payload):\n        name, transport = payload['profile_name'], payload['transport_name']\n        return dict(profiles=[dict(profile_name=name, transports=[dict(transport_name=transport)])],\n                    requested_oadr_poll_freq=self.poll_freq)\n\n    def on_create_party_registration(self, payload):\n")]),
    ('reg: early return', 'C09', [(G, "        if result is not False and result is not None:\n            if len(result) != 2:", "        accepted = result is not None and result is not False\n        if accepted:\n            if not len(result) == 2:")]),
    ('reg: unpacked names', 'C09', [(G, "response_payload = {'ven_id': result[0],\n                                    'registration_id': result[1],", "response_payload = {'ven_id': ven_id,\n                                    'registration_id': registration_id,")]),
    ('poll: elif', 'C27', [(PO, "        if isinstance(result, list):\n            return 'oadrDistributeEvent', {'events': result}\n", "        elif isinstance(result, list):\n            response = 'oadrDistributeEvent', dict(events=result)\n            return response\n")]),
    ('rep: setdefault', 'C49', [(R, "            if payload['ven_id'] not in self.registered_reports:\n                self.registered_reports[payload['ven_id']] = []\n\n", ""),
                                (R, "            self.registered_reports[payload['ven_id']].append(report_copy)\n", "            self.registered_reports.setdefault(payload['ven_id'], []).append(report_copy)\n")]),
    ('rep: once per message', 'C49', [(R, "        for report in payload['reports']:\n            if payload['ven_id'] not in self.registered_reports:\n                self.registered_reports[payload['ven_id']] = []\n\n",
                                       "        ven_id = payload['ven_id']\n        if ven_id not in self.registered_reports:\n            self.registered_reports[ven_id] = []\n        known = self.registered_reports[ven_id]\n        for report in payload['reports']:\n"),
                                      (R, "            self.registered_reports[payload['ven_id']].append(report_copy)\n", "            known.append(report_copy)\n")]),
    ('rep: literal copy', 'C49', [(R, "            report_copy = report.copy()\n            report_copy['report_name'] = report_copy['report_name'][9:]\n", "            report_copy = {**report, 'report_name': report['report_name'][len('METADATA_'):]}\n")]),
    ('rep: dict copy', 'C49', [(R, "            report_copy = report.copy()\n", "            report_copy = dict(report)\n")]),
    ('rep: extend', 'C49', [(R, "            for pending_report in payload.get('pending_reports', []):\n                self.created_reports[ven_id].append(pending_report['report_request_id'])\n",
                             "            self.created_reports[ven_id].extend([r['report_request_id'] for r in payload['pending_reports']])\n")]),
    ('rep: get', 'C49', [(R, "        if payload['ven_id'] not in self.created_reports:\n            self.created_reports[ven_id] = []\n", "        if self.created_reports.get(ven_id) is None:\n            self.created_reports[ven_id] = []\n")]),
    ('err: base init', 'C06', [(ER, "    # What the other side is told when a subclass does not say it\n    response_code = STATUS_CODES.DEPLOYMENT_ERROR_OR_OTHER_ERROR\n    response_description = 'DEPLOYMENT ERROR OR OTHER ERROR'\n",
                                "    def __init__(self, *args):\n        super().__init__(*args)\n        self.response_code = STATUS_CODES.DEPLOYMENT_ERROR_OR_OTHER_ERROR\n        self.response_description = 'DEPLOYMENT ERROR OR OTHER ERROR'\n")]),
]
