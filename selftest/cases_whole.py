CL = 'client.py'
VTN = 'service/vtn_service.py'
REG = 'service/registration_service.py'
RESP = "'request_id': payload['request_id']}"

BUGS = [
    ('poll: name for id', 'C53', [(CL, "self._create_message('oadrPoll', ven_id=self.ven_id)", "self._create_message('oadrPoll', ven_id=self.ven_name)")]),
    ('poll: nobody', 'C53', [(CL, "self._create_message('oadrPoll', ven_id=self.ven_id)", "self._create_message('oadrPoll')")]),
    ('query: no request id', 'C53', [(CL, "self._create_message('oadrQueryRegistration', request_id=request_id)", "self._create_message('oadrQueryRegistration')")]),
    ('register: profile lost', 'C53', [(CL, "                   'profile_name': profile_name,\n", '')]),
    ('register: profile fixed', 'C53', [(CL, "'profile_name': profile_name,", "'profile_name': '2.0b',")]),
    ('register: address is the name', 'C53', [(CL, "'transport_address': transport_address,", "'transport_address': transport_name,")]),
    ('register: registration id lost', 'C53', [(CL, "                   'registration_id': registration_id}", "                   }")]),
    ('register: ven id lost', 'C53', [(CL, "                   'ven_id': self.ven_id,\n                   'http_pull_model'", "                   'http_pull_model'")]),
    ('register: swapped flags', 'C53', [(CL, "'xml_signature': xml_signature,\n                   'report_only': report_only,", "'xml_signature': report_only,\n                   'report_only': xml_signature,")]),
    ('cancel: no registration', 'C53', [(CL, "                   'registration_id': self.registration_id,\n                   'ven_id': self.ven_id}", "                   'ven_id': self.ven_id}")]),
    ('request event: reply limit lost', 'C53', [(CL, "'ven_id': self.ven_id,\n                   'reply_limit': reply_limit}", "'ven_id': self.ven_id}")]),
    ('created event: code', 'C53', [(CL, "payload = {'ven_id': self.ven_id,\n                   'response': {'response_code': 200,", "payload = {'ven_id': self.ven_id,\n                   'response': {'response_code': 300,")]),
    ('created event: own request id', 'C53', [(CL, "'request_id': request_id,\n                                        'event_id': event_id,", "'request_id': utils.generate_id(),\n                                        'event_id': event_id,")]),
    ('created event: modification number', 'C53', [(CL, "'modification_number': modification_number,\n                                        'opt_type': opt_type}]}", "'modification_number': 0,\n                                        'opt_type': opt_type}]}")]),
    ('opt: no request id', 'C53', [(CL, "            'request_id': request_id,\n            'ven_id': self.ven_id,\n            **asdict(opt)", "            'ven_id': self.ven_id,\n            **asdict(opt)")]),
    ('opt: market context lost', 'C53', [(CL, "            market_context=market_context,\n            signal_target_mrid=signal_target_mrid\n        )\n        self.opts", "            signal_target_mrid=signal_target_mrid\n        )\n        self.opts")]),
    ('cancel opt: fresh opt id', 'C53', [(CL, "            'opt_id': opt_id,\n            'ven_id'", "            'opt_id': utils.generate_id(),\n            'ven_id'")]),
    ('update report: no request id', 'C53', [(CL, "                                                   request_id=utils.generate_id(),\n                                                   reports=[report])", "                                                   reports=[report])")]),
    ('canceled report: id of the report', 'C53', [(CL, "                        'request_id': payload['request_id']}\n            if payload['report_to", "                        'request_id': payload['report_request_id']}\n            if payload['report_to")]),
    ('on cancel: fresh request id', 'C53', [(CL, "response = {'response_code': 452,\n                            'response_description': 'ERROR',\n                            'request_id': message['request_id']}",
                                             "response = {'response_code': 452,\n                            'response_description': 'ERROR',\n                            'request_id': utils.generate_id()}")]),
    ('on cancel: registration forgotten first', 'C53', [(CL, "        self.scheduler.remove_all_jobs()\n\n        message = self._create_message('oadrCanceledPartyRegistration'", "        self.scheduler.remove_all_jobs()\n        self.registration_id = None\n\n        message = self._create_message('oadrCanceledPartyRegistration'")]),
    ('response: nobody', 'C53', [(CL, "msg = self._create_message('oadrResponse',\n                                   ven_id=self.ven_id,", "msg = self._create_message('oadrResponse',")]),
    ('response: request id lost', 'C53', [(CL, "                                             'response_description': response_description,\n                                             'request_id': request_id})", "                                             'response_description': response_description})")]),
    ('event: fresh request id', 'C53', [(CL, "                        'request_id': message['request_id']}\n            message = self._create_message('oadrCreatedEvent',", "                        'request_id': utils.generate_id()}\n            message = self._create_message('oadrCreatedEvent',")]),
    ('registered report: nobody', 'C53', [(CL, "                                           report_requests=[],\n                                           ven_id=self.ven_id,", "                                           report_requests=[],")]),
    ('error: no request id', 'C53', [(VTN, "'response_description': error_description,\n                                         'request_id': message_payload.get('request_id')},", "'response_description': error_description},")]),
    ('error: no vtn', 'C53', [(VTN, "                            'vtn_id': self.vtn_id,\n", '')]),
    ('error: ven is the vtn', 'C53', [(VTN, "'ven_id': message_payload.get('ven_id')}\n        return response_type", "'ven_id': self.vtn_id}\n        return response_type")]),
    ('refusal without profiles', 'C53', [(REG, "            response_payload = {'profiles': [{'profile_name': payload['profile_name'],\n                                              'transports': transports}],\n                                'requested", "            response_payload = {'requested")]),
    ('canceled without registration', 'C53', [(REG, "{'registration_id': payload['registration_id']}", "{}")]),
    ('canceled registration of the ven', 'C53', [(REG, "{'registration_id': payload['registration_id']}", "{'registration_id': payload['ven_id']}")]),
    ('requestID None', 'C53', [('templates/oadrDistributeEvent.xml', "response.request_id is defined and response.request_id is not none", "response.request_id is defined")]),
]

SAME = [
    ('poll: by dictionary', 'C53', [(CL, "message = self._create_message('oadrPoll', ven_id=self.ven_id)", "fields = dict(ven_id=self.ven_id)\n        message = self._create_message('oadrPoll', **fields)")]),
    ('helper for responses', 'C53', [(CL, "            response = {'response_code': 200,\n                        'response_description': 'OK',\n                        'request_id': payload['request_id']}\n            if payload['report_to", "            response = self._accepted(payload['request_id'])\n            if payload['report_to"),
                                      (CL, "    async def _report_queue_worker(self):", "    def _accepted(self, answered):\n        return {'response_code': 200, 'response_description': 'OK', 'request_id': answered}\n\n    async def _report_queue_worker(self):")]),
    ('helper that sends', 'C53', [(CL, "        service = 'OadrPoll'\n        message = self._create_message('oadrPoll', ven_id=self.ven_id)\n        response_type, response_payload = await self._perform_request(service, message)\n        return response_type, response_payload",
                                   "        return await self._ask('OadrPoll', 'oadrPoll', me=self.ven_id)\n\n    async def _ask(self, service, kind, me):\n        message = self._create_message(kind, ven_id=me)\n        response_type, response_payload = await self._perform_request(service, message)\n        return response_type, response_payload")]),
    ('request id in place', 'C53', [(CL, "        request_id = utils.generate_id()\n        service = 'EiRegisterParty'\n        message = self._create_message('oadrQueryRegistration', request_id=request_id)", "        service = 'EiRegisterParty'\n        message = self._create_message('oadrQueryRegistration', request_id=utils.generate_id())")]),
    ('error reply step by step', 'C53', [(VTN, "                            'vtn_id': self.vtn_id,\n                            'ven_id': message_payload.get('ven_id')}\n        return response_type", "                            }\n        response_payload['vtn_id'] = self.vtn_id\n        response_payload['ven_id'] = message_payload.get('ven_id')\n        return response_type")]),
    ('error reply: ven id if there', 'C53', [(VTN, "                            'vtn_id': self.vtn_id,\n                            'ven_id': message_payload.get('ven_id')}\n        return response_type", "                            'vtn_id': self.vtn_id}\n        response_payload['ven_id'] = message_payload['ven_id'] if 'ven_id' in message_payload else None\n        return response_type")]),
    ('registration payload by name', 'C53', [(REG, "            result = 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}", "            registration_id = payload['registration_id']\n            result = 'oadrCanceledPartyRegistration', dict(registration_id=registration_id)")]),
]
