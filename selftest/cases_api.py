S = 'server.py'
C = 'client.py'
U = 'utils.py'
D = 'service/decorators.py'
V = 'service/vtn_service.py'
R = 'service/registration_service.py'
RS = 'service/report_service.py'
BUGS = [
    ('route-fixed-prefix', 'C08', [(S, 'web.post(f"{http_path_prefix}/{s.__service_name__}", s.handler)', 'web.post(f"/OpenADR2/Simple/2.0b/{s.__service_name__}", s.handler)')]),
    ('route-late-binding', 'C08', [(S, 'self.app.add_routes([web.post(f"{http_path_prefix}/{s.__service_name__}", s.handler)\n                             for s in self.services.values()])', 'self.app.add_routes([web.post(f"{http_path_prefix}/{s.__service_name__}", self.services[\'event_service\'].handler)\n                             for s in self.services.values()])')]),
    ('route-noslash', 'C08', [(S, 'web.post(f"{http_path_prefix}/{s', 'web.post(f"{http_path_prefix}{s')]),
    ('prefix-unstripped', '', [(S, 'http_path_prefix = http_path_prefix.rstrip("/")', 'http_path_prefix = http_path_prefix')]),
    ('poll-own-events', 'C08', [(S, "self.services['poll_service'].event_service = self.services['event_service']", "self.services['poll_service'].event_service = EventService(vtn_id)")]),
    ('dup-handler', 'C08', [(R, "@handler('oadrCanceledPartyRegistration')", "@handler('oadrCancelPartyRegistration')")]),
    ('wrong-type', 'C08', [(RS, "@handler('oadrUpdateReport')", "@handler('oadrUpdatedReport')")]),
    ('name', 'C08', [(R, "@service('EiRegisterParty')", "@service('EiRegister')")]),
    ('table-name', 'C08', [(V, "self.handlers[method.__message_type__] = method", "self.handlers[method.__name__] = method")]),
    ('deco-wrong', 'C08', [(D, "decorated_function.__message_type__ = message_type", "decorated_function.__message__ = message_type")]),
    ('client-url', 'C08', [(C, 'url = f"{self.vtn_url}/{service}"', 'url = f"{self.vtn_url}{service}"')]),
    ('client-service', 'C08', [(C, "service = 'EiReport'\n                if", "service = 'EiEvent'\n                if")]) if False else
    ('client-service', 'C08', [(C, "        service = 'EiRegisterParty'\n        message = self._create_message('oadrCancelPartyRegistration'", "        service = 'EiParty'\n        message = self._create_message('oadrCancelPartyRegistration'")]),
    ('map-service', 'C08', [(S, "'on_created_report': 'report_service'", "'on_created_report': 'event_service'")]),
    ('handler-poll-event', 'C08', [(S, "                self.services['event_service'].polling_method = 'external'\n", "")]),
    ('handler-always-external', 'C08', [(S, "if name == 'on_poll':", "if name in ('on_poll', 'on_request_event'):")]),
    ('handler-partial', 'C08', [(S, "setattr(self.services[self._MAP[name]], name, func)", "setattr(self.services['event_service'], name, func)")]),
    ('handler-unknown', 'C08', [(S, "            raise NameError(f\"\"\"Unknown handler '{name}'. \"\"\"\n                            f\"\"\"Correct handler names are: '{\"', '\".join(self._MAP.keys())}'.\"\"\")", "            logger.error('unknown')")]),
    ('ven-handler', 'C08', [(C, "if handler not in ('on_event', 'on_update_event'):", "if handler not in ('on_event',):")]),
    ('ev-type', 'C47', [(S, "if signal_type not in enums.SIGNAL_TYPE.values:", "if signal_type is None:")]),
    ('ev-name', 'C47', [(S, "if signal_name not in enums.SIGNAL_NAME.values and not signal_name.startswith('x-'):", "if signal_name not in enums.SIGNAL_NAME.values and not signal_name:")]),
    ('ev-intervals', 'C47', [(S, "if not intervals or not isinstance(intervals, (list, tuple)) or len(intervals) == 0:", "if not isinstance(intervals, (list, tuple)):")]),
    ('ev-external', 'C47', [(S, "if self.services['event_service'].polling_method == 'external':", "if self.services['event_service'].polling_method == 'custom':")]),
    ('ev-id', 'C47', [(S, "        self.add_raw_event(ven_id=ven_id, event=event, callback=callback, delivery_callback=delivery_callback)\n        return event_id", "        self.add_raw_event(ven_id=ven_id, event=event, callback=callback, delivery_callback=delivery_callback)\n        return event_signal.signal_id")]),
    ('ev-newid', 'C47', [(S, "        event_id = event_id or utils.generate_id()\n\n        if resp", "        event_id = utils.generate_id()\n\n        if resp")]),
    ('ev-targets', 'C47', [(S, "        if target is None and targets is None and targets_by_type is None:\n            targets", "        if target is None and targets_by_type is None:\n            targets")]),
    ('ev-target', 'C47', [(S, "            targets = [target]\n", "            targets = [{'ven_id': ven_id}]\n")]),
    ('ev-naive', 'C47', [(S, "if utils.getmember(interval, 'dtstart').tzinfo is None:", "if interval is intervals[0] and utils.getmember(interval, 'dtstart').tzinfo is None:")]),
    ('ev-naive-utc', 'C47', [(S, "utils.getmember(interval, 'dtstart').astimezone(timezone.utc))", "utils.getmember(interval, 'dtstart').replace(tzinfo=timezone.utc))")]),
    ('ev-ramp', 'C47', [(S, "active_period.notification_period = notification_period", "active_period.notification_period = ramp_up_period")]),
    ('ev-cb', 'C47', [(S, "event=event, callback=callback, delivery_callback=delivery_callback)", "event=event, callback=callback)")]),
    ('ev-resp', 'C47', [(S, "                              response_required=response_required)", "                              response_required='always')")]),
    ('raw-priority', 'C47', [(S, "        if not utils.getmember(event, 'event_descriptor.priority', None):\n            utils", "        if utils.getmember(event, 'event_descriptor.priority', None) != 1:\n            utils")]),
    ('raw-status', 'C47', [(S, "        if not utils.getmember(event, 'event_descriptor.event_status', None):\n            utils.setmember(event, 'event_descriptor.event_status', 'far')", "        utils.setmember(event, 'event_descriptor.event_status', 'far')")]),
    ('raw-late-check', 'C47', [(S, "        if utils.getmember(event, 'response_required') == 'always':\n            if callback is None:", "        self.events_updated[ven_id] = True\n        if utils.getmember(event, 'response_required') == 'always':\n            if callback is None:")]),
    ('raw-cb', 'C47', [(S, "if not all(['ven_id' in args, 'event_id' in args, 'opt_type' in args]):", "if not all(['ven_id' in args, 'event_id' in args]):")]),
    ('opt-type', 'C46', [(C, "        if opt_type not in enums.OPT.values:\n            raise", "        if not opt_type:\n            raise")]),
    ('opt-late', 'C46', [(C, "        # Verify input\n        if opt_type not in", "        self.opts.append(opt_type)\n        if opt_type not in")]),
    ('opt-ack', 'C46', [(C, "            logging.error(f\"VTN did not acknowledge the opt message\")\n            return False", "            logging.error(f\"VTN did not acknowledge the opt message\")\n            return opt_id")]),
    ('opt-event', 'C46', [(C, "            event_id=event_id,\n            modification_number=modification_number,\n            targets", "            event_id=None,\n            modification_number=modification_number,\n            targets")]),
    ('opt-cancel-early', 'C46', [(C, "            logging.error(f\"VTN did not acknowledge the opt cancelation\")\n", "            logging.error(f\"VTN did not acknowledge the opt cancelation\")\n            self.opts.remove(opt)\n")]),
    ('opt-cancel-unknown', 'C46', [(C, "                         f\"{opt_id} was requested for cancellation.\")\n            return False", "                         f\"{opt_id} was requested for cancellation.\")")]),
    ('opt-cancel-keep', 'C46', [(C, "            self.opts.remove(opt)\n            return True", "            return True")]),
]
SAME = [
    ('route-loop', 'C08 C25', [(S, 'self.app.add_routes([web.post(f"{http_path_prefix}/{s.__service_name__}", s.handler)\n                             for s in self.services.values()])', 'for s in self.services.values():\n            self.app.router.add_post(http_path_prefix + "/" + s.__service_name__, s.handler)')]),
    ('table-attr', 'C08', [(V, "            if hasattr(method, '__message_type__'):\n                self.handlers[method.__message_type__] = method", "            message_type = getattr(method, '__message_type__', None)\n            if message_type is not None:\n                self.handlers[message_type] = method")]),
    ('handler-early', 'C08', [(S, "        if name in self._MAP:\n            setattr(self.services[self._MAP[name]], name, func)\n            if name == 'on_poll':\n                self.services['poll_service'].polling_method = 'external'\n                self.services['event_service'].polling_method = 'external'\n        else:\n            raise NameError(f\"\"\"Unknown handler '{name}'. \"\"\"\n                            f\"\"\"Correct handler names are: '{\"', '\".join(self._MAP.keys())}'.\"\"\")", "        if name not in self._MAP:\n            raise NameError(f\"Unknown handler '{name}'.\")\n        service = self.services[self._MAP[name]]\n        setattr(service, name, func)\n        if name == 'on_poll':\n            for key in ('poll_service', 'event_service'):\n                self.services[key].polling_method = 'external'")]),
    ('client-helper', 'C08', [(C, "        message = self._create_message('oadrPoll', ven_id=self.ven_id)\n        response_type, response_payload = await self._perform_request(service, message)\n        return response_type, response_payload", "        return await self._send(service, 'oadrPoll', ven_id=self.ven_id)\n\n    async def _send(self, service, message_type, **payload):\n        message = self._create_message(message_type, **payload)\n        return await self._perform_request(service, message)")]),
    ('ev-check-helper', 'C47', [(S, "        if response_required not in ('always', 'never'):\n            raise ValueError(\"'response_required' should be either 'always' or 'never'; \"\n                             f\"you provided '{response_required}'.\")\n", "        self._check_response_required(response_required)\n"),
        (S, "    def cancel_event(self, ven_id, event_id):", "    @staticmethod\n    def _check_response_required(response_required):\n        if response_required not in ('always', 'never'):\n            raise ValueError('no')\n\n    def cancel_event(self, ven_id, event_id):")]),
    ('ev-targets-else', 'C47', [(S, "        if target is None and targets is None and targets_by_type is None:\n            targets = [{'ven_id': ven_id}]\n        elif target is not None:\n            targets = [target]\n        elif targets_by_type is not None:\n            targets = utils.ungroup_targets_by_type(targets_by_type)\n", "        if target is not None:\n            targets = [target]\n        elif targets_by_type is not None:\n            targets = utils.ungroup_targets_by_type(targets_by_type)\n        elif targets is None:\n            targets = [{'ven_id': ven_id}]\n")]),
    ('ev-naive-var', 'C47', [(S, "            if utils.getmember(interval, 'dtstart').tzinfo is None:\n                utils.setmember(interval, 'dtstart',\n                                utils.getmember(interval, 'dtstart').astimezone(timezone.utc))", "            dtstart = utils.getmember(interval, 'dtstart')\n            if dtstart.tzinfo is None:\n                utils.setmember(interval, 'dtstart', dtstart.astimezone(timezone.utc))")]),
    ('raw-any', 'C47', [(S, "if not all(['ven_id' in args, 'event_id' in args, 'opt_type' in args]):", "if 'ven_id' not in args or 'event_id' not in args or 'opt_type' not in args:")]),
    ('opt-early', 'C46', [(C, "        if 'opt_id' in response_payload:\n            # VTN acknowledged the opt message\n            logging.info(f\"VTN acknowledged the opt message with opt_id {response_payload['opt_id']}\")\n            return response_payload['opt_id']\n        else:\n            logging.error(f\"VTN did not acknowledge the opt message\")\n            return False", "        if 'opt_id' not in response_payload:\n            return False\n        return response_payload['opt_id']")]),
    ('opt-none', 'C46', [(C, "        if not opt:\n            logger.error(f\"A non-existant opt", "        if opt is None:\n            logger.error(f\"A non-existant opt")]),
]
