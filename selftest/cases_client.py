C = 'client.py'
BUGS = [
    ('reg: ids kept on error reply', 'C38', [(C, "        if response_payload['response']['response_code'] != 200:\n            status_code = response_payload['response']['response_code']\n", "        self.registration_id = response_payload.get('registration_id')\n        if response_payload['response']['response_code'] != 200:\n            status_code = response_payload['response']['response_code']\n")]),
    ('reg: refused stays registered', 'C38', [(C, "                         \"Will assume that we are not or no longer registered.\")\n            self.registration_id = None\n", "                         \"Will assume that we are not or no longer registered.\")\n")]),
    ('reg: ven id not updated', 'C38', [(C, "            self.ven_id = response_payload['ven_id']\n        else:", "                self.ven_id = response_payload['ven_id']\n        else:")]),
    ('reg: vtn id not kept', 'C38', [(C, "            self.vtn_id = response_payload.get('vtn_id')\n", "")]),
    ('reg: poll freq only first time', 'C38', [(C, "            self.poll_frequency = response_payload.get('requested_oadr_poll_freq',\n                                                       timedelta(seconds=10))\n", "            self.poll_frequency = self.poll_frequency or response_payload.get('requested_oadr_poll_freq',\n                                                       timedelta(seconds=10))\n")]),
    ('cancel: on any code', 'C38', [(C, "if response_type == 'oadrCanceledPartyRegistration' and response_payload['response']['response_code'] == 200:", "if response_type == 'oadrCanceledPartyRegistration':")]),
    ('cancel: jobs stay', 'C38', [(C, "                self.report_queue_task.cancel()\n            self.scheduler.remove_all_jobs()\n        else:", "                self.report_queue_task.cancel()\n        else:")]),
    ('vtn cancel: mismatch resets', 'C38', [(C, "                response_type, response_payload = await self._perform_request(service, message)\n                logger.info(response_type, response_payload)\n\n                return\n", "                response_type, response_payload = await self._perform_request(service, message)\n                logger.info(response_type, response_payload)\n                self.registration_id = None\n                return\n")]),
    ('vtn cancel: not confirmed first', 'C38', [(C, "        response_type, response_payload = await self._perform_request(service, message)\n        self.registration_id = None\n", "        response_type, response_payload = await self._perform_request(service, message)\n        if response_type is not None:\n            self.registration_id = None\n")]),
    ('vtn cancel: requests stay', 'C38', [(C, "        self.report_requests = []\n        self.incomplete_reports = {}\n        self.pending_reports = asyncio.Queue()\n        if self.report_queue_task:\n            self.report_queue_task.cancel()\n        self.scheduler.remove_all_jobs()\n\n        message", "        self.incomplete_reports = {}\n        self.pending_reports = asyncio.Queue()\n        if self.report_queue_task:\n            self.report_queue_task.cancel()\n        self.scheduler.remove_all_jobs()\n\n        message")]),
    ('run: no check', 'C37', [(C, "        if registration is None or not self.registration_id:\n            logger.error(\"No RegistrationID received from the VTN, aborting.\")\n            await self.stop()\n            return\n", "        if registration is None or not self.registration_id:\n            logger.error(\"No RegistrationID received from the VTN, aborting.\")\n            await self.stop()\n")]),
    ('run: only registration_id', 'C37', [(C, "if registration is None or not self.registration_id:", "if not self.registration_id:")]),
    ('run: no worker', 'C37', [(C, "        if self.reports:\n            self.report_queue_task = self.loop.create_task(self._report_queue_worker())\n\n        # Perform initial event sync\n        await self.sync_events()\n\n        # Perform an initial poll", "        # Perform initial event sync\n        await self.sync_events()\n\n        # Perform an initial poll")]),
    ('run: poll limit the wrong way', 'C37', [(C, "if self.poll_frequency > timedelta(hours=24):", "if self.poll_frequency < timedelta(hours=24):")]),
    ('run: seconds attribute', 'C37', [(C, "seconds=self.poll_frequency.total_seconds())", "seconds=self.poll_frequency.seconds)")]),
    ('run: no limit', 'C37', [(C, "            self.poll_frequency = timedelta(hours=24)\n", "            pass\n")]),
    ('rereg: second worker', 'C37', [(C, "if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):", "if self.reports:")]),
    ('rereg: no worker after cancel', 'C37', [(C, "if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):", "if self.reports and self.report_queue_task is None:")]),
    ('rereg: continues unregistered', 'C37', [(C, "        await self.create_party_registration(ven_id=self.ven_id, registration_id=registration_id)\n\n        if not self.registration_id:", "        await self.create_party_registration(ven_id=self.ven_id, registration_id=registration_id)\n\n        if not self.ven_id:")]),
    ('rereg: no sync', 'C37', [(C, "            self.report_queue_task = self.loop.create_task(self._report_queue_worker())\n\n        # Perform initial event sync\n        await self.sync_events()\n\n    async def cancel", "            self.report_queue_task = self.loop.create_task(self._report_queue_worker())\n\n    async def cancel")]),
    ('hooks: not awaited', 'C39', [(C, "await utils.await_if_required(hook(*args, **kwargs))", "hook(*args, **kwargs)")]),
    ('hooks: try outside loop', 'C39', [(C, """        for hook in self.hooks[hook_name]:
            try:
                await utils.await_if_required(hook(*args, **kwargs))
            except Exception as err:
                logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                             f"{err.__class__.__name__}: {err}")
""", """        try:
            for hook in self.hooks[hook_name]:
                await utils.await_if_required(hook(*args, **kwargs))
        except Exception as err:
            logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                         f"{err.__class__.__name__}: {err}")
""")]),
    ('hooks: await outside try', 'C39', [(C, """            try:
                await utils.await_if_required(hook(*args, **kwargs))
            except Exception as err:
                logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                             f"{err.__class__.__name__}: {err}")
""", """            try:
                result = hook(*args, **kwargs)
            except Exception as err:
                logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                             f"{err.__class__.__name__}: {err}")
            else:
                await utils.await_if_required(result)
""")]),
    ('hooks: parse hook before validation', 'C39', [(C, "            tree = validate_xml_schema(content)\n", "            await self._execute_hooks('before_parse_xml', utils.ensure_str(content))\n            tree = validate_xml_schema(content)\n"), (C, "                validate_xml_signature(tree, cert_fingerprint=self.vtn_fingerprint)\n            await self._execute_hooks('before_parse_xml', utils.ensure_str(content))\n", "                validate_xml_signature(tree, cert_fingerprint=self.vtn_fingerprint)\n")]),
    ('hooks: only first vtn hook', 'C39', [('hooks.py', "            loop.create_task(result)\n", "            loop.create_task(result)\n            break\n")]),
    ('hooks: vtn coroutine dropped', 'C39', [('hooks.py', "        if asyncio.iscoroutine(result):\n", "        if asyncio.iscoroutinefunction(result):\n")]),
    ('request: narrow except', 'C40', [(C, "        except Exception as err:\n            logger.error(f\"Request error {err.__class__.__name__}:{err}\")\n            return None, {}\n", "")]),
    ('request: parse outside', 'C40', [(C, """        except Exception as err:
            logger.error(f"The incoming message could not be parsed or validated: {err}")
            return None, {}
""", "")]),
    ('request: returns None', 'C40', [(C, "            logger.warning(\"Incoming message had invalid signature, ignoring.\")\n            return None, {}\n", "            logger.warning(\"Incoming message had invalid signature, ignoring.\")\n            return\n")]),
    ('request: empty body', 'C40', [(C, "        if len(content) == 0:\n            return None, {}\n", "        if len(content) == 0:\n            return None\n")]),
    ('request: status not checked', 'C40', [(C, "                if req.status != HTTPStatus.OK:\n", "                if req.status == HTTPStatus.FORBIDDEN:\n")]),
    ('request: url', 'C40', [(C, '        url = f"{self.vtn_url}/{service}"\n', '        url = f"{self.vtn_url}/{service[:6]}" if service == \'EiEvent\' else f"{self.vtn_url}/EiEvent"\n')]),
    ('caller: reply unchecked', 'C40', [(C, "        if response_type is None:\n            return\n        if response_payload['response']['response_code'] != 200:", "        if response_payload['response']['response_code'] != 200:")]),
    ('caller: sync unchecked', 'C40', [(C, "        if 'events' in response_payload and len(response_payload['events']) > 0:\n            await self._on_event(response_payload)\n\n    ####", "        if len(response_payload['events']) > 0:\n            await self._on_event(response_payload)\n\n    ####")]),
    ('poll: cancel report ignored', 'C41', [(C, "        elif response_type == 'oadrCancelReport':\n            logger.info(\"The VTN required us to cancel a report. Calling the cancel report procedure.\")\n            await self.cancel_report(response_payload)\n", "        elif response_type == 'oadrCancelReport':\n            logger.info(\"The VTN required us to cancel a report. Calling the cancel report procedure.\")\n")]),
    ('poll: not awaited', 'C41', [(C, "            await self.on_cancel_party_registration(response_payload)\n", "            self.on_cancel_party_registration(response_payload)\n")]),
    ('poll: typo in type', 'C41', [(C, "elif response_type == 'oadrCancelPartyRegistration':", "elif response_type == 'oadrCanceledPartyRegistration':")]),
    ('poll: rereg before ack', 'C41', [(C, "            await self.send_response(service='EiRegisterParty')\n            await self.create_party_reregistration()\n", "            await self.create_party_reregistration()\n")]),
    ('poll: only many events', 'C41', [(C, "        elif response_type == 'oadrDistributeEvent':\n            if 'events' in response_payload and len(response_payload['events']) > 0:", "        elif response_type == 'oadrDistributeEvent':\n            if 'events' in response_payload and len(response_payload['events']) > 1:")]),
    ('poll: without ven id', 'C41', [(C, "message = self._create_message('oadrPoll', ven_id=self.ven_id)", "message = self._create_message('oadrPoll', ven_id=self.ven_name)")]),
    ('stop: session', 'C42', [(C, "        if self.client_session:\n            await self.client_session.close()\n", "        if self.client_session and self.scheduler.running:\n            await self.client_session.close()\n")]),
    ('stop: early return', 'C42', [(C, "        if self.scheduler.running:\n            self.scheduler.shutdown()\n", "        if not self.scheduler.running:\n            return\n        self.scheduler.shutdown()\n")]),
    ('stop: worker', 'C42', [(C, "        if self.report_queue_task:\n            self.report_queue_task.cancel()\n        if self.client_session", "        if self.client_session")]),
    ('session: every time', 'C42', [(C, "        if not self.client_session:\n            headers", "        if self.cert_path or not self.client_session:\n            headers")]),
]
SAME = [
    ('reg: get and helper', 'C37 C38 C40', [(C, """        if response_payload.get('registration_id'):
            self.registration_id = response_payload['registration_id']
        else:
            logger.error("No registration ID received from the VTN during registration. "
                         "Will assume that we are not or no longer registered.")
            self.registration_id = None
""", """        self._take_registration(response_payload.get('registration_id'))
"""), (C, "    async def create_party_reregistration(", """    def _take_registration(self, registration_id):
        if not registration_id:
            logger.error("No registration ID received from the VTN during registration. "
                         "Will assume that we are not or no longer registered.")
            self.registration_id = None
        else:
            self.registration_id = registration_id

    async def create_party_reregistration(""")]),
    ('reset helper', 'C38', [(C, """            self.registration_id = None
            self.reports = []
            self.report_callbacks = {}
            self.report_requests = []
            self.incomplete_reports = {}
            self.pending_reports = asyncio.Queue()
            if self.report_queue_task:
                self.report_queue_task.cancel()
            self.scheduler.remove_all_jobs()
""", "            self.registration_id = None\n            self._reset()\n"), (C, """        self.reports = []
        self.report_callbacks = {}
        self.report_requests = []
        self.incomplete_reports = {}
        self.pending_reports = asyncio.Queue()
        if self.report_queue_task:
            self.report_queue_task.cancel()
        self.scheduler.remove_all_jobs()

        message""", "        self._reset()\n        message"), (C, "    async def create_party_reregistration(", """    def _reset(self):
        self.scheduler.remove_all_jobs()
        if self.report_queue_task is not None:
            self.report_queue_task.cancel()
        self.reports.clear()
        self.report_callbacks = dict()
        self.report_requests = list()
        self.incomplete_reports.clear()
        self.pending_reports = asyncio.Queue()

    async def create_party_reregistration(""")]),
    ('run: helper and min', 'C37', [(C, """        if self.poll_frequency > timedelta(hours=24):
            logger.warning("Polling with intervals of more than 24 hours is not supported. "
                           "Will use 24 hours as the polling interval.")
            self.poll_frequency = timedelta(hours=24)

        self.scheduler.add_job(self._poll,
                               trigger='interval',
                               seconds=self.poll_frequency.total_seconds())
""", """        self.poll_frequency = min(self.poll_frequency, timedelta(days=1))
        self.scheduler.add_job(self._poll, 'interval', seconds=self.poll_frequency.total_seconds())
""")]),
    ('run: jobs helper', 'C37', [(C, """        self.scheduler.add_job(self._poll,
                               trigger='interval',
                               seconds=self.poll_frequency.total_seconds())
""", """        self._every(self._poll, self.poll_frequency.total_seconds())
"""), (C, "    async def create_party_reregistration(", """    def _every(self, func, period):
        self.scheduler.add_job(func, trigger='interval', seconds=period)

    async def create_party_reregistration(""")]),
    ('hooks: asyncio style', 'C39', [(C, "                await utils.await_if_required(hook(*args, **kwargs))\n", "                result = hook(*args, **kwargs)\n                if asyncio.iscoroutine(result):\n                    await result\n")]),
    ('hooks: helper', 'C39', [(C, """            try:
                await utils.await_if_required(hook(*args, **kwargs))
            except Exception as err:
                logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                             f"{err.__class__.__name__}: {err}")
""", "            await self._run_hook(hook_name, hook, *args, **kwargs)\n"), (C, "    async def _on_event(self", """    async def _run_hook(self, hook_name, hook, *args, **kwargs):
        try:
            await utils.await_if_required(hook(*args, **kwargs))
        except Exception as err:
            logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                         f"{err.__class__.__name__}: {err}")

    async def _on_event(self""")]),
    ('poll: table of handlers', 'C41', [(C, """        elif response_type == 'oadrCancelPartyRegistration':
            logger.info("The VTN required us to cancel the registration. Calling the cancel party registration procedure.")
            await self.on_cancel_party_registration(response_payload)

        elif response_type == 'oadrCancelReport':
            logger.info("The VTN required us to cancel a report. Calling the cancel report procedure.")
            await self.cancel_report(response_payload)
""", """        elif response_type in ('oadrCancelPartyRegistration', 'oadrCancelReport'):
            await {'oadrCancelPartyRegistration': self.on_cancel_party_registration,
                   'oadrCancelReport': self.cancel_report}[response_type](response_payload)
""")]),
    ('poll: inline poll and events helper', 'C41', [(C, "        elif response_type == 'oadrDistributeEvent':\n            if 'events' in response_payload and len(response_payload['events']) > 0:\n                await self._on_event(response_payload)\n", "        elif response_type == 'oadrDistributeEvent':\n            await self._take_events(response_payload)\n"), (C, "    async def _on_event(self", """    async def _take_events(self, payload):
        if not payload.get('events'):
            return
        await self._on_event(payload)

    async def _on_event(self""")]),
    ('sync: get', 'C40 C41', [(C, "        if 'events' in response_payload and len(response_payload['events']) > 0:\n            await self._on_event(response_payload)\n\n    ####", "        if response_payload.get('events'):\n            await self._on_event(response_payload)\n\n    ####")]),
    ('stop: order', 'C42', [(C, "        if self.scheduler.running:\n            self.scheduler.shutdown()\n        if self.report_queue_task:\n            self.report_queue_task.cancel()\n", "        if self.report_queue_task is not None:\n            self.report_queue_task.cancel()\n        if self.scheduler.running:\n            self.scheduler.shutdown(wait=False)\n")]),
    ('request: one handler', 'C03 C04 C39 C40', [(C, """        except aiohttp.client_exceptions.ClientConnectorError as err:
            # Could not connect to server
            logger.error(f"Could not connect to server with URL {self.vtn_url}:")
            logger.error(f"{err.__class__.__name__}: {str(err)}")
            return None, {}
        except Exception as err:""", "        except Exception as err:")]),
    ('request: receive helper', 'C03 C04 C39 C40', [(C, """            await self._execute_hooks('before_send_xml', utils.ensure_str(message))
            async with self.client_session.post(url, data=message) as req:
                content = await req.read()
                await self._execute_hooks('after_receive_xml', utils.ensure_str(content))
                if req.status != HTTPStatus.OK:
                    logger.warning(f"Non-OK status {req.status} when performing a request to {url} "
                                   f"with data {message}: {req.status} {content.decode('utf-8')}")
                    return None, {}
""", """            content = await self._exchange(url, message)
            if content is None:
                return None, {}
"""), (C, "    async def _execute_hooks(self", """    async def _exchange(self, url, message):
        await self._execute_hooks('before_send_xml', utils.ensure_str(message))
        async with self.client_session.post(url, data=message) as req:
            content = await req.read()
            await self._execute_hooks('after_receive_xml', utils.ensure_str(content))
            if req.status == HTTPStatus.OK:
                return content
            logger.warning(f"Non-OK status {req.status}")
            return None

    async def _execute_hooks(self""")]),
]
