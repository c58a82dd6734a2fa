C = 'client.py'
R = 'service/report_service.py'
BUGS = [
    # C30
    ('cr: shared r_ids', 'C30', [(C, "        response_code = 200\n\n        for report_request in response_payload['report_requests']:\n            single = False\n            requested_r_ids = []\n", "        response_code = 200\n        requested_r_ids = []\n\n        for report_request in response_payload['report_requests']:\n            single = False\n")]),
    ('cr: single sticks', 'C30', [(C, "        response_code = 200\n\n        for report_request in response_payload['report_requests']:\n            single = False\n", "        response_code = 200\n        single = False\n\n        for report_request in response_payload['report_requests']:\n")]),
    ('cr: job lost', 'C30', [(C, "                                                    'granularity': granularity,\n                                                    'job': job})", "                                                    'granularity': granularity,\n                                                    'job': None})")]),
    ('cr: job for specifier', 'C30', [(C, "callback = partial(self.update_report, report_request_id=report_request_id)\n                        \n", "callback = partial(self.update_report, report_request_id=report_specifier_id)\n                        \n")]),
    ('cr: entry after update', 'C30', [(C, """                        self.report_requests.append({'report_request_id': report_request_id,
                                                    'report_specifier_id': report_specifier_id,
                                                    'report_back_duration': report_back_duration,
                                                    'r_ids': requested_r_ids,
                                                    'granularity': granularity,
                                                    'job': None})
                    
""", ""), (C, "                            await self.update_report(report_request_id)\n        \n", """                            await self.update_report(report_request_id)
                        self.report_requests.append({'report_request_id': report_request_id,
                                                    'report_specifier_id': report_specifier_id,
                                                    'report_back_duration': report_back_duration,
                                                    'r_ids': requested_r_ids,
                                                    'granularity': granularity,
                                                    'job': None})
        
""")]),
    ('cr: also at once', 'C30', [(C, "run_date=report_request['report_specifier']['report_interval']['dtstart'])\n                        else:\n                            await", "run_date=report_request['report_specifier']['report_interval']['dtstart'])\n                        if True:\n                            await")]),
    ('cr: at back duration', 'C30', [(C, "reporting_interval = granularity or report_back_duration", "reporting_interval = report_back_duration or granularity")]),
    ('cr: code of last', 'C30', [(C, "            else:\n                # Get the relevant variables from the report requests\n", "            else:\n                response_code = 200\n                # Get the relevant variables from the report requests\n"), (C, "response_code = enums.STATUS_CODES.INVALID_ID\n            else:", "response_code = 200\n            else:")]),
    ('cr: answer per request', 'C30', [(C, "        # Send the oadrCreatedReport message\n        message_type = 'oadrCreatedReport'\n", "        if not self.report_requests:\n            return\n        # Send the oadrCreatedReport message\n        message_type = 'oadrCreatedReport'\n")]),
    ('cr: own request id', 'C30', [(C, "'request_id': response_payload['request_id'] if 'request_id' in response_payload else\\\n                                                                  response_payload['response']['request_id']}", "'request_id': utils.generate_id()}")]),
    ('cr: pending only known', 'C30', [(C, "                            for report in response_payload['report_requests']]}\n        message = self._create_message(message_type,\n                                        response", "                            for report in response_payload['report_requests'][:1]]}\n        message_payload = {'pending_reports': []}\n        message = self._create_message(message_type,\n                                        response")]),
    ('cr: single every time', 'C30', [(C, "                    if not single and report_back_duration.total_seconds() > 0:", "                    if report_back_duration.total_seconds() > 0:")]),
    ('cr: periodic never', 'C30', [(C, "                    if not single and report_back_duration.total_seconds() > 0:", "                    if not single and report_back_duration.total_seconds() > 60:")]),
    # C31
    ('rid: unknown taken', 'C31', [(C, "                                        f\"was requested.\")\n                            continue\n", "                                        f\"was requested.\")\n")]),
    ('rid: unit ignored', 'C31', [(C, """                                            f"by the VTN. Offered: {rd.measurement.unit}, "
                                            f"requested: {measurement['unit']}")
                                continue
""", """                                            f"by the VTN. Offered: {rd.measurement.unit}, "
                                            f"requested: {measurement['unit']}")
""")]),
    ('rid: upper bound', 'C31', [(C, "elif not rd.sampling_rate.min_period <= granularity <= rd.sampling_rate.max_period:", "elif not rd.sampling_rate.min_period <= granularity:")]),
    ('rid: open bound', 'C31', [(C, "elif not rd.sampling_rate.min_period <= granularity <= rd.sampling_rate.max_period:", "elif not rd.sampling_rate.min_period < granularity <= rd.sampling_rate.max_period:")]),
    ('rid: break at first', 'C31', [(C, "                                        f\"was requested.\")\n                            continue\n", "                                        f\"was requested.\")\n                            break\n")]),
    ('rid: taken early', 'C31', [(C, "                        if granularity is not None:\n                            if granularity == timedelta(0):", "                        requested_r_ids.append(r_id)\n                        if granularity is not None:\n                            if granularity == timedelta(0):"), (C, "                            granularity = rd.sampling_rate.max_period\n\n                        requested_r_ids.append(r_id)\n", "                            granularity = rd.sampling_rate.max_period\n")]),
    ('rid: wrong rd', 'C31', [(C, "rd = utils.find_by(report.report_descriptions, 'r_id', r_id)", "rd = report.report_descriptions[0]")]),
    # C32
    ('ur: last value only', 'C32', [(C, "                for dt, value in result:\n                    report_payload = objects.ReportPayload(r_id=r_id, value=value)\n                    intervals.append(objects.ReportInterval(dtstart=dt,\n                                                            report_payload=report_payload))\n\n", "                for dt, value in result:\n                    report_payload = objects.ReportPayload(r_id=r_id, value=value)\n                if result:\n                    intervals.append(objects.ReportInterval(dtstart=dt,\n                                                            report_payload=report_payload))\n\n")]),
    ('ur: not awaited full', 'C32', [(C, "                                         sampling_interval=granularity)\n                if asyncio.iscoroutine(result):\n                    result = await result\n", "                                         sampling_interval=granularity)\n")]),
    ('ur: request r_id', 'C32', [(C, "                    for dt, value in result:\n                        logger.info(f\"Adding {dt}, {value} to report\")\n                        report_payload = objects.ReportPayload(r_id=r_id, value=value)", "                    for dt, value in result:\n                        logger.info(f\"Adding {dt}, {value} to report\")\n                        report_payload = objects.ReportPayload(r_id=report_request['r_ids'][0], value=value)")]),
    ('ur: samples late', 'C32', [(C, "if len(outgoing_report.intervals) >= expected_len:", "if len(outgoing_report.intervals) > expected_len:")]),
    ('ur: not forgotten', 'C32', [(C, "                self.incomplete_reports.pop(report_request_id, None)\n", "")]),
    ('ur: expected without rids', 'C32', [(C, "expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)", "expected_len = int(report_interval / sampling_interval)")]),
    ('ur: kept by specifier', 'C32', [(C, "                self.incomplete_reports[report_request_id] = outgoing_report\n", "                self.incomplete_reports[report_specifier_id] = outgoing_report\n")]),
    ('ur: naive time', 'C32', [(C, "result = [(datetime.now(timezone.utc), result)]", "result = [(datetime.now(), result)]")]),
    ('ur: kept and sent', 'C32', [(C, "                self.incomplete_reports[report_request_id] = outgoing_report\n", "                self.incomplete_reports[report_request_id] = outgoing_report\n                await self.pending_reports.put(outgoing_report)\n")]),
    ('ur: put not awaited', 'C32', [(C, "            logger.info(\"Report will be sent now.\")\n            await self.pending", "            logger.info(\"Report will be sent now.\")\n            self.pending")]),
    ('ur: callback by rid', 'C32', [(C, "                    report_callback = self.report_callbacks[(report_specifier_id, r_id)]\n                    result = report_callback()", "                    report_callback = next(cb for (_, rid), cb in self.report_callbacks.items() if rid == r_id)\n                    result = report_callback()")]),
    ('ur: bare truthy', 'C32', [(C, "                    if isinstance(result, (int, float)):\n", "                    if isinstance(result, (int, float)) and result:\n")]),
    ('ur: early in progress lost', 'C32', [(C, "            outgoing_report = self.incomplete_reports[report_request_id]\n", "            outgoing_report = objects.Report(report_request_id=report_request_id, report_specifier_id=report.report_specifier_id, report_name=report.report_name, intervals=[])\n")]),
    # C33
    ('qw: dies', 'C33', [(C, "                except Exception as err:\n                    logger.error(f\"Unable to send the report to the VTN. Error: {err}\")\n", "                except asyncio.TimeoutError as err:\n                    logger.error(f\"Unable to send the report to the VTN. Error: {err}\")\n")]),
    ('qw: break', 'C33', [(C, "                    logger.error(f\"Unable to send the report to the VTN. Error: {err}\")\n", "                    logger.error(f\"Unable to send the report to the VTN. Error: {err}\")\n                    break\n")]),
    ('qw: build outside', 'C33', [(C, """                try:
                    message = self._create_message('oadrUpdateReport',
                                                   ven_id=self.ven_id,
                                                   request_id=utils.generate_id(),
                                                   reports=[report])
                    response_type""", """                message = self._create_message('oadrUpdateReport',
                                               ven_id=self.ven_id,
                                               request_id=utils.generate_id(),
                                               reports=[report])
                try:
                    response_type""")]),
    ('qw: batch', 'C33', [(C, "                report = await self.pending_reports.get()\n                service = 'EiReport'\n", "                report = await self.pending_reports.get()\n                more = []\n                while not self.pending_reports.empty():\n                    more.append(await self.pending_reports.get())\n                service = 'EiReport'\n")]),
    ('qw: cancel ignored', 'C33', [(C, "                    if 'cancel_report' in response_payload:\n                        await self.cancel_report(response_payload['cancel_report'])\n", "")]),
    ('qw: cancel whole', 'C33', [(C, "await self.cancel_report(response_payload['cancel_report'])\n                except", "await self.cancel_report(response_payload)\n                except")]),
    ('qw: request id once', 'C33', [(C, "            while True:\n                report = await self.pending_reports.get()", "            request_id = utils.generate_id()\n            while True:\n                report = await self.pending_reports.get()"), (C, "request_id=utils.generate_id(),\n                                                   reports=[report])", "request_id=request_id,\n                                                   reports=[report])")]),
    # C36
    ('xr: job stays', 'C36', [(C, "            if report_request['job']:\n                report_request['job'].remove()\n", "")]),
    ('xr: job of incomplete only', 'C36', [(C, "            if report_request['job']:\n", "            if report_request['job'] and report_request_id in self.incomplete_reports:\n")]),
    ('xr: dropped first', 'C36', [(C, "        if report_request:\n            if len(report_request['r_ids']) > 0:", "        if report_request:\n            self.report_requests.remove(report_request)\n            if len(report_request['r_ids']) > 0:"), (C, "            self.report_requests.remove(report_request)\n            await", "            await")]),
    ('xr: kept', 'C36', [(C, "            self.report_requests.remove(report_request)\n", "")]),
    ('xr: not told', 'C36', [(C, "            self.report_requests.remove(report_request)\n            await self._perform_request(service, message)\n", "            self.report_requests.remove(report_request)\n            if payload['report_to_follow']:\n                await self._perform_request(service, message)\n")]),
    ('xr: pending always', 'C36', [(C, "                                            ven_id=self.ven_id,\n                                            report_request_id=report_request_id)\n            self.report", "                                            ven_id=self.ven_id, pending_reports=[{'report_request_id': report_request_id}],\n                                            report_request_id=report_request_id)\n            self.report")]),
    ('xr: request id', 'C36', [(C, "                        'response_description': 'OK',\n                        'request_id': payload['request_id']}", "                        'response_description': 'OK',\n                        'request_id': report_request_id}")]),
    ('xr: no last', 'C36', [(C, "            if len(report_request['r_ids']) > 0:\n", "            if report_request['job'] is None:\n")]),
]
SAME = [
    ('cr: entry var', 'C30 C31', [(C, """                        self.report_requests.append({'report_request_id': report_request_id,
                                                    'report_specifier_id': report_specifier_id,
                                                    'report_back_duration': report_back_duration,
                                                    'r_ids': requested_r_ids,
                                                    'granularity': granularity,
                                                    'job': job})
                    else:""", """                        entry = {'report_request_id': report_request_id}
                        entry['report_specifier_id'] = report_specifier_id
                        entry.update(report_back_duration=report_back_duration, r_ids=requested_r_ids, granularity=granularity)
                        entry['job'] = job
                        self.report_requests.append(entry)
                    else:""")]),
    ('cr: helper for request', 'C30 C31', [(C, """                        callback = partial(self.update_report, report_request_id=report_request_id)
                        
                        reporting_interval = granularity or report_back_duration
                        job = self.scheduler.add_job(func=callback,
                                                    trigger='cron',
                                                    **utils.cron_config(reporting_interval))
""", "                        job = self._schedule_report(report_request_id, granularity or report_back_duration)\n"),
        (C, "    async def update_report(self, report_request_id):", """    def _schedule_report(self, request_id, interval):
        config = utils.cron_config(interval)
        return self.scheduler.add_job(partial(self.update_report, report_request_id=request_id), 'cron', **config)

    async def update_report(self, report_request_id):""")]),
    ('cr: pending loop', 'C30', [(C, "        message_payload = {'pending_reports':\n                        [{'report_request_id': utils.getmember(report, 'report_request_id')}\n                            for report in response_payload['report_requests']]}\n", "        pending = []\n        for requested in response_payload['report_requests']:\n            pending.append({'report_request_id': requested['report_request_id']})\n        message_payload = {'pending_reports': pending}\n")]),
    ('rid: helper', 'C31 C30', [(C, """                        if 'measurement' in specifier_payload:
                            measurement = specifier_payload['measurement']
                            if measurement['description'] != rd.measurement.description:""", """                        if not self._rid_ok(rd, specifier_payload):
                            continue
                        if False:
                            measurement = specifier_payload['measurement']
                            if measurement['description'] != rd.measurement.description:"""),
        (C, "    async def update_report(self, report_request_id):", """    def _rid_ok(self, rd, specifier_payload):
        measurement = specifier_payload.get('measurement')
        if measurement is None:
            return True
        return measurement['description'] == rd.measurement.description and measurement['unit'] == rd.measurement.unit

    async def update_report(self, report_request_id):""")]),
    ('rid: two comparisons', 'C31', [(C, "elif not rd.sampling_rate.min_period <= granularity <= rd.sampling_rate.max_period:", "elif granularity < rd.sampling_rate.min_period or granularity > rd.sampling_rate.max_period:")]),
    ('rid: period vars', 'C31', [(C, "elif not rd.sampling_rate.min_period <= granularity <= rd.sampling_rate.max_period:", "elif not (granularity >= rd.sampling_rate.min_period and rd.sampling_rate.max_period >= granularity):")]),
    ('ur: comprehension', 'C32', [(C, "                for dt, value in result:\n                    report_payload = objects.ReportPayload(r_id=r_id, value=value)\n                    intervals.append(objects.ReportInterval(dtstart=dt,\n                                                            report_payload=report_payload))\n", "                intervals.extend([objects.ReportInterval(dtstart=dt, report_payload=objects.ReportPayload(r_id=r_id, value=value)) for dt, value in result])\n")]),
    ('ur: helper callback', 'C32', [(C, """                    result = report_callback()
                    if asyncio.iscoroutine(result):
                        result = await result
""", "                    result = await utils.await_if_required(report_callback())\n")]),
    ('ur: if order', 'C32', [(C, """            if len(outgoing_report.intervals) >= expected_len:
                logger.info("The report is now complete with all the values. Will queue for sending.")
                self.incomplete_reports.pop(report_request_id, None)
                await self.pending_reports.put(outgoing_report)
            else:
                logger.debug("The report is not yet complete, will hold until it is.")
                self.incomplete_reports[report_request_id] = outgoing_report
""", """            if len(intervals) < expected_len:
                self.incomplete_reports[report_request_id] = outgoing_report
                return
            if report_request_id in self.incomplete_reports:
                del self.incomplete_reports[report_request_id]
            await self.pending_reports.put(outgoing_report)
""")]),
    ('ur: get in progress', 'C32', [(C, "        if report_request_id in self.incomplete_reports:\n            logger.debug(\"We were already compiling this report\")\n            outgoing_report = self.incomplete_reports[report_request_id]\n        else:", "        outgoing_report = self.incomplete_reports.get(report_request_id)\n        if outgoing_report is None:")]),
    ('ur: queue helper', 'C32', [(C, "            logger.info(\"Report will be sent now.\")\n            await self.pending_reports.put(outgoing_report)\n", "            await self._queue_report(outgoing_report)\n\n    async def _queue_report(self, report):\n        await self.pending_reports.put(report)\n")]),
    ('qw: helper', 'C33', [(C, """                    message = self._create_message('oadrUpdateReport',
                                                   ven_id=self.ven_id,
                                                   request_id=utils.generate_id(),
                                                   reports=[report])
                    response_type, response_payload = await self._perform_request(service, message)
                    if 'cancel_report' in response_payload:
                        await self.cancel_report(response_payload['cancel_report'])
""", "                    await self._send_report(report)\n"), (C, "    async def _report_queue_worker(self):", """    async def _send_report(self, report):
        payload = {'ven_id': self.ven_id, 'request_id': utils.generate_id(), 'reports': [report]}
        message = self._create_message('oadrUpdateReport', **payload)
        _, reply = await self._perform_request('EiReport', message)
        cancellation = reply.get('cancel_report')
        if cancellation:
            await self.cancel_report(cancellation)

    async def _report_queue_worker(self):""")]),
    ('qw: reraise', 'C33', [(C, "        except asyncio.CancelledError:\n            return\n\n    ####", "        except asyncio.CancelledError:\n            raise\n\n    ####")]),
    ('xr: early return', 'C36', [(C, "        if report_request:\n            if len(report_request['r_ids']) > 0:", "        if not report_request:\n            logger.error('not found')\n            return\n        if True:\n            if report_request['r_ids']:")]),
    ('xr: filter', 'C36', [(C, "            self.report_requests.remove(report_request)\n", "            self.report_requests = [r for r in self.report_requests if r is not report_request]\n")]),
    ('xr: payload dict', 'C36', [(C, "            if payload['report_to_follow'] == True:", "            if payload['report_to_follow']:")]),
    ('xr: job is not None', 'C36', [(C, "            if report_request['job']:\n", "            if report_request['job'] is not None:\n")]),
]
