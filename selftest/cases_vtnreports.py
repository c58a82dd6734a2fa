R = 'service/report_service.py'
U = 'utils.py'
BUGS = [
    # C34
    ('vr: only rid', 'C34', [(R, "self.report_callbacks[(report_request_id, r_id)](values)", "next(cb for (q, r), cb in self.report_callbacks.items() if r == r_id)(values)")]),
    ('vr: break after first', 'C34', [(R, "                    if iscoroutine(result):\n                        result = await result\n\n", "                    if iscoroutine(result):\n                        result = await result\n                    break\n\n")]),
    ('vr: unawaited', 'C34', [(R, "(values)\n                    if iscoroutine(result):\n                        result = await result\n", "(values)\n")]),
    ('vr: last value', 'C34', [(R, "for ri in values]\n", "for ri in values[-1:]]\n")]),
    ('vr: all values', 'C34', [(R, "for ri in values]\n", "for ri in report['intervals']]\n")]),
    ('vr: reversed', 'C34', [(R, "for ri in values]\n", "for ri in reversed(values)]\n")]),
    ('vr: return early', 'C34', [(R, "                    result = await result\n                continue\n", "                    result = await result\n                break\n")]),
    ('vr: first report only', 'C34', [(R, "for report in payload.get('reports', []):\n            report_request_id", "for report in payload.get('reports', [])[:1]:\n            report_request_id")]),
    ('vr: swap pair', 'C34', [(R, "(ri['dtstart'], ri['report_payload']['value'])", "(ri['report_payload']['value'], ri['dtstart'])")]),
    ('vr: subscript', 'C34', [(R, "                if (report_request_id, r_id) in self.report_callbacks:\n", "                if r_id in [k[1] for k in self.report_callbacks]:\n")]),
    ('vr: pop callback', 'C34', [(R, "self.report_callbacks[(report_request_id, r_id)](values)", "self.report_callbacks.pop((report_request_id, r_id))(values)")]),
    # C35
    ('rr: last granularity', 'C35', [(R, "granularity=granularity,", "granularity=sampling_interval,")]),
    ('rr: max', 'C35', [(R, "            granularity = min(rrq[2] for rrq in report_request if rrq is not None)\n", "            granularity = max(rrq[2] for rrq in report_request if rrq is not None)\n")]),
    ('rr: spec of first', 'C35', [(R, "orig_report = payload['reports'][i]", "orig_report = payload['reports'][0]")]),
    ('rr: no placeholder', 'C35', [(R, "            elif report['report_name'] in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):\n                report_requests.append(None)\n", "            elif report['report_name'] in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):\n")]),
    ('rr: no placeholder 2', 'C35', [(R, "                               f\"Skipping report with name {report['report_name']}.\")\n                report_requests.append(None)\n", "                               f\"Skipping report with name {report['report_name']}.\")\n")]),
    ('rr: compress', 'C35', [(R, "        utils.validate_report_request_tuples(report_requests, mode=mode)\n", "        report_requests = [r for r in report_requests if r]\n        utils.validate_report_request_tuples(report_requests, mode=mode)\n")]),
    ('rr: rid misaligned', 'C35', [(R, "                        results = [(report['report_descriptions'][i]['r_id'], *results[i])\n                                   for i in range(len(report['report_descriptions'])) if isinstance(results[i], tuple)]\n", "                        results = [(report['report_descriptions'][i]['r_id'], *r)\n                                   for i, r in enumerate([r for r in results if r is not None])]\n")]),
    ('rr: shared request id', 'C35', [(R, "            report_request_id = utils.generate_id()\n            specifier_payloads", "            specifier_payloads"), (R, "        oadr_report_requests = []\n", "        oadr_report_requests = []\n        report_request_id = utils.generate_id()\n")]),
    ('rr: shared payloads', 'C35', [(R, "            specifier_payloads = []\n", ""), (R, "        oadr_report_requests = []\n", "        oadr_report_requests = []\n        specifier_payloads = []\n")]),
    ('rr: key specifier', 'C35', [(R, "self.report_callbacks[(report_request_id, r_id)] = callback", "self.report_callbacks[(report_specifier_id, r_id)] = callback")]),
    ('rr: callback of last', 'C35', [(R, "                # Append the callback to our list of known callbacks\n                self.report_callbacks[(report_request_id, r_id)] = callback\n", "            for rrq in report_request:\n                if rrq is None:\n                    continue\n                self.report_callbacks[(report_request_id, rrq[0])] = callback\n")]),
    ('rr: swapped periods', 'C35', [(R, "min_sampling_interval=rd['sampling_rate']['min_period'],\n                                                       max_sampling_interval=rd['sampling_rate']['max_period'])\n                               for rd in report['report_descriptions']]\n                    results = await utils.gather_if_required(results)\n                elif mode == 'full':\n                    results = await utils.await_if_required(self.on_register_report(report))\n            elif report['report_name'] in", "min_sampling_interval=rd['sampling_rate']['max_period'],\n                                                       max_sampling_interval=rd['sampling_rate']['min_period'])\n                               for rd in report['report_descriptions']]\n                    results = await utils.gather_if_required(results)\n                elif mode == 'full':\n                    results = await utils.await_if_required(self.on_register_report(report))\n            elif report['report_name'] in")]),
    ('rr: not recorded', 'C35', [(R, "        self.requested_reports[payload['ven_id']] = oadr_report_requests\n", "        self.requested_reports[payload['ven_id']] = report_requests\n")]),
('rr: two long', 'C35', [(R, "                if len(rrq) == 3:\n                    r_id, callback, sampling_interval = rrq\n                    report_interval = sampling_interval\n", "                if len(rrq) == 3:\n                    r_id, callback, sampling_interval = rrq\n                    report_interval = granularity * 2\n")]),
    ('rr: stop at unsupported', 'C35', [(R, "                report_requests.append(None)\n                continue\n            else:", "                report_requests.append(None)\n                break\n            else:")]),
    ('rr: stop at none', 'C35', [(R, "            for rrq in report_request:\n                if rrq is None:\n                    continue\n", "            for rrq in report_request:\n                if rrq is None:\n                    break\n")]),
    ('rr: skip report if one none', 'C35', [(R, "        for i, report_request in enumerate(report_requests):\n            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):\n                continue\n\n", "        for i, report_request in enumerate(report_requests):\n            if report_request is None or len(report_request) == 0 or any(rrq is None for rrq in report_request):\n                continue\n\n")]),
]
SAME = [
    ('vr: get', 'C34', [(R, """                if (report_request_id, r_id) in self.report_callbacks:
                    # Collect the values
                    values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]
                    # Call the callback function to deliver the values
                    result = self.report_callbacks[(report_request_id, r_id)](values)
                    if iscoroutine(result):
                        result = await result
""", """                callback = self.report_callbacks.get((report_request_id, r_id))
                if callback is None:
                    continue
                await utils.await_if_required(callback([(ri['dtstart'], ri['report_payload']['value']) for ri in values]))
""")]),
    ('vr: loop', 'C34', [(R, "                    values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]\n", "                    pairs = []\n                    for ri in values:\n                        pairs.append((ri['dtstart'], ri['report_payload']['value']))\n                    values = pairs\n")]),
    ('vr: helper', 'C34', [(R, """                    # Call the callback function to deliver the values
                    result = self.report_callbacks[(report_request_id, r_id)](values)
                    if iscoroutine(result):
                        result = await result
""", """                    await self._deliver((report_request_id, r_id), values)
"""), (R, "    async def on_update_report(self, payload):", """    async def _deliver(self, key, values):
        result = self.report_callbacks[key](values)
        if iscoroutine(result):
            result = await result

    async def on_update_report(self, payload):""")]),
    ('vr: own grouping', 'C34', [(R, "            for r_id, values in utils.group_by(report.get('intervals', []), 'report_payload.r_id').items():\n", "            grouped = {}\n            for interval in report.get('intervals', []):\n                grouped.setdefault(interval['report_payload']['r_id'], []).append(interval)\n            for r_id, values in grouped.items():\n")]),
    ('rr: zip', 'C35', [(R, "                        results = [(report['report_descriptions'][i]['r_id'], *results[i])\n                                   for i in range(len(report['report_descriptions'])) if isinstance(results[i], tuple)]\n", "                        results = [(rd['r_id'], *r) for rd, r in zip(report['report_descriptions'], results)\n                                   if isinstance(r, tuple)]\n")]),
    ('rr: zip reports', 'C35', [(R, "        for i, report_request in enumerate(report_requests):\n            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):\n                continue\n\n            orig_report = payload['reports'][i]\n", "        for orig_report, report_request in zip(payload['reports'], report_requests):\n            if not report_request or all(rrq is None for rrq in report_request):\n                continue\n\n")]),
    ('rr: helper', 'C35', [(R, "            # Append the callback to our list of known callbacks\n                self.report_callbacks[(report_request_id, r_id)] = callback\n", "            self._remember(report_request_id, r_id, callback)\n"), (R, "    @handler('oadrUpdateReport')", "    def _remember(self, report_request_id, r_id, callback):\n        self.report_callbacks[(report_request_id, r_id)] = callback\n\n    @handler('oadrUpdateReport')")]),
    ('rr: filter answers', 'C35', [(R, "            for rrq in report_request:\n                if rrq is None:\n                    continue\n                if len(rrq) == 3:", "            answers = [rrq for rrq in report_request if rrq is not None]\n            for rrq in answers:\n                if len(rrq) == 3:")]),
    ('rr: index lookup', 'C35', [(R, "                report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)\n                reading_type = report_description['reading_type']\n", "                reading_type = next(rd['reading_type'] for rd in orig_report['report_descriptions'] if rd['r_id'] == r_id)\n")]),
    ('rr: mode bool', 'C35', [(R, "        if all(['ven_id' in args, 'resource_id' in args, 'measurement' in args,\n                'min_sampling_interval' in args, 'max_sampling_interval' in args,\n                'unit' in args, 'scale' in args]):", "        if {'ven_id', 'resource_id', 'measurement', 'min_sampling_interval',\n                'max_sampling_interval', 'unit', 'scale'}.issubset(args):")]),
]
