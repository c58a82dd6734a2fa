C = 'client.py'
FOR1 = "            for i, result in enumerate(results):\n                if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':\n                    logger.error(\"Your on_event or on_update_event handler must return 'optIn' or 'optOut'; \"\n                                 f\"you supplied {result}. Please fix your on_event handler.\")\n                    results[i] = 'optOut'\n"
RESP = """        event_responses = []
        for i, event in enumerate(events):
            if event['response_required'] == 'always' and not utils.determine_event_status(event['active_period']) == 'completed':
                if isinstance(event['event_signals'], list):
                    signals = event['event_signals']
                else:
                    signals = event['event_signals']['event_signals']
                j = 0
                response_code = 200
                while (j < len(signals) and response_code == 200):
                    if not signals[j]['signal_name'] in enums.SIGNAL_NAME.values \\
                            and not str(signals[j]['signal_name']).startswith('x-'):
                        response_code = enums.STATUS_CODES.SIGNAL_NOT_SUPPORTED
                    j += 1
                event_responses.append({'response_code': response_code,
                                        'response_description': 'OK' if response_code == 200 else 'ERROR',
                                        'opt_type': results[i],
                                        'request_id': message['request_id'],
                                        'modification_number': events[i]['event_descriptor']['modification_number'],
                                        'event_id': events[i]['event_descriptor']['event_id']})
"""
HANDLE = """                received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
                if received_event:
                    if received_event['event_descriptor']['modification_number'] == modification_number:
                        # Re-submit the same opt type as we already had previously
                        result = self.responded_events[event_id]
                    else:
                        # Replace the event with the fresh copy
                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
                        self.received_events.append(event)
                        # Wait for the result of the on_update_event handler
                        result = await utils.await_if_required(self.on_update_event(event))
                else:
                    # Wait for the result of the on_event
                    self.received_events.append(event)
                    result = self.on_event(event)
                if asyncio.iscoroutine(result):
                    result = await result
"""
HANDLE2 = """                known = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
                if not known:
                    result = await self._handle_new(event)
                elif known['event_descriptor']['modification_number'] != modification_number:
                    result = await self._handle_changed(event)
                else:
                    result = self.responded_events[event_id]
"""
HELP2 = """    async def _handle_new(self, event):
        self.received_events.append(event)
        result = self.on_event(event)
        return await result if asyncio.iscoroutine(result) else result

    async def _handle_changed(self, event):
        eid = event['event_descriptor']['event_id']
        utils.pop_by(self.received_events, 'event_descriptor.event_id', eid)
        self.received_events.append(event)
        return await utils.await_if_required(self.on_update_event(event))

    async def _on_event(self, message):
"""
HEAD = "    async def _on_event(self, message):\n"
CLEAN = "        for event in list(self.received_events):"
BUGS = [
    ('answer-last', 'C10', [(C, "'opt_type': results[i],\n                                        'request_id': message['request_id'],\n                                        'modification_number': events[i]", "'opt_type': result,\n                                        'request_id': message['request_id'],\n                                        'modification_number': events[i]")]),
    ('answer-completed', 'C10', [(C, "if event['response_required'] == 'always' and not utils.determine_event_status(event['active_period']) == 'completed':\n                if isinst", "if event['response_required'] == 'always':\n                if isinst")]),
    ('answer-active-skipped', 'C10', [(C, "not utils.determine_event_status(event['active_period']) == 'completed':\n                if", "utils.determine_event_status(event['active_period']) not in ('completed', 'active'):\n                if")]),
    ('answer-neverset', 'C10', [(C, "if event['response_required'] == 'always' and not utils", "if event['response_required'] != 'never' and event['event_descriptor']['event_status'] != 'cancelled' and not utils")]),
    ('no-validation', 'C10', [(C, "if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':", "if result is None and events[i]['response_required'] == 'always':")]),
    ('invalid-optin', 'C10', [(C, "                    results[i] = 'optOut'\n", "                    results[i] = 'optIn'\n")]),
    ('exc-optin', 'C10', [(C, "results = ['optOut'] * len(events)", "results = ['optIn'] * len(events)")]),
    ('exc-escape', 'C10', [(C, "        except Exception as err:\n            logger.error(\"Your on_event handler encountered", "        except (TypeError, ValueError, KeyError, errors.InvalidIdError) as err:\n            logger.error(\"Your on_event handler encountered")]),
    ('mod-first', 'C10', [(C, "'modification_number': events[i]['event_descriptor']['modification_number'],\n                                        'event_id': events[i]", "'modification_number': events[0]['event_descriptor']['modification_number'],\n                                        'event_id': events[i]")]),
    ('wrong-rid', 'C10', [(C, "'request_id': message['request_id']}\n            message = self", "'request_id': utils.generate_id()}\n            message = self")]),
    ('custom-signal', 'C10', [(C, "response_code = enums.STATUS_CODES.SIGNAL_NOT_SUPPORTED\n                    j += 1", "response_code = enums.STATUS_CODES.COMPLIANCE_ERROR\n                    j += 1")]),
    ('redeliver-calls', 'C11', [(C, "result = self.responded_events[event_id]", "result = self.responded_events.get(event_id) or self.on_event(event)")]),
    ('not-remembered', 'C11', [(C, "                self.responded_events[event_id] = result\n", "                if result in ('optIn', 'optOut'):\n                    self.responded_events.setdefault(event_id, result)\n")]),
    ('update-not-replaced', 'C11', [(C, "                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)\n                        self.received_events.append(event)\n", "")]),
    ('update-old-kept', 'C11', [(C, "                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)\n                        self.received_events.append(event)\n", "                        self.received_events.append(event)\n")]),
    ('mod-gt', 'C11', [(C, "if received_event['event_descriptor']['modification_number'] == modification_number:", "if received_event['event_descriptor']['event_status'] == event_status:")]),
    ('update-to-on_event', 'C11', [(C, "result = await utils.await_if_required(self.on_update_event(event))", "result = await utils.await_if_required(self.on_event(event))")]),
    ('remember-after', 'C11', [(C, "                    self.received_events.append(event)\n                    result = self.on_event(event)\n", "                    result = self.on_event(event)\n")]),
    ('lookup-modkey', 'C11', [(C, "received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)", "received_event = utils.find_by(self.received_events, 'event_descriptor.event_status', event_status)")]),
    ('pop-wrong', 'C11', [(C, "utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)\n                        self.r", "utils.pop_by(self.received_events, 'event_descriptor.modification_number', modification_number)\n                        self.r")]),
]
BUGS += [
    ('cleanup-active', 'C11', [(C, "== 'completed':\n                logger.info(f\"Removing", "in ('completed', 'active'):\n                logger.info(f\"Removing")]),
    ('cleanup-fwd', 'C11', [(C, "        for i in range(len(self.received_events)-1, -1, -1):\n            event = self.received_events[i]\n", "        for i, event in enumerate(self.received_events):\n")]),
    ('cleanup-answers', 'C11', [(C, "            event = self.received_events[i]\n            if event['event_descriptor']['event_status'] == 'cancelled'", "            event = self.received_events[i]\n            self.responded_events.pop(event['event_descriptor']['event_id'], None)\n            if event['event_descriptor']['event_status'] == 'cancelled'")]),
]
SAME = [
    ('cleanup-copy', 'C11', [(C, "        for i in range(len(self.received_events)-1, -1, -1):\n            event = self.received_events[i]\n", "        for event in list(self.received_events):\n"), (C, "                self.received_events.pop(i)\n", "                self.received_events.remove(event)\n")]),
    ('cleanup-continue', 'C11', [(C, "            if event['event_descriptor']['event_status'] == 'cancelled' or \\\n                    utils.determine_event_status(event['active_period']) == 'completed':\n                logger.info(f\"Removing event {event} because it is no longer relevant.\")\n                self.received_events.pop(i)\n                self.responded_events.pop(event['event_descriptor']['event_id'], None)\n", "            status = event['event_descriptor']['event_status']\n            if status != 'cancelled':\n                status = utils.determine_event_status(event['active_period'])\n            if status not in ('cancelled', 'completed'):\n                continue\n            self.received_events.pop(i)\n            self.responded_events.pop(event['event_descriptor']['event_id'], None)\n")]),
    ('cleanup-filter', 'C11', [(C, "        for i in range(len(self.received_events)-1, -1, -1):\n            event = self.received_events[i]\n            if event['event_descriptor']['event_status'] == 'cancelled' or \\\n                    utils.determine_event_status(event['active_period']) == 'completed':\n                logger.info(f\"Removing event {event} because it is no longer relevant.\")\n                self.received_events.pop(i)\n                self.responded_events.pop(event['event_descriptor']['event_id'], None)\n", "        def over(event):\n            return (event['event_descriptor']['event_status'] == 'cancelled'\n                    or utils.determine_event_status(event['active_period']) == 'completed')\n        for event in [e for e in self.received_events if over(e)]:\n            self.received_events.remove(event)\n            self.responded_events.pop(event['event_descriptor']['event_id'], None)\n")]),
    ('helpers', 'C10 C11', [(C, HANDLE, HANDLE2), (C, HEAD, HELP2)]),
    ('result-fix-inline', 'C10 C11', [(C, FOR1, "            results = [r if r in ('optIn', 'optOut') else 'optOut' for r in results]\n")]),
    ('zip', 'C10 C11', [(C, RESP, """        event_responses = [self._event_response(event, opt, message['request_id'])
                           for event, opt in zip(events, results)
                           if event['response_required'] == 'always'
                           and utils.determine_event_status(event['active_period']) != 'completed']
"""), (C, HEAD, """    @staticmethod
    def _event_response(event, opt_type, request_id):
        signals = event['event_signals']
        if not isinstance(signals, list):
            signals = signals['event_signals']
        response_code = 200
        for signal in signals:
            name = signal['signal_name']
            if name in enums.SIGNAL_NAME.values or str(name).startswith('x-'):
                continue
            response_code = enums.STATUS_CODES.SIGNAL_NOT_SUPPORTED
            break
        return {'response_code': response_code,
                'response_description': 'OK' if response_code == 200 else 'ERROR',
                'opt_type': opt_type,
                'request_id': request_id,
                'modification_number': event['event_descriptor']['modification_number'],
                'event_id': event['event_descriptor']['event_id']}

    async def _on_event(self, message):
""")]),
    ('index-loop', 'C10 C11', [(C, "            for event in message['events']:\n", "            for i in range(len(message['events'])):\n                event = message['events'][i]\n")]),
    ('any-signal', 'C10', [(C, """                j = 0
                response_code = 200
                while (j < len(signals) and response_code == 200):
                    if not signals[j]['signal_name'] in enums.SIGNAL_NAME.values \\
                            and not str(signals[j]['signal_name']).startswith('x-'):
                        response_code = enums.STATUS_CODES.SIGNAL_NOT_SUPPORTED
                    j += 1
""", """                if any(signal['signal_name'] not in enums.SIGNAL_NAME.values
                       and not str(signal['signal_name']).startswith('x-') for signal in signals):
                    response_code = enums.STATUS_CODES.SIGNAL_NOT_SUPPORTED
                else:
                    response_code = 200
""")]),
    ('early-send-return', 'C10 C11', [(C, "        if len(event_responses) > 0:\n            logger.info(f\"Total event_responses: {len(event_responses)}\")\n", "        if event_responses:\n")]),
    ('vtn-check-outside', 'C10 C11', [(C, "            if self.vtn_id is not None and message['vtn_id'] != self.vtn_id:\n                invalid_vtn_id = True\n", "            invalid_vtn_id = self.vtn_id is not None and message['vtn_id'] != self.vtn_id\n            if invalid_vtn_id:\n")]),
    ('exc-comp', 'C10', [(C, "results = ['optOut'] * len(events)", "results = ['optOut' for _ in events]")]),
]
