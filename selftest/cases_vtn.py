E = 'service/event_service.py'
PO = 'service/poll_service.py'
SV = 'server.py'
U = 'utils.py'
BUGS = [
    ('cb-get', 'C12', [(E, "self.event_callbacks.pop((ven_id, event_id))", "self.event_callbacks[(ven_id, event_id)]")]),
    ('cb-noawait', 'C12', [(E, "                        if asyncio.iscoroutine(result):\n                            result = await result\n        else:", "        else:")]),
    ('cb-opt', 'C12', [(E, "result = callback(ven_id=ven_id, event_id=event_id, opt_type=opt_type)", "result = callback(ven_id=ven_id, event_id=event_id, opt_type=payload['event_responses'][0]['opt_type'])")]),
    ('cb-mod', 'C12', [(E, "'event_descriptor.event_id', event_id,\n                                      'event_descriptor.modification_number', modification_number)", "'event_descriptor.event_id', event_id)")]),
    ('cb-accept-unknown', 'C12', [(E, "                        raise errors.InvalidIdError\n", "                        continue\n")]),
    ('cb-all-vens', 'C12 ', [(E, "if event_id not in self.completed_event_ids.get(ven_id, []):", "if not any(event_id in ids for ids in self.completed_event_ids.values()):")]),
    ('cb-break', 'C12', [(E, "                            result = await result\n        else:", "                            result = await result\n                    break\n        else:")]),
    ('cancel-drop-always', 'C12', [(E, "if event and utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:", "if event and utils.getmember(event, 'event_descriptor.event_status') != enums.EVENT_STATUS.ACTIVE:")]),
    ('cancel-keep', 'C12', [(E, "                    utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)\n", "                    logger.debug('cancelled')\n")]),
    ('ext-noawait', 'C12', [(E, "result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,\n                                                                             event_id=event_id,\n                                                                             opt_type=opt_type))", "result = self.on_created_event(ven_id=ven_id, event_id=event_id, opt_type=opt_type)")]),
    ('future-done', 'C12', [(E, "if callback.done():", "if callback.cancelled() and callback.exception():")]),
    ('flag-after', 'C13', [(PO, "            self.events_updated[payload['ven_id']] = False\n            result = await self.event_service.request_event({'ven_id': payload['ven_id']})\n", "            result = await self.event_service.request_event({'ven_id': payload['ven_id']})\n            self.events_updated[payload['ven_id']] = False\n")]),
    ('flag-always-cleared', 'C13', [(PO, "        if self.polling_method == 'external':\n", "        updated = self.events_updated.pop(payload['ven_id'], False)\n        if self.polling_method == 'external':\n"), (PO, "elif self.events_updated.get(payload['ven_id']):", "elif updated:")]),
    ('flag-clear-all', 'C13 C14', [(PO, "self.events_updated[payload['ven_id']] = False\n", "self.events_updated.clear()\n")]),
    ('flag-not-set-cancel', 'C13', [(SV, "        utils.increment_event_modification_number(event)\n        self.events_updated[ven_id] = True\n", "        utils.increment_event_modification_number(event)\n")]),
    ('flag-set-only-first', 'C13', [(SV, "        self.events[ven_id].append(event)\n        self.events_updated[ven_id] = True\n", "        self.events[ven_id].append(event)\n        self.events_updated.setdefault(ven_id, True)\n")]),
    ('deliver-last', 'C13', [(E, "return 'oadrDistributeEvent', {'events': events}", "return 'oadrDistributeEvent', {'events': self.events[ven_id][-1:]}")]),
    ('drop-cancelled', 'C13', [(E, "if event_status == enums.EVENT_STATUS.COMPLETED:", "if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED):")]),
    ('drop-norecord', 'C13', [(E, "                        self.completed_event_ids[ven_id].append(event_id)\n", "")]),
    ('delivery-noawait', 'C13', [(E, "await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())", "self.event_delivery_callbacks[(ven_id, event_id)]()")]),
    ('cb-by-event', 'C12 C14', [(E, "if (ven_id, event_id) in self.event_callbacks:\n                    event, callback = self.event_callbacks.pop((ven_id, event_id))", "if event_id in self.event_callbacks:\n                    event, callback = self.event_callbacks.pop(event_id)"), (SV, "self.event_callbacks[(ven_id, event_id)] = ", "self.event_callbacks[event_id] = ")]),
    ('completed-global', 'C14', [(E, "self.completed_event_ids.get(ven_id, [])", "[i for ids in self.completed_event_ids.values() for i in ids]")]),
    ('fallback-events', 'C14', [(E, "utils.find_by(self.events.get(ven_id, []),", "utils.find_by([e for v in self.events.values() for e in v],")]),
    ('cancel-nomod', 'C15', [(SV, "        utils.increment_event_modification_number(event)\n        self.ev", "        self.ev")]),
    ('cancel-twice', 'C15', [(SV, "        utils.increment_event_modification_number(event)\n        self.ev", "        utils.increment_event_modification_number(event)\n        utils.increment_event_modification_number(event)\n        self.ev")]),
    ('cancel-removed', 'C15', [(SV, "        utils.increment_event_modification_number(event)\n        self.ev", "        utils.increment_event_modification_number(event)\n        utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)\n        self.ev")]),
    ('cancel-status', 'C15', [(SV, "'event_descriptor.event_status', enums.EVENT_STATUS.CANCELLED)", "'event_descriptor.event_status', enums.EVENT_STATUS.COMPLETED)")]),
    ('cancel-raise', 'C15', [(SV, "        if ven_id not in self.events:\n            logger.warning(f\"Attempted", "        if False:\n            logger.warning(f\"Attempted")]),
    ('inc-zero', 'C15', [(U, "modification_number = getmember(event, 'event_descriptor.modification_number') + 1", "modification_number = getmember(event, 'event_descriptor.modification_number') or 1")]),
]
SAME = [
    ('cb-helper', 'C12 C14', [(E, "                if (ven_id, event_id) in self.event_callbacks:\n                    event, callback = self.event_callbacks.pop((ven_id, event_id))\n", "                registered = self.event_callbacks.pop((ven_id, event_id), None)\n                if registered is not None:\n                    event, callback = registered\n")]),
    ('cb-split', 'C12 C14', [(E, "                    if isinstance(callback, asyncio.Future):\n                        if callback.done():\n                            logger.warning(f\"Got a second response '{opt_type}' from ven '{ven_id}' \"\n                                           f\"to event '{event_id}', which we cannot use because the \"\n                                           \"callback future you provided was already completed during \"\n                                           \"the first response.\")\n                        else:\n                            callback.set_result(opt_type)\n                    else:\n                        result = callback(ven_id=ven_id, event_id=event_id, opt_type=opt_type)\n                        if asyncio.iscoroutine(result):\n                            result = await result\n", "                    await self._report_back(callback, ven_id, event_id, opt_type)\n"),
       (E, "    def on_created_event(self, ven_id, event_id, opt_type):", "    async def _report_back(self, callback, ven_id, event_id, opt_type):\n        if not asyncio.isfuture(callback):\n            await utils.await_if_required(callback(ven_id=ven_id, event_id=event_id, opt_type=opt_type))\n        elif not callback.done():\n            callback.set_result(opt_type)\n        else:\n            logger.warning('second response')\n\n    def on_created_event(self, ven_id, event_id, opt_type):")]),
    ('unknown-merged', 'C12 C14', [(E, "                if not event:\n                    if event_id not in self.completed_event_ids.get(ven_id, []):\n                        logger.warning(f\"\"\"Got an oadrCreatedEvent message from ven '{ven_id}' \"\"\"\n                                       f\"\"\"for event '{event_id}' with modification number \"\"\"\n                                       f\"\"\"{modification_number} that does not exist.\"\"\")\n                        raise errors.InvalidIdError\n", "                completed = event_id in self.completed_event_ids.get(ven_id, [])\n                if event is None and not completed:\n                    raise errors.InvalidIdError\n")]),
    ('poll-early', 'C13 C14', [(PO, "        elif self.events_updated.get(payload['ven_id']):\n            # Send a oadrDistributeEvent whenever the events were updated\n            self.events_updated[payload['ven_id']] = False\n            result = await self.event_service.request_event({'ven_id': payload['ven_id']})\n        else:\n            return 'oadrResponse', {}\n", "        else:\n            ven_id = payload['ven_id']\n            if not self.events_updated.pop(ven_id, False):\n                return 'oadrResponse', {}\n            result = await self.event_service.request_event({'ven_id': ven_id})\n")]),
    ('request-setdefault', 'C13 C14', [(E, "                        if ven_id not in self.completed_event_ids:\n                            self.completed_event_ids[ven_id] = []\n                        event_id = utils.getmember(event, 'event_descriptor.event_id')\n                        self.completed_event_ids[ven_id].append(event_id)\n                        self.events[ven_id].pop(self.events[ven_id].index(event))", "                        event_id = utils.getmember(event, 'event_descriptor.event_id')\n                        self.completed_event_ids.setdefault(ven_id, []).append(event_id)\n                        self.events[ven_id].remove(event)")]),
    ('add-setdefault', 'C13 C14', [(SV, "        if ven_id not in self.events:\n            self.events[ven_id] = []\n\n", ""), (SV, "        self.events[ven_id].append(event)\n", "        self.events.setdefault(ven_id, []).append(event)\n")]),
    ('cancel-inline', 'C13 C14 C15', [(SV, "        utils.increment_event_modification_number(event)\n        self.ev", "        number = utils.getmember(event, 'event_descriptor.modification_number')\n        utils.setmember(event, 'event_descriptor.modification_number', number + 1)\n        self.ev")]),
    ('cancel-get', 'C13 C14 C15', [(SV, "        if ven_id not in self.events:\n            logger.warning(f\"Attempted to cancel event {event_id} for \"\n                           f\"ven_id {ven_id}, but this ven_id does not exist.\")\n            return\n\n        event = utils.find_by(self.events[ven_id], ", "        events = self.events.get(ven_id)\n        if events is None:\n            return\n        event = utils.find_by(events, ")]),
]
