CL, MS, HK, UT = 'client.py', 'messaging.py', 'hooks.py', 'utils.py'
VS, EV, PO, RG, RP = ('service/%s_service.py' % n for n in ('vtn', 'event', 'poll', 'registration', 'report'))
BUGS = [
    ('hook', 'C44', [(HK, "        if asyncio.iscoroutine(result):\n            loop.create_task(result)\n", "")]),
    ('hook function', 'C44', [(HK, "        if asyncio.iscoroutine(result):", "        if asyncio.iscoroutinefunction(hook):")]),
    ('client hook', 'C44', [(CL, "                await utils.await_if_required(hook(*args, **kwargs))", "                hook(*args, **kwargs)")]),
    ('helper not awaited', 'C44', [(CL, "                await utils.await_if_required(hook(*args, **kwargs))", "                utils.await_if_required(hook(*args, **kwargs))")]),
    ('update_event', 'C44', [(CL, "result = await utils.await_if_required(self.on_update_event(event))", "result = self.on_update_event(event)"),
                             (CL, "                    result = self.on_event(event)\n                if asyncio.iscoroutine(result):\n                    result = await result\n", "                    result = self.on_event(event)\n                    if asyncio.iscoroutine(result):\n                        result = await result\n")]),
    ('on_event', 'C44', [(CL, "                    result = self.on_event(event)\n                if asyncio.iscoroutine(result):\n                    result = await result\n", "                    result = self.on_event(event)\n                if asyncio.iscoroutinefunction(self.on_event):\n                    result = await result\n")]),
    ('lookup', 'C44', [(MS, "await utils.await_if_required(ven_lookup(ven_id))", "ven_lookup(ven_id)")]),
    ('vtn lookup', 'C44', [(VS, "await utils.await_if_required(self.ven_lookup(ven_id=message_payload['ven_id']))", "self.ven_lookup(ven_id=message_payload['ven_id'])")]),
    ('vtn handler', 'C44', [(VS, "            if iscoroutine(result):", "            if inspect.iscoroutinefunction(handler):")]),
    ('query registration', 'C44', [(RG, "            if iscoroutine(result):\n                result = await result\n", "")]),
    ('poll', 'C44', [(PO, "        if asyncio.iscoroutine(result):\n            result = await result\n", "")]),
    ('delivery', 'C44', [(EV, "                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())", "                    self.event_delivery_callbacks[(ven_id, event_id)]()")]),
    ('created event', 'C44', [(EV, "                        if asyncio.iscoroutine(result):", "                        if asyncio.iscoroutinefunction(callback):")]),
    ('report cb', 'C44', [(RP, "                    if iscoroutine(result):\n                        result = await result\n", "")]),
    ('gather: first', 'C44', [(UT, "        if not any([asyncio.iscoroutine(r) for r in results]):", "        if not asyncio.iscoroutine(results[0]):")]),
    ('gather: all', 'C44', [(UT, "            results = [await await_if_required(result) for result in results]", "            pass")]),
    ('gather: order', 'C44', [(UT, "            results = [await await_if_required(result) for result in results]", "            results = [r for r in results if not asyncio.iscoroutine(r)] + [await r for r in results if asyncio.iscoroutine(r)]")]),
    ('air', 'C44', [(UT, "    if asyncio.iscoroutine(result):\n        result = await result\n    return result", "    if asyncio.iscoroutine(result):\n        asyncio.create_task(result)\n    return result")]),
    ('forgotten method', 'C44', [(CL, "await self._on_event(response_payload)", "self._on_event(response_payload)")]),
    ('forgotten request', 'C44', [(CL, "await self._perform_request(service, message)", "self._perform_request(service, message)")]),
]
SAME = [
    ('helper', 'C44', [(PO, "        if asyncio.iscoroutine(result):\n            result = await result\n", "        result = await utils.await_if_required(result)\n"), (PO, "from openleadr import ", "from openleadr import utils, ")]),
    ('isawaitable', 'C44', [(RG, "            if iscoroutine(result):\n                result = await result\n", "            result = await result if iscoroutine(result) else result\n")]),
    ('gather loop', 'C44', [(UT, """        if not any([asyncio.iscoroutine(r) for r in results]):
            results = results
        elif all([asyncio.iscoroutine(r) for r in results]):
            results = await asyncio.gather(*results)
        else:
            results = [await await_if_required(result) for result in results]
""", """        results = [await await_if_required(result) for result in results]
""")]),
    ('inline hook', 'C44', [(CL, "                await utils.await_if_required(hook(*args, **kwargs))", "                outcome = hook(*args, **kwargs)\n                if asyncio.iscoroutine(outcome):\n                    await outcome")]),
    ('method helper', 'C44', [(PO, "        if asyncio.iscoroutine(result):\n            result = await result\n", "        result = await self._resolve(result)\n"), (PO, "    @handler('oadrPoll')", "    async def _resolve(self, value):\n        if asyncio.iscoroutine(value):\n            return await value\n        return value\n\n    @handler('oadrPoll')")]),
]
