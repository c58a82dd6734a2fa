# Changes written from the text of the properties, several properties at a time.
BUGS = [
    ('more: verify sig only if signed', 'C01', [('service/vtn_service.py', 'verify_message_signature=self.verify_message_signatures)\n                elif', "verify_message_signature=self.verify_message_signatures and b'Signature' in content)\n                elif")]),
    ('more: auth copy of payload', 'C01', [('service/vtn_service.py', 'await authenticate_message(request, message_tree, message_payload,\n                                               ven_lookup', "await authenticate_message(request, message_tree, dict(message_payload, ven_id=message_payload.get('ven_id') or ''),\n                                               ven_lookup")]),
    ('more: vtn id case-insensitive', 'C02', [('service/vtn_service.py', "and message_payload['vtn_id'] != self.vtn_id:", "and message_payload['vtn_id'].lower() != self.vtn_id.lower():")]),
    ('more: vtn id prefix', 'C02', [('service/vtn_service.py', "and message_payload['vtn_id'] != self.vtn_id:", "and not self.vtn_id.startswith(message_payload['vtn_id']):")]),
    ('more: ven lookup after poll exempt', 'C02', [('service/vtn_service.py', "if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \\\n                    and 'ven_id'", "if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration', 'oadrCancelPartyRegistration') \\\n                    and 'ven_id'")]),
    ('more: reg id falsy ok', 'C02', [('service/vtn_service.py', "if result is None or result.get('registration_id', None) is None:", "if result is None or 'registration_id' not in result:")]),
    ('more: parse stripped content', 'C03', [('service/vtn_service.py', 'message_type, message_payload = parse_message(content)', "message_type, message_payload = parse_message(content.replace(b'\\x00', b''))")]),
    ('more: validate after parse', 'C03', [('service/vtn_service.py', '            # Validate the message to the XML Schema\n            message_tree = validate_xml_schema(content)\n\n            # Parse the message to a type and payload dict\n            message_type, message_payload = parse_message(content)\n', "            message_type, message_payload = parse_message(content)\n            if message_type == 'oadrResponse':\n                raise errors.SendEmptyHTTPResponse()\n            message_tree = validate_xml_schema(content)\n")]),
    ('more: content type any xml', 'C06', [('service/vtn_service.py', 'if not content_type.lower().startswith("application/xml"):', 'if "xml" not in content_type.lower():')]),
    ('more: empty response without return', 'C06', [('service/vtn_service.py', "        except errors.SendEmptyHTTPResponse:\n            response = web.Response(text='',\n                                    status=HTTPStatus.OK,", "        except errors.SendEmptyHTTPResponse:\n            response = web.Response(text='',\n                                    status=HTTPStatus.NO_CONTENT,")]),
    ('more: httperror text none', 'C06', [('service/vtn_service.py', 'response = web.Response(text=err.response_description,\n                                    status=err.response_code)', 'response = web.Response(text=err.response_description,\n                                    status=HTTPStatus.BAD_REQUEST)')]),
    ('more: ven id setdefault', 'C07', [('service/vtn_service.py', "if 'ven_id' in message_payload and not response_payload.get('ven_id'):", "if 'ven_id' in message_payload:")]),
    ('more: request id of response', 'C07', [('service/vtn_service.py', "response_payload['response'] = {'request_id': message_payload.get('request_id', None),", "response_payload['response'] = {'request_id': response_payload.get('request_id') or message_payload.get('request_id', None),")]),
    ('more: handler own response kept', 'C07', [('service/vtn_service.py', "            response_payload['response'] = {'request_id'", "            if 'response' not in response_payload: response_payload['response'] = {'request_id'")]),
    ('more: shared default payload', 'C07 C43', [('service/vtn_service.py', "response_type, response_payload = 'oadrResponse', {}\n", "response_type, response_payload = 'oadrResponse', EMPTY\n"), ('service/vtn_service.py', "logger = logging.getLogger('openleadr')\n", "logger = logging.getLogger('openleadr')\nEMPTY = {}\n")]),
    ('more: flag cleared after', 'C13', [('service/poll_service.py', "            self.events_updated[payload['ven_id']] = False\n            result = await self.event_service.request_event({'ven_id': payload['ven_id']})\n", "            result = await self.event_service.request_event({'ven_id': payload['ven_id']})\n            self.events_updated[payload['ven_id']] = False\n")]),
    ('more: flag by event count', 'C13', [('server.py', '        self.events[ven_id].append(event)\n        self.events_updated[ven_id] = True\n', '        self.events_updated[ven_id] = not self.events[ven_id] or self.events_updated.get(ven_id, False)\n        self.events[ven_id].append(event)\n')]),
    ('more: completed loop skips', 'C13', [('service/event_service.py', 'for event in events:\n                    event_status', 'for event in self.events[ven_id]:\n                    event_status')]),
    ('more: delivery only first', 'C13', [('service/event_service.py', '                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())\n', '                    await utils.await_if_required(self.event_delivery_callbacks.pop((ven_id, event_id))())\n')]),
    ('more: delivered once removed when never', 'C13', [('service/event_service.py', 'if event_status == enums.EVENT_STATUS.COMPLETED:\n', "if event_status == enums.EVENT_STATUS.COMPLETED or utils.getmember(event, 'response_required') == 'never':\n")]),
    ('more: cancelled drop at handout', 'C13', [('service/event_service.py', 'if event_status == enums.EVENT_STATUS.COMPLETED:\n', 'if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED):\n')]),
    ('more: callback key event only', 'C14 C12', [('service/event_service.py', 'if (ven_id, event_id) in self.event_callbacks:', 'if any(k[1] == event_id for k in self.event_callbacks):'), ('service/event_service.py', 'self.event_callbacks.pop((ven_id, event_id))', 'self.event_callbacks.pop(next(k for k in self.event_callbacks if k[1] == event_id))')]),
    ('more: mod number ignored', 'C12', [('service/event_service.py', "'event_descriptor.event_id', event_id,\n                                      'event_descriptor.modification_number', modification_number)", "'event_descriptor.event_id', event_id)")]),
    ('more: completed id of any ven', 'C12', [('service/event_service.py', 'if event_id not in self.completed_event_ids.get(ven_id, []):', 'if not any(event_id in ids for ids in self.completed_event_ids.values()):')]),
    ('more: callback kept', 'C12', [('service/event_service.py', 'event, callback = self.event_callbacks.pop((ven_id, event_id))', 'event, callback = self.event_callbacks[(ven_id, event_id)]')]),
    ('more: callback dropped on optOut only', 'C12', [('service/event_service.py', 'event, callback = self.event_callbacks.pop((ven_id, event_id))', "event, callback = self.event_callbacks[(ven_id, event_id)]\n                    if opt_type == 'optIn': self.event_callbacks.pop((ven_id, event_id))")]),
    ('more: last opt type', 'C12', [('service/event_service.py', "opt_type = event_response['opt_type']\n                event = utils", "opt_type = payload['event_responses'][-1]['opt_type']\n                event = utils")]),
    ('more: error continues', 'C12', [('service/event_service.py', '                        raise errors.InvalidIdError\n', '                        continue\n')]),
    ('more: bump by two when active', 'C15', [('server.py', '        utils.increment_event_modification_number(event)\n', '        if not utils.increment_event_modification_number(event) % 2: utils.increment_event_modification_number(event)\n')]),
    ('more: cancel twice noop', 'C15', [('server.py', '        # Set the Event Status to cancelled\n', "        if utils.getmember(event, 'event_descriptor.event_status') == 'completed':\n            return\n        # Set the Event Status to cancelled\n")]),
    ('more: wrong order list pop', 'C15', [('server.py', '        self.events_updated[ven_id] = True\n\n    def add_handler', '        self.events[ven_id].remove(event)\n        self.events[ven_id].insert(0, event)\n        self.events_updated = {ven_id: True}\n\n    def add_handler')]),
    ('more: naive utc', 'C47', [('server.py', "utils.getmember(interval, 'dtstart').astimezone(timezone.utc))", "utils.getmember(interval, 'dtstart').replace(tzinfo=timezone.utc))")]),
    ('more: first interval only', 'C47', [('server.py', '        for interval in intervals:\n            if utils', '        for interval in intervals[:1]:\n            if utils')]),
    ('more: callback check only future', 'C47', [('server.py', "if not all(['ven_id' in args, 'event_id' in args, 'opt_type' in args]):", "if not any(['ven_id' in args, 'event_id' in args, 'opt_type' in args]):")]),
    ('more: check after queue', 'C47', [('server.py', "        if utils.getmember(event, 'response_required') == 'always':\n            if callback is None:", "        self.events.setdefault(ven_id, [])\n        if utils.getmember(event, 'response_required') == 'always':\n            if callback is None:")]),
    ('more: notification swapped', 'C47', [('server.py', 'active_period.notification_period = notification_period', 'active_period.notification_period = notification_period or ramp_up_period')]),
    ('more: signal mrid ignored', 'C47', [('server.py', 'response_required=response_required)\n        self.add_raw', "response_required='always')\n        self.add_raw")]),
    ('more: priority overwritten', 'C47', [('server.py', "if not utils.getmember(event, 'event_descriptor.priority', None):\n", "if utils.getmember(event, 'event_descriptor.priority', None) != 1:\n")]),
    ('more: active period always recomputed', 'C47', [('server.py', "if not utils.getmember(event, 'active_period', None):", "if not utils.getmember(event, 'active_period', None) or callback is None:")]),
    ('more: on_poll only poll service', 'C08', [('server.py', "                self.services['event_service'].polling_method = 'external'\n", '')]),
    ('more: route trailing prefix', 'C08', [('server.py', 'http_path_prefix = http_path_prefix.rstrip("/")', 'http_path_prefix = "/" + http_path_prefix.strip("/")')]),
    ('more: verify optional', 'C48', [('server.py', 'self.ssl_context.verify_mode = ssl.CERT_REQUIRED', 'self.ssl_context.verify_mode = ssl.CERT_REQUIRED if ven_lookup or fingerprint_lookup else ssl.CERT_OPTIONAL')]),
    ('more: default certs too', 'C48', [('server.py', 'self.ssl_context.load_verify_locations(http_ca_file)', 'self.ssl_context.load_verify_locations(http_ca_file)\n            self.ssl_context.load_default_certs(ssl.Purpose.CLIENT_AUTH)')]),
    ('more: host dropped', 'C48', [('server.py', '                           host=self.http_host,\n', '                           host=self.http_host if self.ssl_context else None,\n')]),
    ('more: sign only when ssl', 'C25', [('server.py', 'partial(create_message, cert=cert, key=key,\n', 'partial(create_message, cert=cert if http_cert or not http_key else None, key=key,\n')]),
    ('more: request event unsorted', 'C17', [('service/event_service.py', 'events = utils.order_events(result)', 'events = result if isinstance(result, list) else [result]')]),
    ('more: created_event all lists', 'C14', [('service/event_service.py', 'event = utils.find_by(self.events.get(ven_id, []),', 'event = utils.find_by([e for l in self.events.values() for e in l],')]),
    ('more: completed ids shared list', 'C14', [('service/event_service.py', 'self.completed_event_ids[ven_id] = []\n', 'self.completed_event_ids[ven_id] = self.completed_event_ids.setdefault(None, [])\n')]),
    ('more: status job uses poll freq', 'C37', [('client.py', '               seconds=self.event_status_log_period)', '               seconds=self.poll_frequency.seconds)')]),
    ('more: poll_frequency.seconds', 'C37', [('client.py', 'seconds=self.poll_frequency.total_seconds())', 'seconds=self.poll_frequency.seconds or 10)')]),
    ('more: queue worker at create only', 'C37', [('client.py', '        if self.reports:\n            self.report_queue_task = self.loop', '        if self.report_requests:\n            self.report_queue_task = self.loop')]),
    ('more: run twice worker', 'C37', [('client.py', 'if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):', 'if self.reports and (self.report_queue_task is None or not self.report_queue_task.done()):')]),
    ('more: reg id from query', 'C37', [('client.py', '        if registration is None or not self.registration_id:\n            logger.error("No Reg', '        if not self.registration_id:\n            logger.error("No Reg')]),
    ('more: poll freq only first time', 'C38', [('client.py', "            self.poll_frequency = response_payload.get('requested_oadr_poll_freq',\n", "            self.poll_frequency = self.poll_frequency or response_payload.get('requested_oadr_poll_freq',\n")]),
    ('more: ven id kept', 'C38', [('client.py', "            self.ven_id = response_payload['ven_id']\n        else:", "            self.ven_id = self.ven_id or response_payload['ven_id']\n        else:")]),
    ('more: code 2xx', 'C38', [('client.py', "if response_payload['response']['response_code'] != 200:\n            status_code", "if response_payload['response']['response_code'] // 100 != 2:\n            status_code")]),
    ('more: cancel leaves callbacks', 'C38', [('client.py', '            self.report_callbacks = {}\n            self.report_requests = []\n', '            self.report_requests = []\n')]),
    ('more: cancel by type only', 'C38', [('client.py', "if response_type == 'oadrCanceledPartyRegistration' and response_payload['response']['response_code'] == 200:", "if response_type == 'oadrCanceledPartyRegistration':")]),
    ('more: cancel worker not cancelled', 'C38', [('client.py', '        if self.report_queue_task:\n            self.report_queue_task.cancel()\n        self.scheduler.remove_all_jobs()\n\n        message =', '        self.scheduler.remove_all_jobs()\n\n        message =')]),
    ('more: jobs paused', 'C38', [('client.py', '        self.scheduler.remove_all_jobs()\n\n        message =', '        self.scheduler.pause()\n\n        message =')]),
    ('more: non ok body text', 'C40', [('client.py', '                    return None, {}\n        except aiohttp', '                    return None, None\n        except aiohttp')]),
    ('more: decode outside', 'C40', [('client.py', '        if len(content) == 0:\n            return None, {}\n', '        if len(content.decode().strip()) == 0:\n            return None, {}\n')]),
    ('more: only narrow exception', 'C40', [('client.py', '        except Exception as err:\n            logger.error(f"Request error', '        except (aiohttp.ClientError, OSError) as err:\n            logger.error(f"Request error')]),
    ('more: status 2xx', 'C40', [('client.py', 'if req.status != HTTPStatus.OK:', 'if req.status >= 300:')]),
    ('more: fingerprint after parse ok', 'C04', [('client.py', '                validate_xml_signature(tree, cert_fingerprint=self.vtn_fingerprint)\n', "                if 'Signature' in utils.ensure_str(content): validate_xml_signature(tree, cert_fingerprint=self.vtn_fingerprint)\n")]),
    ('more: fingerprint mismatch continues', 'C04', [('client.py', '        except errors.FingerprintMismatch as err:\n            logger.warning(err)\n            return None, {}', '        except errors.FingerprintMismatch as err:\n            logger.warning(err)\n            message_type, message_payload = parse_message(content)')]),
    ('more: hook failure stops rest', 'C39', [('client.py', '        for hook in self.hooks[hook_name]:\n            try:\n                await utils.await_if_required(hook(*args, **kwargs))\n            except Exception as err:\n', '        try:\n            for hook in self.hooks[hook_name]:\n                await utils.await_if_required(hook(*args, **kwargs))\n        except Exception as err:\n            if True:\n')]),
    ('more: after_parse only with 200', 'C39', [('client.py', "            await self._execute_hooks('after_parse_xml', message_type, message_payload)\n", "            if message_type != 'oadrResponse': await self._execute_hooks('after_parse_xml', message_type, message_payload)\n")]),
    ('more: before_send bytes', 'C39', [('client.py', "await self._execute_hooks('before_send_xml', utils.ensure_str(message))", "await self._execute_hooks('before_send_xml', url)")]),
    ('more: answer per list not event', 'C10', [('client.py', "                                        'opt_type': results[i],", "                                        'opt_type': results[len(event_responses)],")]),
    ('more: completed by descriptor', 'C10', [('client.py', "and not utils.determine_event_status(event['active_period']) == 'completed':", "and event['event_descriptor']['event_status'] != 'completed':")]),
    ('more: mod number of first', 'C10', [('client.py', "'modification_number': events[i]['event_descriptor']['modification_number'],\n                                        'event_id'", "'modification_number': self.received_events[-1]['event_descriptor']['modification_number'],\n                                        'event_id'")]),
    ('more: invalid vtn still answered opt', 'C10', [('client.py', "            if self.vtn_id is not None and message['vtn_id'] != self.vtn_id:", "            if self.vtn_id and message.get('vtn_id', self.vtn_id) not in self.vtn_id:")]),
    ('more: update condition greater', 'C11', [('client.py', "if received_event['event_descriptor']['modification_number'] == modification_number:", "if received_event['event_descriptor']['modification_number'] >= modification_number:")]),
    ('more: status change counts', 'C11', [('client.py', "if received_event['event_descriptor']['modification_number'] == modification_number:", "if received_event['event_descriptor']['modification_number'] == modification_number and received_event['event_descriptor']['event_status'] == event_status:")]),
    ('more: cleanup forward', 'C11', [('client.py', 'for i in range(len(self.received_events)-1, -1, -1):', 'for i in range(len(self.received_events)-1, 0, -1):')]),
    ('more: cleanup on near', 'C11', [('client.py', 'utils.determine_event_status(event[\'active_period\']) == \'completed\':\n                logger.info(f"Removing', 'event[\'event_descriptor\'][\'event_status\'] in (\'completed\', \'none\'):\n                logger.info(f"Removing')]),
    ('more: remember only always', 'C11', [('client.py', '                self.responded_events[event_id] = result\n', "                if event['response_required'] == 'always':\n                    self.responded_events[event_id] = result\n")]),
    ('more: create report on distribute', 'C41', [('client.py', "        elif response_type == 'oadrUpdateReport':\n            # We don't", "        elif response_type in ('oadrUpdateReport', 'oadrCancelReport'):\n            # We don't")]),
    ('more: events only one', 'C41', [('client.py', "        elif response_type == 'oadrDistributeEvent':\n            if 'events' in response_payload and len(response_payload['events']) > 0:", "        elif response_type == 'oadrDistributeEvent':\n            if 'events' in response_payload and response_payload.get('vtn_id') == self.vtn_id:")]),
    ('more: rereg not awaited order', 'C41', [('client.py', "            await self.send_response(service='EiRegisterParty')\n            await self.create_party_reregistration()", "            if self.registration_id:\n                await self.send_response(service='EiRegisterParty')\n                await self.create_party_reregistration()")]),
    ('more: shutdown wait', 'C42', [('client.py', '        if self.report_queue_task:\n            self.report_queue_task.cancel()\n        if self.client_session:', '        elif self.report_queue_task:\n            self.report_queue_task.cancel()\n        if self.client_session:')]),
    ('more: session recreated when closed', 'C42', [('client.py', '        if not self.client_session:\n            headers', '        if not self.client_session or self.registration_id is None:\n            headers')]),
    ('more: opt kept on failure ret', 'C46', [('client.py', '            self.opts.remove(opt)\n            return True', '            self.opts.pop()\n            return True')]),
    ('more: validate late', 'C46', [('client.py', '        if opt_reason not in enums.OPT_REASON.values:', '        if opt_reason not in enums.OPT_REASON.values and event_id is None:')]),
    ('more: modnr default', 'C46', [('client.py', '            modification_number=modification_number,\n            targets', '            modification_number=modification_number or 1,\n            targets')]),
    ('more: code from last', 'C30', [('client.py', '            single = False\n            requested_r_ids = []\n', '            single = False\n            response_code = 200\n            requested_r_ids = []\n')]),
    ('more: partial late bind', 'C30', [('client.py', 'callback = partial(self.update_report, report_request_id=report_request_id)\n', 'callback = lambda: self.update_report(report_request_id)\n')]),
    ('more: unit mismatch accepted', 'C31', [('client.py', "if measurement['unit'] != rd.measurement.unit:", "if measurement['unit'] not in rd.measurement.acceptable_units:")]),
    ('more: measurement compared by name', 'C31', [('client.py', "if measurement['description'] != rd.measurement.description:", "if measurement['name'] != rd.measurement.name:")]),
    ('more: exclusive bounds', 'C31', [('client.py', 'elif not rd.sampling_rate.min_period <= granularity <= rd.sampling_rate.max_period:', 'elif not rd.sampling_rate.min_period <= granularity < rd.sampling_rate.max_period:')]),
    ('more: abort after first bad', 'C31', [('client.py', 'was requested.")\n                            continue\n\n                        # Check if the requested measurement', 'was requested.")\n                            break\n\n                        # Check if the requested measurement')]),
    ('more: zero sample falsy', 'C32', [('client.py', '                    if isinstance(result, (int, float)):\n', '                    if not result:\n                        continue\n                    if isinstance(result, (int, float)):\n')]),
    ('more: expected len round', 'C32', [('client.py', "expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)", "expected_len = int(len(report_request['r_ids']) * report_interval / sampling_interval)")]),
    ('more: pop incomplete late', 'C32', [('client.py', '                self.incomplete_reports.pop(report_request_id, None)\n                await self.pending_reports.put(outgoing_report)\n', '                await self.pending_reports.put(outgoing_report)\n')]),
    ('more: date_from sums', 'C32', [('client.py', 'date_from = date_to - max(report_back_duration, granularity)', 'date_from = date_to - min(report_back_duration, granularity)')]),
    ('more: keyerror swallows all', 'C32', [('client.py', '                    for dt, value in result:\n                        logger.info', "                    for dt, value in result[:1] if data_collection_mode == 'incremental' else result:\n                        logger.info")]),
    ('more: continue on cancel', 'C33', [('client.py', "                    if 'cancel_report' in response_payload:\n                        await self", "                    if response_type == 'oadrUpdatedReport' and response_payload.get('cancel_report') and len(self.report_requests) > 1:\n                        await self")]),
    ('more: put back on failure', 'C33', [('client.py', '                    logger.error(f"Unable to send the report to the VTN. Error: {err}")', '                    logger.error(f"Unable to send the report to the VTN. Error: {err}")\n                    await self.pending_reports.put(report)')]),
    ('more: job of first', 'C36', [('client.py', "            if report_request['job']:\n                report_request['job'].remove()\n", "            if report_request['job'] and not payload['report_to_follow']:\n                report_request['job'].remove()\n")]),
    ('more: cancelled confirmed first', 'C36', [('client.py', '            self.report_requests.remove(report_request)\n            await self._perform_request(service, message)\n', '            await self._perform_request(service, message)\n            self.report_requests.pop()\n')]),
    ('more: callback key by request', 'C29', [('client.py', 'self.report_callbacks[(report.report_specifier_id, r_id)] = callback', 'self.report_callbacks[(report_specifier_id, r_id)] = callback')]),
    ('more: shared measurement', 'C29', [('client.py', 'item_base = replace(enums.MEASUREMENTS[measurement.upper()])', 'item_base = enums.MEASUREMENTS[measurement.upper()]')]),
    ('more: unit silently custom', 'C29', [('client.py', '        elif unit in item_base.acceptable_units:\n            item_base.unit = unit', "        elif unit in item_base.acceptable_units or item_base.name == 'customUnit':\n            item_base.unit = unit")]),
    ('more: check full only sync', 'C29', [('client.py', "if not ('date_from' in args and 'date_to' in args and 'sampling_interval' in args):", "if not ('date_from' in args or 'date_to' in args or 'sampling_interval' in args):")]),
    ('more: register request id reused', 'C53', [('client.py', "        request_id = utils.generate_id()\n        payload = {'request_id': request_id,\n                   'ven_id': self.ven_id,\n                   'reports': reports,", "        request_id = reports[0].report_request_id if reports else utils.generate_id()\n        payload = {'request_id': request_id,\n                   'ven_id': self.ven_id,\n                   'reports': reports,")]),
    ('more: response to reg', 'C53', [('client.py', "'request_id': message['request_id']}\n        else:\n            return", "'request_id': utils.generate_id()}\n        else:\n            return")]),
    ('more: fp of key', 'C50', [('client.py', 'utils.certificate_fingerprint(cert).center(80)', 'utils.certificate_fingerprint(cert).lower().center(80)')]),
    ('more: check host default', 'C48', [('client.py', '                ssl_context.check_hostname = self.check_hostname\n', "                ssl_context.check_hostname = self.check_hostname and not self.vtn_url.startswith('https://localhost')\n")]),
    ('more: url strip', 'C08', [('client.py', 'url = f"{self.vtn_url}/{service}"', 'url = f"{self.vtn_url.rsplit(\'/\', 1)[0]}/{service}"')]),
    ('more: refused reply keeps id', 'C09', [('service/registration_service.py', 'if result is not False and result is not None:', 'if result is not False:')]),
    ('more: tuple order by name', 'C09', [('service/registration_service.py', "response_payload = {'ven_id': result[0],\n                                    'registration_id': result[1],", "response_payload = {'ven_id': result[0],\n                                    'registration_id': payload.get('registration_id') or result[1],")]),
    ('more: profile fixed', 'C09', [('service/registration_service.py', "                response_payload = {'ven_id': result[0],\n                                    'registration_id': result[1],\n                                    'profiles': [{'profile_name': payload['profile_name'],", "                response_payload = {'ven_id': result[0],\n                                    'registration_id': result[1],\n                                    'profiles': [{'profile_name': '2.0b',")]),
    ('more: cancel regid from result', 'C09', [('service/registration_service.py', "result = 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}", "result = 'oadrCanceledPartyRegistration', {'registration_id': payload.get('ven_id')}")]),
    ('more: query awaits not', 'C09', [('service/registration_service.py', '            result = self.on_query_registration(payload)\n            if iscoroutine(result):\n                result = await result\n            return result', '            result = self.on_query_registration(payload)\n            return result')]),
    ('more: granularity max', 'C35', [('service/report_service.py', '            granularity = min(rrq[2] for rrq in report_request if rrq is not None)', '            granularity = max(rrq[2] for rrq in report_request if rrq is not None)')]),
    ('more: granularity of last', 'C35', [('service/report_service.py', 'granularity=granularity,\n                                                       report_back', 'granularity=sampling_interval,\n                                                       report_back')]),
    ('more: callback under specifier', 'C35', [('service/report_service.py', 'self.report_callbacks[(report_request_id, r_id)] = callback', 'self.report_callbacks[(report_specifier_id, r_id)] = callback')]),
    ('more: history skipped without None', 'C35', [('service/report_service.py', "            elif report['report_name'] in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):\n                report_requests.append(None)\n                continue", "            elif report['report_name'] in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):\n                continue")]),
    ('more: compact max min swapped', 'C35', [('service/report_service.py', "min_sampling_interval=rd['sampling_rate']['min_period'],\n                                                       max_sampling_interval=rd['sampling_rate']['max_period'])\n                               for rd in report['report_descriptions']]\n                    results = await utils.gather_if_required(results)\n                elif mode == 'full':\n                    results = await utils.await_if_required(self.on_register_report(report))\n            elif report['report_name'] in", "min_sampling_interval=rd['sampling_rate']['max_period'],\n                                                       max_sampling_interval=rd['sampling_rate']['max_period'])\n                               for rd in report['report_descriptions']]\n                    results = await utils.gather_if_required(results)\n                elif mode == 'full':\n                    results = await utils.await_if_required(self.on_register_report(report))\n            elif report['report_name'] in")]),
    ('more: requested only first report', 'C35', [('service/report_service.py', '        for i, report_request in enumerate(report_requests):\n            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):\n                continue\n\n            orig', '        for i, report_request in enumerate(rr for rr in report_requests if rr is not None):\n            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):\n                continue\n\n            orig')]),
    ('more: request id once', 'C35', [('service/report_service.py', '            report_request_id = utils.generate_id()\n            specifier_payloads = []', '            report_request_id = report_request_id if i and oadr_report_requests else utils.generate_id()\n            specifier_payloads = []')]),
    ('more: one unusable drops all', 'C35', [('service/report_service.py', 'or all(rrq is None for rrq in report_request):\n                continue\n\n            orig', 'or any(rrq is None for rrq in report_request):\n                continue\n\n            orig')]),
    ('more: update unknown rid stops', 'C34', [('service/report_service.py', '                if (report_request_id, r_id) in self.report_callbacks:\n', '                if (report_request_id, r_id) not in self.report_callbacks:\n                    break\n                else:\n')]),
    ('more: values dtstart of report', 'C34', [('service/report_service.py', "values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]", "values = [(report.get('dtstart', ri['dtstart']), ri['report_payload']['value']) for ri in values]")]),
    ('more: values falsy dropped', 'C34', [('service/report_service.py', "values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]", "values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values if ri['report_payload']['value']]")]),
    ('more: only one report fallback', 'C34', [('service/report_service.py', '                if iscoroutine(result):\n                    result = await result\n                continue', '                if iscoroutine(result):\n                    result = await result\n                break')]),
    ('more: coroutine single', 'C34', [('service/report_service.py', '                    result = self.report_callbacks[(report_request_id, r_id)](values)\n                    if iscoroutine(result):\n                        result = await result', '                    result = self.report_callbacks[(report_request_id, r_id)](values)\n                    if iscoroutine(result) and len(values) > 1:\n                        result = await result')]),
    ('more: reports default None', 'C34', [('service/report_service.py', "        for report in payload.get('reports', []):", "        for report in payload['reports'][:1]:")]),
    ('more: offer slice', 'C49', [('service/report_service.py', "report_copy['report_name'] = report_copy['report_name'][9:]", "report_copy['report_name'] = report_copy['report_name'].lstrip('METADATA_')")]),
    ('more: offer no copy', 'C49', [('service/report_service.py', 'report_copy = report.copy()', 'report_copy = report')]),
    ('more: offer reset', 'C49', [('service/report_service.py', "            if payload['ven_id'] not in self.registered_reports:\n                self.registered", "            if payload['ven_id'] not in self.registered_reports or report is payload['reports'][0]:\n                self.registered")]),
    ('more: created stored under request', 'C49', [('service/report_service.py', "self.created_reports[ven_id].append(pending_report['report_request_id'])", "self.created_reports[ven_id] = [pending_report['report_request_id']]")]),
    ('more: created only requested', 'C49', [('service/report_service.py', "                self.created_reports[ven_id].append(pending_report['report_request_id'])", "                if pending_report['report_request_id'] in [r.report_request_id for r in self.requested_reports.get(ven_id, [])]:\n                    self.created_reports[ven_id].append(pending_report['report_request_id'])")]),
    ('more: duration only when shorter', 'C18', [('preflight.py', '            else:\n                logger.warning(f"The active_period duration for event "', '            elif signal_durations[0] > active_period_duration:\n                logger.warning(f"The active_period duration for event "')]),
    ('more: simple range', 'C18', [('preflight.py', 'not in (0, 1, 2, 3)', 'not in range(0, 5)')]),
    ('more: simple truthy payload', 'C18', [('preflight.py', "                    if interval['signal_payload'] not in (0, 1, 2, 3):", "                    if interval['signal_payload'] and int(interval['signal_payload']) not in (0, 1, 2, 3):")]),
    ('more: current value near', 'C18', [('preflight.py', '!= enums.EVENT_STATUS.ACTIVE:', 'in (enums.EVENT_STATUS.FAR, enums.EVENT_STATUS.NEAR):')]),
    ('more: simple only first signal', 'C18', [('preflight.py', "    # Check that the current_value is 0 for SIMPLE events that are not yet active (rule 14)\n    for event in message_payload['events']:\n        for event_signal in event['event_signals']:", "    # Check that the current_value is 0 for SIMPLE events that are not yet active (rule 14)\n    for event in message_payload['events']:\n        for event_signal in event['event_signals'][:1]:")]),
    ('more: response required none', 'C18', [('preflight.py', "elif event['response_required'] not in ('never', 'always'):", "elif event['response_required'] is not None and event['response_required'] not in ('never', 'always'):")]),
    ('more: shared interval durations set', 'C18', [('preflight.py', '            if not all([d == signal_durations[0] for d in signal_durations]):', '            if not any([d == signal_durations[0] for d in signal_durations[1:]] or [True]):')]),
    ('more: report name prefix', 'C18', [('preflight.py', '                and not report[\'report_name\'].startswith("METADATA"):', '                and \'USAGE\' in report[\'report_name\'] and not report[\'report_name\'].startswith("METADATA"):')]),
    ('more: power attributes only real', 'C18', [('utils.py', "    if 'power' in name:\n", "    if name == 'powerReal':\n")]),
    ('more: group falsy', 'C19', [('utils.py', '            if value is None:\n                continue\n            if key not in targets', '            if not value:\n                continue\n            if key not in targets')]),
    ('more: preflight order-insens', 'C19', [('preflight.py', "if utils.group_targets_by_type(event['targets']) != event['targets_by_type']:", "if set(utils.group_targets_by_type(event['targets'])) != set(event['targets_by_type']):")]),
    ('more: nonce time', 'C25', [('messaging.py', 'nonce_element.text = uuid4().hex', 'nonce_element.text = uuid4().hex[:4]')]),
    ('more: sign without c14n message', 'C25', [('messaging.py', '                          signed_object=signed_object)\n    logger', "                          signed_object=signed_object.replace(' />', '/>'))\n    logger")]),
    ('more: timestamp local', 'C25', [('messaging.py', 'dt_element.text = utils.datetimeformat(datetime.now(timezone.utc))', 'dt_element.text = datetime.now().strftime(utils.DATETIME_FORMAT)')]),
    ('more: replay order', 'C05', [('messaging.py', '        elif (timestamp, nonce) in NONCE_CACHE:', '        elif (timestamp, nonce) in NONCE_CACHE and len(NONCE_CACHE) < 1000:')]),
    ('more: cache drop early', 'C05', [('messaging.py', '    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:', '    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp <= datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA / 2:')]),
    ('more: cache timestamp only', 'C05', [('messaging.py', '    NONCE_CACHE.add((timestamp, nonce))', '    if nonce:\n        NONCE_CACHE.add((timestamp, nonce))')]),
    ('more: fingerprint case', 'C01', [('messaging.py', '        if connection_fingerprint != expected_fingerprint:', '        if not connection_fingerprint.endswith(expected_fingerprint):')]),
    ('more: micro pad', 'C24', [('utils.py', 'micro = int(micro + "0" * (6 - len(micro)))', 'micro = int(micro)')]),
    ('more: neg duration parse', 'C24', [('utils.py', 'if matches.groups()[0] == "-":', 'if matches.groups()[0] == "-" and not days:')]),
    ('more: td days', 'C24', [('utils.py', '    days = value.days\n    hours,', '    days = value.days % 365\n    hours,')]),
    ('more: dtformat naive', 'C24', [('utils.py', '    return value.astimezone(timezone.utc).strftime(format)', '    return (value if value.tzinfo is None else value.astimezone(timezone.utc)).strftime(format)')]),
    ('more: float regex', 'C26', [('utils.py', "if re.match(r'^-?\\d+$', value):", "if re.match(r'^\\d+$', value):")]),
    ('more: payload zero', 'C26', [('utils.py', "                if 'payload_float' in d[key] and 'value' in d[key]['payload_float'] \\\n                        and d[key]['payload_float']['value'] is not None:", "                if 'payload_float' in d[key] and 'value' in d[key]['payload_float'] \\\n                        and d[key]['payload_float']['value']:")]),
    ('more: test event', 'C26', [('utils.py', "elif key == 'test_event' and not isinstance(d[key], bool):", "elif key == 'test_event':")]),
    ('more: measurement break', 'C26', [('utils.py', '                        name, item = measurement, description.pop(measurement)\n                        break\n                else:\n                    continue\n', '                        name, item = measurement, description.pop(measurement)\n                        break\n                else:\n                    break\n')]),
    ('more: startafter lost', 'C26', [('utils.py', 'elif key in ("duration", "startafter", "max_period", "min_period"):', 'elif key in ("duration", "max_period", "min_period"):')]),
    ('more: completed strict', 'C16', [('utils.py', 'if now >= active_period_end and getmember', 'if now > active_period_end and getmember')]),
    ('more: near default', 'C16', [('utils.py', "        if now >= ramp_up_start:\n            return 'near'", "        if now > ramp_up_start and getmember(active_period, 'ramp_up_period'):\n            return 'near'")]),
    ('more: naive as utc', 'C16', [('utils.py', 'active_period_start = active_period_start.astimezone(timezone.utc)', 'active_period_start = active_period_start.replace(tzinfo=timezone.utc)')]),
    ('more: zero duration completes', 'C16', [('utils.py', " and getmember(active_period, 'duration').total_seconds() > 0:", " and getmember(active_period, 'duration').seconds > 0:")]),
    ('more: priority sort before start', 'C17', [('utils.py', "    # Sort the active events by start date\n    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))\n\n    # Sort the active events by priority\n    active_events.sort(key=lambda e: event_priority(e))", "    active_events.sort(key=lambda e: event_priority(e))\n    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))")]),
    ('more: priority none first', 'C17', [('utils.py', "        priority = getmember(event, 'event_descriptor.priority', missing=float('inf'))\n        if priority == 0:", "        priority = getmember(event, 'event_descriptor.priority', missing=0) or 0\n        if priority < 0:")]),
    ('more: limit zero', 'C17', [('utils.py', '    if limit and offset:\n        return ordered_events[offset:offset+limit]\n    return ordered_events', '    return ordered_events[:limit or 25]')]),
    ('more: poll external list', 'C27', [('service/poll_service.py', "        if isinstance(result, list):\n            return 'oadrDistributeEvent', {'events': result}", "        if isinstance(result, list):\n            return 'oadrDistributeEvent', {'events': utils.order_events(result)}")]),
    ('more: opt both', 'C45', [('objects.py', 'if self.event_id is not None and self.vavailability is not None', 'if self.event_id and self.vavailability and self.targets is None')]),
    ('more: autoescape', 'C20', [('messaging.py', 'autoescape=True)', 'autoescape=False)')]),
    ('more: hook stop', 'C39', [('hooks.py', '        result = hook(*args, **kwargs)\n', '        result = hook(*args, **kwargs)\n        if result is False:\n            break\n')]),
    ('more: hook only one task', 'C39', [('hooks.py', '            loop.create_task(result)', '            return loop.create_task(result)')]),
    ('more: gather mixed', 'C44', [('utils.py', '            results = [await await_if_required(result) for result in results]', '            results = await asyncio.gather(*[r for r in results if asyncio.iscoroutine(r)])')]),
    ('more: lookup not awaited', 'C44', [('messaging.py', 'ven_info = await utils.await_if_required(ven_lookup(ven_id))', 'ven_info = ven_lookup(ven_id)')]),
    ('more: report descr shared', 'C43', [('objects.py', '    report_descriptions: List[ReportDescription] = None\n    created_date_time: datetime = None', '    report_descriptions: List[ReportDescription] = field(default_factory=lambda _l=[]: _l)\n    created_date_time: datetime = None')]),
    ('more: handlers class level', 'C43', [('service/report_service.py', '        self.report_callbacks = {}\n        self.registered_reports = {}', '        self.registered_reports = {}'), ('service/report_service.py', 'class ReportService(VTNService):\n', 'class ReportService(VTNService):\n    report_callbacks = {}\n')]),
    ('more: wrong name in branch', 'C51', [('service/report_service.py', 'report[\'report_name\']}.")\n                report_requests.append(None)', 'name}.")\n                report_requests.append(None)')]),
    ('more: reg id kept on refusal other', 'C38', [('client.py', "            self.registration_id = None\n\n        if response_payload.get('ven_id'):", "            self.registration_id = registration_id\n\n        if response_payload.get('ven_id'):")]),
    ('more: poll freq only positive', 'C38', [('client.py', "        if self.registration_id:\n            self.vtn_id = response_payload.get('vtn_id')\n            self.poll", "        if self.registration_id:\n            self.vtn_id = response_payload.get('vtn_id') or self.vtn_id\n            self.poll")]),
    ('more: ven_id kept', 'C38', [('client.py', '            self.ven_id = response_payload[\'ven_id\']\n        else:\n            logger.error("No venID', '            self.ven_id = self.ven_id or response_payload[\'ven_id\']\n        else:\n            logger.error("No venID')]),
    ('more: rereg worker always', 'C37', [('client.py', 'if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):\n            self.report_queue_task = self.loop.create_task(self._report_queue_worker())\n\n        # Perform initial event sync\n        await self.sync_events()\n\n    async def cancel', 'if self.reports:\n            self.report_queue_task = self.loop.create_task(self._report_queue_worker())\n\n        # Perform initial event sync\n        await self.sync_events()\n\n    async def cancel')]),
    ('more: cancel keeps pending', 'C38', [('client.py', '            self.incomplete_reports = {}\n            self.pending_reports = asyncio.Queue()\n            if', '            self.incomplete_reports = {}\n            if')]),
    ('more: cancel keeps incomplete', 'C38', [('client.py', '            self.report_requests = []\n            self.incomplete_reports = {}\n            self.pending', '            self.report_requests = []\n            self.pending')]),
    ('more: cancel no 200 check', 'C38', [('client.py', "response_type == 'oadrCanceledPartyRegistration' and response_payload['response']['response_code'] == 200:", "response_type == 'oadrCanceledPartyRegistration':")]),
    ('more: incoming cancel no regid', 'C38', [('client.py', "if self.registration_id != message['registration_id']:", "if message['registration_id'] and self.registration_id != message['registration_id']:")]),
    ('more: incoming cancel order', 'C38', [('client.py', '        self.registration_id = None\n        logger.info(response_type, response_payload)', '        if response_type is not None:\n            self.registration_id = None\n        logger.info(response_type, response_payload)')]),
    ('more: opt cancel remove before', 'C46', [('client.py', '            self.opts.remove(opt)\n            return True', '            self.opts = [o for o in self.opts if o.event_id != opt.event_id]\n            return True')]),
    ('more: create opt returns own', 'C46', [('client.py', '            return response_payload[\'opt_id\']\n        else:\n            logging.error(f"VTN did not acknowledge the opt message")', '            return opt_id\n        else:\n            logging.error(f"VTN did not acknowledge the opt message")')]),
    ('more: replay only if modification same or lower', 'C11', [('client.py', "if received_event['event_descriptor']['modification_number'] == modification_number:", "if received_event['event_descriptor']['modification_number'] >= modification_number:")]),
    ('more: remember after all', 'C11', [('client.py', '                results.append(result)\n                self.responded_events[event_id] = result\n', "                results.append(result)\n                if result in ('optIn', 'optOut'):\n                    self.responded_events[event_id] = result\n")]),
    ('more: remember only when required', 'C11', [('client.py', '                self.responded_events[event_id] = result\n', "                if event['response_required'] == 'always':\n                    self.responded_events[event_id] = result\n")]),
    ('more: one failure truncates', 'C10', [('client.py', "results = ['optOut'] * len(events)", "results = results + ['optOut'] * (len(events) - len(results))")]),
    ('more: event not stored when cancelled', 'C11', [('client.py', '                    self.received_events.append(event)\n                    result = self.on_event(event)', "                    if event_status != 'cancelled':\n                        self.received_events.append(event)\n                    result = self.on_event(event)")]),
    ('more: results index after filter', 'C10', [('client.py', "'opt_type': results[i],\n                                        'request_id': message['request_id'],\n                                        'modification_number': events[i]", "'opt_type': results[len(event_responses)],\n                                        'request_id': message['request_id'],\n                                        'modification_number': events[i]")]),
    ('more: single signal code', 'C10', [('client.py', 'while (j < len(signals) and response_code == 200):', 'while (j < len(signals) - 1 and response_code == 200):')]),
    ('more: response code carried', 'C10', [('client.py', '                j = 0\n                response_code = 200\n                while', "                j = 0\n                response_code = event_responses[-1]['response_code'] if event_responses else 200\n                while")]),
    ('more: completed by status', 'C10', [('client.py', "and not utils.determine_event_status(event['active_period']) == 'completed':\n                if", "and event['event_descriptor']['event_status'] != 'completed':\n                if")]),
    ('more: hook errors', 'C39', [('client.py', '        for hook in self.hooks[hook_name]:\n            try:\n                await utils.await_if_required(hook(*args, **kwargs))\n            except Exception as err:', '        try:\n            for hook in self.hooks[hook_name]:\n                await utils.await_if_required(hook(*args, **kwargs))\n        except Exception as err:\n            hook = hook_name\n            if True:')]),
    ('more: sig only if vtn fp and status', 'C04', [('client.py', '            if self.vtn_fingerprint:\n                validate_xml_signature(tree', '            if self.vtn_fingerprint and self.registration_id:\n                validate_xml_signature(tree')]),
    ('more: mismatch passes', 'C04 C39 C40', [('client.py', '        except errors.FingerprintMismatch as err:\n            logger.warning(err)\n            return None, {}', '        except errors.FingerprintMismatch as err:\n            logger.warning(err)\n            message_type, message_payload = parse_message(content)')]),
    ('more: timeout not caught', 'C40', [('client.py', '        except Exception as err:\n            logger.error(f"Request error {err.__class__.__name__}:{err}")\n            return None, {}', '        except aiohttp.ClientError as err:\n            logger.error(f"Request error {err.__class__.__name__}:{err}")\n            return None, {}')]),
    ('more: mismatch unit scale', 'C31', [('client.py', "if measurement['unit'] != rd.measurement.unit:", "if measurement.get('unit') and measurement['unit'].lower() != rd.measurement.unit.lower():")]),
    ('more: invalid resets', 'C30', [('client.py', "        service = 'EiReport'\n        response_code = 200\n\n        for report_request in response_payload['report_requests']:\n            single", "        service = 'EiReport'\n\n        for report_request in response_payload['report_requests']:\n            response_code = 200\n            single")]),
    ('more: single flag outer', 'C30', [('client.py', "        for report_request in response_payload['report_requests']:\n            single = False\n            requested_r_ids = []", "        single = False\n        for report_request in response_payload['report_requests']:\n            requested_r_ids = []")]),
    ('more: date job partial late', 'C30', [('client.py', 'report_callback = partial(self.update_report, report_request_id=report_request_id)', 'report_callback = lambda: self.update_report(report_request_id)')]),
    ('more: cron of report back', 'C52', [('client.py', 'reporting_interval = granularity or report_back_duration', 'reporting_interval = min(granularity, report_back_duration)')]),
    ('more: int only', 'C32', [('client.py', 'if isinstance(result, (int, float)):', 'if isinstance(result, (int, float)) and not isinstance(result, bool):')]),
    ('more: expected len of ids in use', 'C32', [('client.py', "expected_len = len(report_request['r_ids']) * int", 'expected_len = len(report.report_descriptions) * int')]),
    ('more: float ratio', 'C32', [('client.py', 'int(report_interval / sampling_interval)', 'int(report_interval // sampling_interval + 1)')]),
    ('more: incomplete key specifier', 'C32', [('client.py', 'self.incomplete_reports[report_request_id] = outgoing_report', 'self.incomplete_reports.setdefault(report_request_id, outgoing_report)')]),
    ('more: worker breaks', 'C33', [('client.py', '                except Exception as err:\n                    logger.error(f"Unable to send the report', '                except ValueError as err:\n                    logger.error(f"Unable to send the report')]),
    ('more: cancel only first', 'C33', [('client.py', "                    if 'cancel_report' in response_payload:", "                    if response_type == 'oadrUpdatedReport' and response_payload.get('cancel_report') and self.pending_reports.empty():")]),
    ('more: callback specifier id arg', 'C29', [('client.py', 'self.report_callbacks[(report.report_specifier_id, r_id)] = callback', 'self.report_callbacks[(report_specifier_id, r_id)] = callback')]),
    ('more: unit assign', 'C29', [('client.py', '        if not report:\n            report_specifier_id = report_specifier_id or', '        if not report or report.data_collection_mode != data_collection_mode:\n            report_specifier_id = report_specifier_id or')]),
    ('more: find by specifier only', 'C29', [('client.py', "                                   'report_name', report_name,\n                                   'report_specifier_id', report_specifier_id)", "                                   'report_specifier_id', report_specifier_id)")]),
    ('more: scale reset', 'C29', [('client.py', 'item_base.scale = scale or item_base.scale or enums.SI_SCALE_CODE.none', 'item_base.scale = scale or enums.SI_SCALE_CODE.none')]),
    ('more: completed ids global key', 'C12 C14', [('service/event_service.py', 'self.completed_event_ids.get(ven_id, [])', '[e for ids in self.completed_event_ids.values() for e in ids]')]),
    ('more: delivery cb popped', 'C13', [('service/event_service.py', 'await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())', 'await utils.await_if_required(self.event_delivery_callbacks.pop((ven_id, event_id))())')]),
    ('more: empty order', 'C13', [('service/event_service.py', '            if ven_id in self.events and self.events[ven_id]:', '            if self.events.get(ven_id) and len(self.events[ven_id]) > 0 and self.events[ven_id][0] is not None:')]),
    ('more: cancel pop any mod', 'C12', [('service/event_service.py', "                                      'event_descriptor.modification_number', modification_number)", "                                      'event_descriptor.modification_number', modification_number) or \\\n                    utils.find_by(self.events.get(ven_id, []), 'event_descriptor.event_id', event_id)")]),
    ('more: optout keeps', 'C12', [('service/event_service.py', '                if (ven_id, event_id) in self.event_callbacks:\n                    event, callback', '                if event and (ven_id, event_id) in self.event_callbacks:\n                    event, callback')]),
    ('more: future cancelled', 'C12', [('service/event_service.py', 'if callback.done():', 'if callback.cancelled():')]),
    ('more: second response loop break', 'C12', [('service/event_service.py', '                        else:\n                            callback.set_result(opt_type)', '                        else:\n                            callback.set_result(opt_type)\n                            break')]),
    ('more: cb error swallowed others', 'C12', [('service/event_service.py', '                        raise errors.InvalidIdError', "                        return 'oadrResponse', {}")]),
    ('more: created cancelled removes updated flag', 'C12', [('service/event_service.py', "                    utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)", '                    self.events.pop(ven_id)')]),
    ('more: external created event mixed', 'C12', [('service/event_service.py', "                opt_type = event_response['opt_type']\n                result = await", "                opt_type = payload['event_responses'][0]['opt_type']\n                result = await")]),
    ('more: poll flag pop after', 'C13', [('service/poll_service.py', "            self.events_updated[payload['ven_id']] = False\n            result = await self.event_service.request_event({'ven_id': payload['ven_id']})", "            result = await self.event_service.request_event({'ven_id': payload['ven_id']})\n            self.events_updated[payload['ven_id']] = False")]),
    ('more: poll flag clear', 'C13 C14', [('service/poll_service.py', "self.events_updated[payload['ven_id']] = False", 'self.events_updated.clear()')]),
    ('more: cancel twice', 'C15', [('server.py', "        utils.setmember(event, 'event_descriptor.event_status', enums.EVENT_STATUS.CANCELLED)\n        utils.inc", "        if utils.getmember(event, 'event_descriptor.event_status') == 'active':\n            utils.setmember(event, 'event_descriptor.event_status', enums.EVENT_STATUS.CANCELLED)\n        utils.inc")]),
    ('more: cancel flag only when far', 'C15', [('server.py', '        utils.increment_event_modification_number(event)\n        self.events_updated[ven_id] = True', '        if not self.events_updated.get(ven_id):\n            utils.increment_event_modification_number(event)\n        self.events_updated[ven_id] = True')]),
    ('more: no prefix upper', 'C47', [('server.py', "not signal_name.startswith('x-')", "not signal_name.lower().startswith('x-')")]),
    ('more: targets tuple', 'C47', [('server.py', '        if not isinstance(targets, list):\n            targets = [targets]', '        if isinstance(targets, dict):\n            targets = [targets]')]),
    ('more: event id reused', 'C47', [('server.py', '        event_id = event_id or utils.generate_id()\n\n        if response', "        event_id = event_id if event_id not in (None, '') and event_id not in [utils.getmember(e, 'event_descriptor.event_id') for e in self.events.get(ven_id, [])] else utils.generate_id()\n\n        if response")]),
    ('more: callback key only event', 'C47', [('server.py', '        if callback is not None:\n            self.event_callbacks[(ven_id, event_id)] = (event, callback)', '        if callback is not None and (ven_id, event_id) not in self.event_callbacks:\n            self.event_callbacks[(ven_id, event_id)] = (event, callback)')]),
    ('more: dst naive', 'C47', [('server.py', "utils.getmember(interval, 'dtstart').astimezone(timezone.utc))", "utils.getmember(interval, 'dtstart').replace(tzinfo=timezone.utc))")]),
    ('more: priority truthy', 'C47', [('server.py', "        if not utils.getmember(event, 'event_descriptor.priority', None):", "        if utils.getmember(event, 'event_descriptor.priority', None) != 1:")]),
    ('more: market context dropped', 'C47', [('server.py', 'market_context=market_context,\n', "market_context=market_context.rstrip('/'),\n")]),
    ('more: recovery as ramp', 'C47', [('server.py', 'active_period.recovery_period = recovery_period', 'active_period.recovery_period = recovery_period or ramp_up_period')]),
    ('more: ca check cond', 'C48', [('server.py', 'self.ssl_context.verify_mode = ssl.CERT_REQUIRED', 'self.ssl_context.verify_mode = ssl.CERT_REQUIRED if ven_lookup or fingerprint_lookup else ssl.CERT_OPTIONAL')]),
    ('more: sign only https', 'C25', [('server.py', '            service._create_message = partial(create_message, cert=cert, key=key,\n                                              passphrase=passphrase)', '            service._create_message = partial(create_message, cert=cert, key=key,\n                                              passphrase=passphrase, disable_signature=not verify_message_signatures)')]),
    ('more: prefix lstrip', 'C08', [('server.py', 'http_path_prefix = http_path_prefix.rstrip("/")', "http_path_prefix = http_path_prefix.replace('//', '/')")]),
    ('more: reg len any', 'C09', [('service/registration_service.py', '            if len(result) != 2:', '            if len(result) < 2:')]),
    ('more: cancel other id', 'C09', [('service/registration_service.py', "        if result is None:\n            result = 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}", "        if result is None:\n            result = 'oadrCanceledPartyRegistration', {'registration_id': payload.get('registration_id') or payload['ven_id']}")]),
    ('more: query default own profiles', 'C09', [('service/registration_service.py', '            return result\n\n        # If you', "            if isinstance(result, tuple) and result[1].get('profiles'):\n                return result\n\n        # If you")]),
    ('more: vtn id prefix', 'C02', [('service/vtn_service.py', "and message_payload['vtn_id'] != self.vtn_id:", "and message_payload['vtn_id'].lower() != self.vtn_id.lower():")]),
    ('more: rereg of cancel skipped', 'C02', [('service/vtn_service.py', "if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \\\n                    and 'ven_id' in message_payload and hasattr(self, 'ven_lookup'):", "if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration', 'oadrCanceledPartyRegistration') \\\n                    and 'ven_id' in message_payload and hasattr(self, 'ven_lookup'):")]),
    ('more: reg id empty', 'C02', [('service/vtn_service.py', "if result is None or result.get('registration_id', None) is None:", "if result is None or 'registration_id' not in result:")]),
    ('more: response kept', 'C07', [('service/vtn_service.py', "            response_payload['response'] = {'request_id': message_payload.get('request_id', None),", "            response_payload['response'] = response_payload.get('response') or {'request_id': message_payload.get('request_id', None),")]),
    ('more: ven id of the handler dropped', 'C07', [('service/vtn_service.py', "if 'ven_id' in message_payload and not response_payload.get('ven_id'):", "if 'ven_id' in message_payload:")]),
    ('more: error response created reg', 'C53', [('service/vtn_service.py', "        if message_type == 'oadrRequestEvent':", "        elif message_type == 'oadrRequestEvent':")]),
    ('more: status data source', 'C35', [('service/report_service.py', "resource_id=rd.get('report_data_source', {}).get('resource_id'),\n                                                       measurement='Status'", "resource_id=rd.get('report_subject', {}).get('resource_id'),\n                                                       measurement='Status'")]),
    ('more: unsupported stop', 'C35', [('service/report_service.py', '                               f"Skipping report with name {report[\'report_name\']}.")\n                report_requests.append(None)\n                continue', '                               f"Skipping report with name {report[\'report_name\']}.")\n                continue')]),
    ('more: nonce only', 'C05', [('messaging.py', 'elif (timestamp, nonce) in NONCE_CACHE:', 'elif nonce in NONCE_CACHE:')]),
    ('more: nonce update order', 'C05', [('messaging.py', '    NONCE_CACHE.add((timestamp, nonce))\n    for timestamp', '    if len(NONCE_CACHE) < 1000:\n        NONCE_CACHE.add((timestamp, nonce))\n    for timestamp')]),
    ('more: future never expires', 'C05', [('messaging.py', '        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n            NONCE_CACHE.remove', '        if timestamp < datetime.now(timezone.utc):\n            NONCE_CACHE.remove')]),
    ('more: verify protect only with fp', 'C05', [('messaging.py', '    _verify_replay_protect(xml_tree)\n\n\ndef validate_xml_signature_none', '    if cert_fingerprint:\n        _verify_replay_protect(xml_tree)\n\n\ndef validate_xml_signature_none')]),
    ('more: parser once', 'C03', [('messaging.py', '    tree = etree.fromstring(content, XML_PARSER)\n    return tree', '    tree = etree.fromstring(content)\n    if not XML_SCHEMA.validate(tree):\n        logger.warning(XML_SCHEMA.error_log)\n    return tree')]),
    ('more: ven lookup first', 'C01', [('messaging.py', '        if connection_fingerprint != expected_fingerprint:', '        if not connection_fingerprint.startswith(expected_fingerprint):')]),
    ('more: disable when no passphrase', 'C25', [('messaging.py', 'if cert and key and not disable_signature:', "if cert and key and not disable_signature and message_type not in ('oadrResponse', 'oadrPoll'):")]),
]
