S = 'service/vtn_service.py'
M = 'messaging.py'
U = 'utils.py'
BUGS = [
    ('fp-not-compared', 'C01', [(M, "if connection_fingerprint != expected_fingerprint:", "if connection_fingerprint != expected_fingerprint and not verify_message_signature:")]),
    ('fp-case', 'C01', [(M, "if connection_fingerprint != expected_fingerprint:", "if not connection_fingerprint.endswith(expected_fingerprint):")]),
    ('auth-swallow', 'C01', [(S, "                    await authenticate_message(request, message_tree, message_payload,\n                                               fingerprint_lookup=self.fingerprint_lookup,\n                                               verify_message_signature=self.verify_message_signatures)",
      "                    try:\n                        await authenticate_message(request, message_tree, message_payload,\n                                               fingerprint_lookup=self.fingerprint_lookup,\n                                               verify_message_signature=self.verify_message_signatures)\n                    except ValueError:\n                        pass")]),
    ('auth-only-some-types', 'C01', [(S, "            if request.secure and 'ven_id' in message_payload:\n                if hasattr", "            if request.secure and 'ven_id' in message_payload and message_type != 'oadrPoll':\n                if hasattr")]),
    ('no-await', 'C01', [(M, "expected_fingerprint = await utils.await_if_required(fingerprint_lookup(ven_id))", "expected_fingerprint = utils.await_if_required(fingerprint_lookup(ven_id))")]),
    ('sig-skipped-when-fp-ok', 'C01', [(M, "            try:\n                validate_xml_signature(message_tree)\n            except ValueError:", "            try:\n                if message_fingerprint != connection_fingerprint:\n                    validate_xml_signature(message_tree)\n            except ValueError:")]),
    ('sig-error-swallowed', 'C01', [(M, "            except ValueError:\n                msg = (\"The message signature did not", "            except ValueError:\n                logger.warning('x')\n                return\n                msg = (\"The message signature did not")]),
    ('default-off', 'C01', [(S, "                    await authenticate_message(request, message_tree, message_payload,\n                                               ven_lookup=self.ven_lookup,\n                                               verify_message_signature=self.verify_message_signatures)", "                    await authenticate_message(request, message_tree, message_payload,\n                                               ven_lookup=self.ven_lookup,\n                                               verify_message_signature=False)")]),
    ('elif-noid', 'C01', [(S, "message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \\\n                    and (hasattr", "message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration', 'oadrCancelPartyRegistration') \\\n                    and (hasattr")]),
    ('expected-none-allowed', 'C01', [(M, "if connection_fingerprint != expected_fingerprint:", "if expected_fingerprint and connection_fingerprint != expected_fingerprint:")]),
    ('vtn-only-if-ven', 'C02', [(S, "if 'vtn_id' in message_payload \\\n", "if 'vtn_id' in message_payload and 'ven_id' in message_payload \\\n")]),
    ('vtn-startswith', 'C02', [(S, "and message_payload['vtn_id'] != self.vtn_id:", "and not message_payload['vtn_id'].startswith(self.vtn_id):")]),
    ('ven-regid-not-checked', 'C02', [(S, "if result is None or result.get('registration_id', None) is None:", "if result is None:")]),
    ('ven-and', 'C02', [(S, "if result is None or result.get('registration_id', None) is None:", "if result is None and result.get('registration_id', None) is None:")]),
    ('ven-type-exempt', 'C02', [(S, "if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \\\n                    and 'ven_id' in message_payload and", "if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration', 'oadrPoll') \\\n                    and 'ven_id' in message_payload and")]),
    ('wrong-code', 'C02', [('errors.py', "self.response_code = STATUS_CODES.INVALID_ID", "self.response_code = STATUS_CODES.INVALID_DATA")]),
    ('rereg-wrong-ven', 'C02', [(S, "raise errors.RequestReregistration(message_payload['ven_id'])", "raise errors.RequestReregistration()")]),
]
SAME = [
    ('vtn-get', 'C01 C02', [(S, "if 'vtn_id' in message_payload \\\n                    and message_payload['vtn_id'] is not None \\\n                    and message_payload['vtn_id'] != self.vtn_id:", "supplied = message_payload.get('vtn_id')\n            if supplied is not None and supplied != self.vtn_id:")]),
    ('gate-helper', 'C01 C02', [(S, "            # Check if we know this VEN, ask for reregistration otherwise\n            if message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \\\n                    and 'ven_id' in message_payload and hasattr(self, 'ven_lookup'):\n                result = await utils.await_if_required(self.ven_lookup(ven_id=message_payload['ven_id']))\n                if result is None or result.get('registration_id', None) is None:\n                    raise errors.RequestReregistration(message_payload['ven_id'])\n", "            await self._check(message_type, message_payload)\n"),
        (S, "    async def handle_message(self,", "    async def _check(self, mt, pl):\n        if mt in ('oadrCreatePartyRegistration', 'oadrQueryRegistration'):\n            return\n        if 'ven_id' not in pl:\n            return\n        lookup = getattr(self, 'ven_lookup', None)\n        if lookup is None:\n            return\n        info = lookup(ven_id=pl['ven_id'])\n        if iscoroutine(info):\n            info = await info\n        if not info or not info.get('registration_id'):\n            raise errors.RequestReregistration(pl['ven_id'])\n\n    async def handle_message(self,")]),
    ('dispatch-get', 'C01 C02', [(S, "        if message_type in self.handlers:\n            handler = self.handlers[message_type]\n", "        handler = self.handlers.get(message_type)\n        if handler is not None:\n")]),
    ('auth-order', 'C01', [(M, "        if verify_message_signature:\n            message_cert", "        if not verify_message_signature:\n            return\n        else:\n            message_cert")]),
    ('auth-eq-else', 'C01', [(M, "        if connection_fingerprint != expected_fingerprint:\n            msg =", "        if connection_fingerprint == expected_fingerprint:\n            pass\n        else:\n            msg =")]),
]
BUGS = [b for b in BUGS if b[0] != 'auth-only-some-types'] + [
    ('ven-override', 'C07', [(S, "if 'ven_id' in message_payload and not response_payload.get('ven_id'):", "if 'ven_id' in message_payload:")]),
    ('rid-missing', 'C07', [(S, "response_payload['response'] = {'request_id': message_payload.get('request_id', None),", "response_payload['response'] = {'request_id': response_payload.get('request_id', None),")]),
    ('vtn-lost', 'C07', [(S, "            response_payload['vtn_id'] = self.vtn_id\n            if 'ven_id' not in response_payload", "            response_payload['vtn_id'] = message_payload.get('vtn_id')\n            if 'ven_id' not in response_payload")]),
    ('unknown-code', 'C07', [(S, "enums.STATUS_CODES.COMPLIANCE_ERROR,", "enums.STATUS_CODES.INVALID_DATA,")]),
    ('none-type', 'C07', [(S, "response_type, response_payload = 'oadrResponse', {}\n\n            response_payload['vtn_id']", "response_type, response_payload = message_type, {}\n\n            response_payload['vtn_id']")]),
    ('except-order', 'C06', [(S, "        except errors.HTTPError as err:\n            # If we throw a http-related error, deal with it here\n            response = web.Response(text=err.response_description,\n                                    status=err.response_code)\n", ""), (S, "        except Exception as err:\n            # In case of some other", "        except Exception as err:\n            # In")]),
    ('sig-500', 'C06', [(S, "response = web.Response(text='Invalid Signature',\n                                    status=HTTPStatus.FORBIDDEN)", "response = web.Response(text='Invalid Signature')")]),
    ('xml-200', 'C06', [(S, "status=HTTPStatus.BAD_REQUEST)\n        except errors.FingerprintMismatch", "status=HTTPStatus.OK)\n        except errors.FingerprintMismatch")]),
    ('narrow-except', 'C06', [(S, "        except Exception as err:\n            # In case of some other error, return", "        except (ValueError, KeyError, TypeError, AttributeError) as err:\n            # In case of some other error, return")]),
    ('code-replaced', 'C06', [(S, "                                                                  err.response_code,\n", "                                                                  enums.STATUS_CODES.INVALID_DATA,\n")]),
    ('protocolerror-500', 'C06', [(S, "response = web.Response(text=msg,\n                                    status=HTTPStatus.OK,\n                                    content_type='application/xml')\n        except errors.HTTPError", "response = web.Response(text=msg,\n                                    status=HTTPStatus.INTERNAL_SERVER_ERROR,\n                                    content_type='application/xml')\n        except errors.HTTPError")]),
    ('content-type', 'C06', [(S, 'if not content_type.lower().startswith("application/xml"):', 'if content_type and not content_type.lower().startswith("application/xml"):')]),
    ('raise-in-except', 'C06', [(S, "logger.warning(err)\n            response = web.Response(text=str(err),", "logger.warning(err)\n            raise errors.HTTPError(status=HTTPStatus.FORBIDDEN)\n            response = web.Response(text=str(err),")]),
    ('recover', 'C03', [(M, "etree.XMLParser(schema=XML_SCHEMA)", "etree.XMLParser(schema=XML_SCHEMA, recover=True)")]),
    ('noparser', 'C03', [(M, "tree = etree.fromstring(content, XML_PARSER)", "tree = etree.fromstring(content)")]),
    ('validate-after', 'C03', [(S, "            message_tree = validate_xml_schema(content)\n\n", ""), (S, "message_type, message_payload = parse_message(content)\n", "message_type, message_payload = parse_message(content)\n            message_tree = validate_xml_schema(content)\n")]),
    ('validate-swallow', 'C03', [('client.py', "            tree = validate_xml_schema(content)\n", "            try:\n                tree = validate_xml_schema(content)\n            except XMLSyntaxError:\n                tree = None\n")]),
    ('validate-only-fp', 'C03', [('client.py', "            tree = validate_xml_schema(content)\n            if self.vtn_fingerprint:\n", "            if self.vtn_fingerprint:\n                tree = validate_xml_schema(content)\n")]),
]
SAME += [
    ('merged-except', 'C06', [(S, "        except errors.FingerprintMismatch as err:\n            logger.warning(err)\n            response = web.Response(text=str(err),\n                                    status=HTTPStatus.FORBIDDEN)\n        except InvalidSignature:\n            logger.warning(\"Incoming message had invalid signature, ignoring.\")\n            response = web.Response(text='Invalid Signature',\n                                    status=HTTPStatus.FORBIDDEN)\n", "        except (errors.FingerprintMismatch, InvalidSignature) as err:\n            logger.warning(err)\n            response = web.Response(text=str(err), status=403)\n")]),
    ('reply-helper', 'C06 C07 C01 C02', [(S, "            msg = self._create_message(response_type, **response_payload)\n            response = web.Response(text=msg,\n                                    status=HTTPStatus.OK,\n                                    content_type='application/xml')\n        hooks", "            response = self._reply(response_type, response_payload)\n        hooks"),
       (S, "    async def handle_message(self,", "    def _reply(self, rt, rp):\n        return web.Response(text=self._create_message(rt, **rp), content_type='application/xml')\n\n    async def handle_message(self,")]),
    ('early-returns', 'C06', [(S, "            response = web.Response(status=HTTPStatus.INTERNAL_SERVER_ERROR)\n", "            failed = web.Response(status=HTTPStatus.INTERNAL_SERVER_ERROR)\n            hooks.call('before_respond', failed.text)\n            return failed\n")]),
    ('update-payload', 'C07', [(S, "            response_payload['response'] = {'request_id': message_payload.get('request_id', None),\n                                            'response_code': 200,\n                                            'response_description': 'OK'}\n            response_payload['request_id'] = utils.generate_id()\n", "            response_payload.update(response=dict(request_id=message_payload.get('request_id', None),\n                                            response_code=200,\n                                            response_description='OK'), request_id=utils.generate_id())\n")]),
]
