M = 'messaging.py'
CL = 'client.py'
SV = 'server.py'
BUGS = [
    ('nonce: not the pair', 'C05', [('messaging.py', "            NONCE_CACHE.remove((timestamp, nonce))", "            NONCE_CACHE.remove((nonce, timestamp))")]),
    ('reply-unverified-poll', 'C04', [(CL, "            if self.vtn_fingerprint:\n", "            if self.vtn_fingerprint and service != 'OadrPoll':\n")]),
    ('reply-nofp', 'C04', [(CL, "validate_xml_signature(tree, cert_fingerprint=self.vtn_fingerprint)", "validate_xml_signature(tree)")]),
    ('fp-mismatch-logged', 'C04', [(M, "            raise errors.FingerprintMismatch(\"The certificate fingerprint was incorrect. \"", "            print(\"The certificate fingerprint was incorrect. \"")]),
    ('verify-skipped', 'C04', [(M, "    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)\n", "    if not cert_fingerprint:\n        VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)\n")]),
    ('verify-swallowed', 'C04', [(M, "    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)\n", "    try:\n        VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)\n    except Exception:\n        if cert_fingerprint is None:\n            raise\n")]),
    ('nonce-optional', 'C05', [(M, "        if nonce is None:\n            raise ValueError(\"Missing 'nonce' element in ReplayProtect in incoming message.\")\n", "")]),
    ('window-flipped', 'C05', [(M, "        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n            raise", "        if timestamp > datetime.now(timezone.utc) + REPLAY_PROTECT_MAX_TIME_DELTA:\n            raise")]),
    ('cache-nonce-only-read', 'C05', [(M, "elif (timestamp, nonce) in NONCE_CACHE:", "elif (nonce, timestamp) in NONCE_CACHE:")]),
    ('cache-early-evict', 'C05', [(M, "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:", "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < datetime.now(timezone.utc) - timedelta(seconds=2):")]),
    ('cache-evict-inverted', 'C05', [(M, "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < ", "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp > ")]),
    ('cache-cleared', 'C05', [(M, "    NONCE_CACHE.add((timestamp, nonce))\n", "    if len(NONCE_CACHE) > 100:\n        NONCE_CACHE.clear()\n    NONCE_CACHE.add((timestamp, nonce))\n")]),
    ('cache-not-list', 'C05', [(M, "    for timestamp, nonce in list(NONCE_CACHE):\n", "    for timestamp, nonce in NONCE_CACHE:\n")]),
    ('add-before-check', 'C05', [(M, "        if nonce is None:\n", "        _update_nonce_cache(timestamp, nonce)\n        if nonce is None:\n"), (M, "    _update_nonce_cache(timestamp, nonce)\n\n\ndef", "\n\ndef")]),
    ('replay-not-checked-fp', 'C05', [(M, "    _verify_replay_protect(xml_tree)\n", "    if not cert_fingerprint:\n        _verify_replay_protect(xml_tree)\n")]),
    ('sign-nothing', 'C25', [(M, "    if cert and key and not disable_signature:", "    if cert and key and passphrase and not disable_signature:")]),
    ('sign-other', 'C25', [(M, "signature_properties=_create_replay_protect())", "signature_properties=Element('ReplayProtect'))")]),
    ('sig-dropped', 'C25', [(M, "                          signature=signature,\n", "                          signature=signature if message_type != 'oadrResponse' else None,\n")]),
    ('nonce-const', 'C25', [(M, "    nonce_element.text = uuid4().hex", "    nonce_element.text = 'abcdef'")]),
    ('wiring-poll', 'C25', [(SV, "        for service in self.services.values():\n            service._create_message = partial(create_message, cert=cert, key=key,\n                                              passphrase=passphrase)", "        for service in self.services.values():\n            service._create_message = partial(create_message, cert=cert, key=key)")]),
    ('client-nopass', 'C25', [(CL, "passphrase=passphrase,", "passphrase=None,")]),
    ('cert-optional', 'C48', [(SV, "self.ssl_context.verify_mode = ssl.CERT_REQUIRED", "self.ssl_context.verify_mode = ssl.CERT_OPTIONAL")]),
    ('ssl-no-ctx', 'C48', [(SV, "ssl_context=self.ssl_context)\n        await site", "ssl_context=None)\n        await site")]),
    ('ssl-only-show', 'C48', [(SV, "if http_cert and http_key and http_ca_file:", "if http_cert and http_key and http_ca_file and cert:")]),
]
SAME = [
    ('age', 'C05', [(M, "        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n            raise ValueError(\"The message was signed too long ago.\")", "        if datetime.now(timezone.utc) - timestamp > REPLAY_PROTECT_MAX_TIME_DELTA:\n            raise ValueError(\"The message was signed too long ago.\")")]),
    ('key-var', 'C05', [(M, "    NONCE_CACHE.add((timestamp, nonce))\n    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n            NONCE_CACHE.remove((timestamp, nonce))", "    pair = (timestamp, nonce)\n    NONCE_CACHE.add(pair)\n    limit = datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA\n    for old in list(NONCE_CACHE):\n        if old[0] < limit:\n            NONCE_CACHE.discard(old)")]),
    ('stale-comp', 'C05', [(M, "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n            NONCE_CACHE.remove((timestamp, nonce))", "    stale = [pair for pair in NONCE_CACHE if pair[0] < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA]\n    for pair in stale:\n        NONCE_CACHE.remove(pair)")]),
    ('stale-diff', 'C05', [(M, "    for timestamp, nonce in list(NONCE_CACHE):\n        if timestamp < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA:\n            NONCE_CACHE.remove((timestamp, nonce))", "    stale = {pair for pair in NONCE_CACHE if pair[0] < datetime.now(timezone.utc) - REPLAY_PROTECT_MAX_TIME_DELTA}\n    NONCE_CACHE.difference_update(stale)")]),
    ('split', 'C05 C04', [(M, "    _verify_replay_protect(xml_tree)\n", "    ts, nonce = _verify_replay_protect(xml_tree)\n    _update_nonce_cache(ts, nonce)\n"), (M, "    _update_nonce_cache(timestamp, nonce)\n\n\ndef", "    return timestamp, nonce\n\n\ndef")]),
    ('sign-helper', 'C25', [(M, "        tree = etree.fromstring(signed_object)\n        signature_tree = SIGNER.sign(tree,\n                                     key=key,\n                                     cert=cert,\n                                     passphrase=utils.ensure_bytes(passphrase),\n                                     reference_uri=\"#oadrSignedObject\",\n                                     signature_properties=_create_replay_protect())\n        signature = etree.tostring(signature_tree).decode('utf-8')\n", "        signature = _sign(signed_object, key, cert, passphrase)\n"), (M, "def validate_xml_schema(content):", "def _sign(signed_object, key, cert, passphrase):\n    sig = SIGNER.sign(etree.fromstring(signed_object), key=key, cert=cert,\n                      passphrase=utils.ensure_bytes(passphrase), reference_uri=\"#oadrSignedObject\",\n                      signature_properties=_create_replay_protect())\n    return etree.tostring(sig).decode('utf-8')\n\n\ndef validate_xml_schema(content):")]),
    ('factory-local', 'C25', [(SV, "        for service in self.services.values():\n            service._create_message = partial(create_message, cert=cert, key=key,\n                                              passphrase=passphrase)", "        factory = partial(create_message, cert=cert, key=key, passphrase=passphrase)\n        for name in self.services:\n            self.services[name]._create_message = factory")]),
    ('client-with', 'C25 C04', [(CL, "            if self.vtn_fingerprint:\n", "            pinned = self.vtn_fingerprint\n            if pinned is not None and pinned:\n")]),
    ('ssl-helper', 'C48', [(SV, "            self.ssl_context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)\n            self.ssl_context.load_verify_locations(http_ca_file)\n            self.ssl_context.verify_mode = ssl.CERT_REQUIRED\n            self.ssl_context.load_cert_chain(http_cert, http_key, http_key_passphrase)\n", "            context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)\n            context.verify_mode = ssl.CERT_REQUIRED\n            context.load_cert_chain(http_cert, keyfile=http_key, password=http_key_passphrase)\n            context.load_verify_locations(cafile=http_ca_file)\n            self.ssl_context = context\n")]),
]
