"""C50 and C51."""
U = 'utils.py'
K = 'client.py'
S = 'server.py'
O = 'objects.py'
M = 'messaging.py'
V = 'service/vtn_service.py'
E = 'service/event_service.py'
R = 'service/report_service.py'
F = 'fingerprint.py'
FP = '    return ":".join([hash_[i:i+2].upper() for i in range(44, 64, 2)])'
BUGS = [
    ('fp: first bytes', 'C50', [(U, 'range(44, 64, 2)', 'range(0, 20, 2)')]),
    ('fp: nine bytes', 'C50', [(U, 'range(44, 64, 2)', 'range(46, 64, 2)')]),
    ('fp: lower case', 'C50', [(U, 'hash_[i:i+2].upper()', 'hash_[i:i+2]')]),
    ('fp: overlapping', 'C50', [(U, 'range(44, 64, 2)', 'range(44, 64, 1)')]),
    ('fp: dashes', 'C50', [(U, '":".join([hash_', '"-".join([hash_')]),
    ('fp: sha1', 'C50', [(U, 'hashlib.sha256(der_bytes)', 'hashlib.sha1(der_bytes)')]),
    ('fp: hash of PEM', 'C50', [(U, 'ssl.PEM_cert_to_DER_cert(ensure_str(certificate_str))', 'ensure_bytes(certificate_str)')]),
    ('fp: peer of dict', 'C50', [(U, 'getpeercert(binary_form=True)', 'getpeercert(binary_form=False)')]),
    ('fp: first cert in KeyInfo lost', 'C50', [(U, "'.//{http://www.w3.org/2000/09/xmldsig#}X509Certificate'", "'./{http://www.w3.org/2000/09/xmldsig#}X509Certificate'")]),
    ('fp: no newline', 'C50', [(U, '        cert = cert + "\\n"\n    return "-----BEGIN', '        pass\n    return "-----BEGIN')]),
    ('fp: key shown', 'C50', [(K, 'utils.certificate_fingerprint(cert).center(80)', 'utils.certificate_fingerprint(key).center(80)')]),
    ('fp: http cert shown', 'C50', [(S, '{utils.certificate_fingerprint(cert)}', '{utils.certificate_fingerprint(http_cert)}')]),
    ('fp: ensure_str latin', 'C50', [(U, "return obj.decode('utf-8')", "return obj.decode('latin-1')")]),
    ('nm: own target', 'C51', [(O, 'list_of_targets = [asdict(target) if is_dataclass(\n                target) else target for target in self.targets]\n            if utils', 'list_of_targets = [asdict(target) if is_dataclass(\n                list_of_targets) else target for target in self.targets]\n            if utils')]),
    ('nm: before bound', 'C51', [(M, "etree.tostring(signature_tree).decode('utf-8')", "etree.tostring(msg).decode('utf-8')")]),
    ('nm: unknown name', 'C51', [(M, 'raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "', 'raise FingerprintMismatch("The certificate fingerprint was incorrect. "')]),
    ('nm: unknown member', 'C51', [(M, 'raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "', 'raise errors.FingerprintMissmatch("The certificate fingerprint was incorrect. "')]),
    ('nm: unknown constant', 'C51', [(U, 'enums.EVENT_STATUS.CANCELLED', 'enums.EVENT_STATUS.CANCELED')]),
    ('nm: unknown keyword', 'C51', [(M, 'def validate_xml_signature(xml_tree, cert_fingerprint=None):', 'def validate_xml_signature(xml_tree, fingerprint=None):\n    cert_fingerprint = fingerprint')]),
    ('nm: one more parameter', 'C51', [(U, 'def determine_event_status(active_period):', 'def determine_event_status(active_period, now):')]),
    ('nm: unknown own method', 'C51', [(K, 'await self._event_status_changed', 'await self._event_status_change')] if False else [(K, 'self._perform_request(', 'self._do_perform_request(')]),
    ('nm: except name used later', 'C51', [(K, 'def _on_register_report(self', 'def _x_(self):\n        try:\n            y = self.ven_id.strip()\n        except AttributeError as err:\n            pass\n        return err\n\n    def _on_register_report(self')] if False else
     [(U, 'def ensure_str(obj):', 'def _x_(obj):\n    try:\n        y = obj.strip()\n    except AttributeError:\n        logger.error("no")\n    return y\n\n\ndef ensure_str(obj):')]),
]
SAME = [
    ('fp: hexdigest', 'C50', [(U, 'hashlib.sha256(der_bytes).digest().hex()', 'hashlib.sha256(der_bytes).hexdigest()')]),
    ('fp: bytes', 'C50', [(U, FP, '    return ":".join(f"{b:02X}" for b in hashlib.sha256(der_bytes).digest()[-10:])')]),
    ('fp: hex sep', 'C50', [(U, FP, '    return hashlib.sha256(der_bytes).digest()[22:].hex(":").upper()')]),
    ('fp: upper first', 'C50', [(U, FP, '    tail = hash_.upper()[-20:]\n    pairs = []\n    for i in range(0, 20, 2):\n        pairs.append(tail[i:i + 2])\n    return ":".join(pairs)')]),
    ('fp: none early', 'C50', [(U, '    if ssl_object:\n        der_bytes = ssl_object.getpeercert(binary_form=True)\n        if der_bytes:\n            return certificate_fingerprint_from_der(der_bytes)',
                                '    if not ssl_object:\n        return None\n    der_bytes = ssl_object.getpeercert(True)\n    return certificate_fingerprint_from_der(der_bytes) if der_bytes else None')]),
    ('fp: fstring pem', 'C50', [(U, 'return "-----BEGIN CERTIFICATE-----\\n" + cert + "-----END CERTIFICATE-----\\n"', 'return f"-----BEGIN CERTIFICATE-----\\n{cert}-----END CERTIFICATE-----\\n"')]),
    ('nm: guarded', 'C51', [(U, 'def ensure_str(obj):', 'def _x_(obj):\n    y = None\n    try:\n        y = obj.strip()\n    except AttributeError:\n        logger.error("no")\n    for z in obj:\n        if y is not None:\n            print(last)\n        last = z\n    return y\n\n\ndef ensure_str(obj):')]),
    ('nm: flag after try', 'C51', [(U, 'def ensure_str(obj):', 'def _x_(obj):\n    ok = True\n    try:\n        y = obj.strip()\n    except AttributeError:\n        ok = False\n    if not ok:\n        return None\n    return y\n\n\ndef ensure_str(obj):')]),
    ('nm: closure', 'C51', [(U, 'def ensure_str(obj):', 'def _x_(obj):\n    def inner():\n        return later\n    later = 3\n    return inner() + (lambda q: q + later)(1)\n\n\ndef ensure_str(obj):')]),
    ('nm: kwargs', 'C51', [(U, 'def determine_event_status(active_period):', 'def determine_event_status(active_period, *args, now=None, **more):')]),
    ('nm: walrus and with', 'C51', [(U, 'def ensure_str(obj):', 'def _x_(obj):\n    with open(obj) as f:\n        while (line := f.readline()):\n            print(line)\n    del f\n    return [x for row in line for x in row if (t := x)] + [t]\n\n\ndef ensure_str(obj):')]),
]
