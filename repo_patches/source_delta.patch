From eab934bbd14dedc198019b676113a0604932d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 01/56] fix: VEN rejects events for a vtnID other than its own
 VTN's, not for any lowercase vtnID

---
 openleadr/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..ac7c91b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -77,6 +77,7 @@ class OpenADRClient:
         self.vtn_url = vtn_url.rstrip("/")
         self.ven_id = ven_id
         self.registration_id = None
+        self.vtn_id = None
         self.poll_frequency = None
         self.vtn_fingerprint = vtn_fingerprint
         self.debug = debug
@@ -472,6 +473,7 @@ class OpenADRClient:
                          "Will assume that we are not or no longer registered.")
 
         if self.registration_id:
+            self.vtn_id = response_payload.get('vtn_id')
             self.poll_frequency = response_payload.get('requested_oadr_poll_freq',
                                                        timedelta(seconds=10))
             logger.info(f"VEN is now registered with registration ID {self.registration_id} and venID {self.ven_id}.")
@@ -1145,10 +1147,10 @@ class OpenADRClient:
         events = message['events']
         invalid_vtn_id = False
         try:
-            if message['vtn_id'].islower():
-                logger.error("The VTN ID in the message is lowercase. This is not allowed by the OpenADR standard.")
+            if self.vtn_id is not None and message['vtn_id'] != self.vtn_id:
                 invalid_vtn_id = True
-                raise enums.STATUS_CODES.INVALID_ID
+                raise errors.InvalidIdError(f"The vtnID in the message is {message['vtn_id']}, "
+                                            f"but we are registered with {self.vtn_id}.")
             results = []
             for event in message['events']:
                 event_id = event['event_descriptor']['event_id']
-- 
2.43.0


From d2842701da5c3e064159e4a24c62e146c8a7e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 02/56] fix: a request with the wrong Content-Type gets its
 400, not a TypeError and a 500

---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..a6ed507 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From 2864a3e797aecefdfc9e7e94ef74673d74887c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 03/56] fix: an on_poll handler can return a list of events

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..594cb7a 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -132,7 +132,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From 9c8f1ae58c22fd5ff5c7532a4963fd42b68414ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 04/56] fix: an update made while a poll is being answered is
 not lost

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 594cb7a..8c152dc 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -120,8 +120,8 @@ class PollService(VTNService):
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
             # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
             self.events_updated[payload['ven_id']] = False
+            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From 0abae0a07d85abbf7b8c10e986ba3b3541b325b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 05/56] fix: an integer report payload can be parsed

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..43f271b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -238,7 +238,7 @@ def normalize_dict(ordered_dict):
                 v = d[key].pop('payload_float')
                 d[key]['value'] = float(v['value'])
             elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_float')
+                v = d[key].pop('payload_int')
                 d[key]['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
-- 
2.43.0


From 7bab0458cedf0761683f600eefa5da8d8265de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 06/56] fix: a description without a measurement does not hide
 the measurements of the next ones

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 43f271b..0136a2f 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -189,7 +189,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From 89cd4989175d7349d11e89bc7abdd9f12635ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 07/56] fix: text like 192.168.1.1 is not parsed as a float

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 0136a2f..7d548b8 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -100,7 +100,7 @@ def normalize_dict(ordered_dict):
         elif isinstance(value, str):
             if re.match(r'^-?\d+$', value):
                 d[key] = int(value)
-            elif re.match(r'^-?[\d.]+$', value):
+            elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From c37518331eee698e327a57fa2c32ca6d9edbdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 08/56] fix: currencyPerKW is a known measurement

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 60978ebd908c60bb7ca2b6be2193ac4ea69aed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 09/56] fix: _perform_request returns a pair for an empty
 response body too

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ac7c91b..50f78b7 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1107,7 +1107,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From 6350fb3582922723d23e78a79e66ad9d519e56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 10/56] fix: the report queue survives a report it cannot send
 and honours oadrCancelReport

---
 openleadr/client.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 50f78b7..46e6d14 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -982,18 +982,16 @@ class OpenADRClient:
             while True:
                 report = await self.pending_reports.get()
                 service = 'EiReport'
-                message = self._create_message('oadrUpdateReport',
-                                               ven_id=self.ven_id,
-                                               request_id=utils.generate_id(),
-                                               reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
-                except Exception as err:
-                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
-                else:
+                    message = self._create_message('oadrUpdateReport',
+                                                   ven_id=self.ven_id,
+                                                   request_id=utils.generate_id(),
+                                                   reports=[report])
+                    response_type, response_payload = await self._perform_request(service, message)
                     if 'cancel_report' in response_payload:
                         await self.cancel_report(response_payload['cancel_report'])
+                except Exception as err:
+                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
         except asyncio.CancelledError:
             return
 
-- 
2.43.0


From e82245f0d5d9753202f8c40e549126f7f57eef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 11/56] fix: add_report accepts a measurement dict

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 46e6d14..c2e43ed 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -305,7 +305,9 @@ class OpenADRClient:
             item_base = measurement
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = None
+            if measurement.get('power_attributes'):
+                power_attributes = objects.PowerAttributes(**measurement['power_attributes'])
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
-- 
2.43.0


From 2c1efeb67264db31fb6007f61749f224eb8dd058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 12/56] fix: add_report does not change the shared measurement
 it was given

---
 openleadr/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index c2e43ed..d247ca2 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -19,7 +19,7 @@ import inspect
 import logging
 import ssl
 from datetime import datetime, timedelta, timezone
-from dataclasses import asdict
+from dataclasses import asdict, replace
 from functools import partial
 from http import HTTPStatus
 
@@ -302,7 +302,7 @@ class OpenADRClient:
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
         elif isinstance(measurement, objects.Measurement):
-            item_base = measurement
+            item_base = replace(measurement)
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
             power_attributes = None
@@ -314,7 +314,7 @@ class OpenADRClient:
                                             scale=measurement.get('scale'),
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
-            item_base = enums.MEASUREMENTS[measurement.upper()]
+            item_base = replace(enums.MEASUREMENTS[measurement.upper()])
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
-- 
2.43.0


From b846ed1cc173b995bb06e2d0638ccfa2f9963223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 13/56] fix: add_report returns the report_specifier_id of the
 report it extended

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d247ca2..81b99ab 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -366,7 +366,7 @@ class OpenADRClient:
                                                        market_context=market_context)
         self.report_callbacks[(report.report_specifier_id, r_id)] = callback
         report.report_descriptions.append(report_description)
-        return report_specifier_id, r_id
+        return report.report_specifier_id, r_id
 
     def add_hook(self, hook_name, handler):
         """
-- 
2.43.0


From 3ef2ec0de7caa9a10b4ed5ee769fade32f05aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 14/56] fix: the report requests in one message do not share
 their requested r_ids

---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 81b99ab..ca23888 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -727,10 +727,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
-- 
2.43.0


From 9def8a0efce5d0cb2df31186ca4e55ac81918db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 15/56] fix: a scheduled single report is made for its own
 report request

---
 openleadr/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ca23888..a4f5b99 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -822,8 +822,7 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
+                        report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
-- 
2.43.0


From 22f0df4f3b9a5e30eec01e9d89c3d7a99ec6b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 16/56] fix: a multi-sample report that is complete is sent
 once, whatever the number of samples

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a4f5b99..82918a8 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -922,9 +922,10 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
+            if len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+                self.incomplete_reports.pop(report_request_id, None)
+                await self.pending_reports.put(outgoing_report)
             else:
                 logger.debug("The report is not yet complete, will hold until it is.")
                 self.incomplete_reports[report_request_id] = outgoing_report
-- 
2.43.0


From 855d52da80eae3742bb0fc96d731709f8c807528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 17/56] fix: stop() works on a client that never opened a
 session

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 82918a8..d07b5f7 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -188,7 +188,8 @@ class OpenADRClient:
             self.scheduler.shutdown()
         if self.report_queue_task:
             self.report_queue_task.cancel()
-        await self.client_session.close()
+        if self.client_session:
+            await self.client_session.close()
         await asyncio.sleep(0)
 
     def add_handler(self, handler, callback):
-- 
2.43.0


From 1bad830e18f15eb27778b2454a1d2d9a104bf314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 18/56] fix: an oadrUpdateReport in a poll response does not
 raise AttributeError

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d07b5f7..7354100 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1282,7 +1282,9 @@ class OpenADRClient:
                 await self._on_event(response_payload)
 
         elif response_type == 'oadrUpdateReport':
-            await self._on_report(response_payload)
+            # We don't support receiving reports from the VTN at this moment
+            logger.warning("The VTN sent a report, but OpenLEADR "
+                           "does not support reports in this direction.")
 
         elif response_type == 'oadrCreateReport':
             if 'report_requests' in response_payload:
-- 
2.43.0


From ac059c2b3dcfdda2d53c3faa5de1c83be080ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 19/56] fix: oadrCancelOpt carries a request id

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 7354100..a5280e5 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -667,6 +667,7 @@ class OpenADRClient:
             return False
 
         payload = {
+            'request_id': utils.generate_id(),
             'opt_id': opt_id,
             'ven_id': self.ven_id
         }
-- 
2.43.0


From 1f798c5ca7bcb3b940cbec1657e427bb5dcef4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 20/56] fix: a redelivered completed or cancelled event keeps
 its opt response

---
 openleadr/client.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a5280e5..69a41f5 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1177,11 +1177,7 @@ class OpenADRClient:
                 if asyncio.iscoroutine(result):
                     result = await result
                 results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
+                self.responded_events[event_id] = result
             for i, result in enumerate(results):
                 if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
@@ -1262,6 +1258,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From 56c7d9abf5aaf0842cbca86a789b3dfa19009fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 21/56] fix: order_events returns a list of its own, so a
 completed event is still delivered

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 7d548b8..0327197 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -817,7 +817,7 @@ def order_events(events, limit=None, offset=None):
 
     # Short circuit if we only have one event:
     if len(events) == 1:
-        return events
+        return list(events)
 
     # Get all the active events first
     active_events = [event for event in events
-- 
2.43.0


From 4a8ead9b77822abd61fc819ff6eb75734ca4d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 22/56] fix: a response to a completed event does not fail

---
 openleadr/service/event_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..76b00f0 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -104,7 +104,7 @@ class EventService(VTNService):
                                        f"""{modification_number} that does not exist.""")
                         raise errors.InvalidIdError
                 # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                if event and utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
                 if event_response['event_id'] in self.event_callbacks:
                     event, callback = self.event_callbacks.pop(event_id)
-- 
2.43.0


From 2f132b00d93d80e028cdb9a9f27c7789cd575f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 23/56] fix: a response from a VEN without events gets INVALID
 ID

---
 openleadr/service/event_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 76b00f0..371d54b 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -94,7 +94,7 @@ class EventService(VTNService):
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
-- 
2.43.0


From eca8cae5b22ca8d27208da1b52ac9bbc756e48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 24/56] fix: values are escaped when they are put into a
 message

---
 openleadr/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..a812ec9 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -216,7 +216,7 @@ REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From 7ee7b23ca6eba457e1aa8d1270f42fcea9f4580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 25/56] fix: a message without a venID is not exempt from
 authentication

---
 openleadr/service/vtn_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a6ed507..3228601 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -92,6 +92,9 @@ class VTNService:
                     logger.error("Could not authenticate this VEN because "
                                  "you did not provide a 'ven_lookup' function. Please see "
                                  "https://openleadr.org/docs/server.html#signing-messages for info.")
+            elif request.secure and message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \
+                    and (hasattr(self, 'fingerprint_lookup') or hasattr(self, 'ven_lookup')):
+                raise errors.NotRegisteredOrAuthorizedError("Your message must contain your venID.")
 
             # Pass the message off to the handler and get the response type and payload
             try:
-- 
2.43.0


From 6f8acdce9bff958ece06f0a8c9f55e0d82a01e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 26/56] fix: add_raw_event keeps the active_period of the event

---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..352c015 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From 560cf6241ed592c2c6cdf03d8c21edb40353e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 27/56] fix: active events are ordered by priority first, as
 documented

---
 openleadr/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 0327197..68291fc 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -825,12 +825,12 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
     # Sort the active events by start date
     active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
+    # Sort the active events by priority
+    active_events.sort(key=lambda e: event_priority(e))
+
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
-- 
2.43.0


From 0503a2d4d97c79c3c4f299e46d922567d062f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 28/56] fix: the current value of an active SIMPLE event is not
 reset to 0

---
 openleadr/preflight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index d3eca74..8068748 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -102,7 +102,7 @@ def _preflight_oadrDistributeEvent(message_payload):
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
-                        and event['event_descriptor']['event_status'] != "ACTIVE":
+                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-- 
2.43.0


From 8e0f5c9024ceeaeb911a83b74f8f49ea97e3b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 29/56] fix: a VEN whose registration is cancelled gets
 oadrCanceledPartyRegistration

---
 openleadr/service/registration_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 5b32fea..17fdc7a 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -134,6 +134,8 @@ class RegistrationService(VTNService):
         result = self.on_cancel_party_registration(payload)
         if iscoroutine(result):
             result = await result
+        if result is None:
+            result = 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}
         return result
 
     def on_cancel_party_registration(self, ven_id):
-- 
2.43.0


From 3a5495ce699e0d338bc2511e184dfa2dec70c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 30/56] fix: a hook can be a plain function

---
 openleadr/hooks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/hooks.py b/openleadr/hooks.py
index 155e071..aba8b72 100644
--- a/openleadr/hooks.py
+++ b/openleadr/hooks.py
@@ -35,4 +35,6 @@ def register(hook_point, callback):
 def call(hook_point, *args, **kwargs):
     loop = asyncio.get_event_loop()
     for hook in HOOKS.get(hook_point, []):
-        loop.create_task(hook(*args, **kwargs))
+        result = hook(*args, **kwargs)
+        if asyncio.iscoroutine(result):
+            loop.create_task(result)
-- 
2.43.0


From 22bc0295120f0d9e078028352a33db1135061687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 31/56] fix: a declined or invalid r_id does not make the other
 report requests fail

---
 openleadr/service/report_service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..73699e5 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -163,7 +163,7 @@ class ReportService(VTNService):
                 continue
             # Check if all sampling rates per report_request are the same
             sampling_interval = min(rrq[2] for rrq in report_request if isinstance(rrq, tuple))
-            if not all(rrq is not None and report_request[0][2] == sampling_interval for rrq in report_request):
+            if not all(rrq is not None and rrq[2] == sampling_interval for rrq in report_request):
                 logger.error("OpenADR does not support multiple different sampling rates per "
                              "report. OpenLEADR will set all sampling rates to "
                              f"{sampling_interval}")
@@ -179,6 +179,8 @@ class ReportService(VTNService):
             report_request_id = utils.generate_id()
             specifier_payloads = []
             for rrq in report_request:
+                if rrq is None:
+                    continue
                 if len(rrq) == 3:
                     r_id, callback, sampling_interval = rrq
                     report_interval = sampling_interval
-- 
2.43.0


From 051e14d2505236365f9330d7a6d50003b780f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 32/56] fix: the granularity of a report request is the
 smallest sampling interval asked for

---
 openleadr/service/report_service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 73699e5..776c45f 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -178,6 +178,7 @@ class ReportService(VTNService):
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
             specifier_payloads = []
+            granularity = min(rrq[2] for rrq in report_request if rrq is not None)
             for rrq in report_request:
                 if rrq is None:
                     continue
@@ -196,7 +197,7 @@ class ReportService(VTNService):
 
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
-                                                       granularity=sampling_interval,
+                                                       granularity=granularity,
                                                        report_back_duration=report_interval,
                                                        specifier_payloads=specifier_payloads)
 
-- 
2.43.0


From 7ffbc17acd52f8dd294ffad0220412fff74a7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 33/56] fix: an oadrCreatedReport from a VEN without requested
 reports does not fail

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 776c45f..0b2a627 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -287,7 +287,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
-- 
2.43.0


From 0fe11e8c8be8fb89180f90eb0ee01570995e43be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 34/56] fix: an oadrUpdateReport without reports or intervals
 does not fail

---
 openleadr/service/report_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 0b2a627..cda5886 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -231,14 +231,14 @@ class ReportService(VTNService):
         """
         Handle a report that we received from the VEN.
         """
-        for report in payload['reports']:
+        for report in payload.get('reports', []):
             report_request_id = report['report_request_id']
             if not self.report_callbacks:
                 result = self.on_update_report(report)
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            for r_id, values in utils.group_by(report.get('intervals', []), 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-- 
2.43.0


From 26b915658cc90ada8ca35d45f624aa9e453e3ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 35/56] fix: a client can register again after its registration
 was cancelled

---
 openleadr/client.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 69a41f5..b456ac6 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -523,12 +523,13 @@ class OpenADRClient:
             logger.info("VEN successfully un-registered")
             # Update/Delete all the registration and reports information
             self.registration_id = None
-            self.report_requests = None
-            self.reports = None
-            self.report_callbacks = None
-            self.report_requests = None
-            self.incomplete_reports = None
-            self.pending_reports = None
+            self.reports = []
+            self.report_callbacks = {}
+            self.report_requests = []
+            self.incomplete_reports = {}
+            self.pending_reports = asyncio.Queue()
+            if self.report_queue_task:
+                self.report_queue_task.cancel()
             self.scheduler.remove_all_jobs()
         else:
             logger.warning("The VEN couldn't cancel the registration")
@@ -1051,12 +1052,13 @@ class OpenADRClient:
         else:
             return
         # Update/Delete all the registration and reports information
-        self.report_requests = None
-        self.reports = None
-        self.report_callbacks = None
-        self.report_requests = None
-        self.incomplete_reports = None
-        self.pending_reports = None
+        self.reports = []
+        self.report_callbacks = {}
+        self.report_requests = []
+        self.incomplete_reports = {}
+        self.pending_reports = asyncio.Queue()
+        if self.report_queue_task:
+            self.report_queue_task.cancel()
         self.scheduler.remove_all_jobs()
 
         message = self._create_message('oadrCanceledPartyRegistration', response=response, ven_id=self.ven_id, registration_id=self.registration_id)
-- 
2.43.0


From e834bee2d15d151aaaad957f5d6c367f21abc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 36/56] fix: re-registration does not start a second report
 queue worker

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b456ac6..0b0abd1 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -498,7 +498,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
-- 
2.43.0


From bc14508c49200a7cf5e25fa1e94ea46e80aa4ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 37/56] fix: two servers in one process do not share their
 lookup, signing and verification settings

---
 openleadr/server.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 352c015..f0a79d8 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -15,8 +15,7 @@
 # limitations under the License.
 
 from aiohttp import web
-from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
-                              VTNService
+from openleadr.service import EventService, PollService, RegistrationService, ReportService
 from openleadr.messaging import create_message
 from openleadr import objects, enums, utils
 from functools import partial
@@ -81,16 +80,17 @@ class OpenADRServer:
         self.app = web.Application()
         self.services = {}
 
-        # Globally enable or disable the verification of message
-        # signatures. Only used in combination with TLS.
-        VTNService.verify_message_signatures = verify_message_signatures
-
         # Create the separate OpenADR services
         self.services['event_service'] = EventService(vtn_id)
         self.services['report_service'] = ReportService(vtn_id)
         self.services['poll_service'] = PollService(vtn_id)
         self.services['registration_service'] = RegistrationService(vtn_id, poll_freq=requested_poll_freq)
 
+        # Enable or disable the verification of message signatures
+        # for this server. Only used in combination with TLS.
+        for service in self.services.values():
+            service.verify_message_signatures = verify_message_signatures
+
         # Register the other services with the poll service
         self.services['poll_service'].event_service = self.services['event_service']
         self.services['poll_service'].report_service = self.services['report_service']
@@ -136,20 +136,23 @@ class OpenADRServer:
                     print(utils.certificate_domain(cert).center(80))
                 print("*" * 80)
                 print("")
-        VTNService._create_message = partial(create_message, cert=cert, key=key,
-                                             passphrase=passphrase)
+        for service in self.services.values():
+            service._create_message = partial(create_message, cert=cert, key=key,
+                                              passphrase=passphrase)
         if fingerprint_lookup is not None:
             logger.warning("DeprecationWarning: the argument 'fingerprint_lookup' is deprecated and "
                            "is replaced by 'ven_lookup'. 'fingerprint_lookup' will be removed in a "
                            "future version of OpenLEADR. Please see "
                            "https://openleadr.org/docs/server.html#things-you-should-implement.")
-            VTNService.fingerprint_lookup = staticmethod(fingerprint_lookup)
+            for service in self.services.values():
+                service.fingerprint_lookup = fingerprint_lookup
         if ven_lookup is None:
             logger.warning("If you provide a 'ven_lookup' to your OpenADRServer() init, OpenLEADR can "
                            "automatically issue ReregistrationRequests for VENs that don't exist in "
                            "your system. Please see https://openleadr.org/docs/server.html#things-you-should-implement.")
         else:
-            VTNService.ven_lookup = staticmethod(ven_lookup)
+            for service in self.services.values():
+                service.ven_lookup = ven_lookup
         self.__setattr__ = self.add_handler
 
     async def run(self):
-- 
2.43.0


From 8ce8c85e5c10f843f1a7df81f6b1169d9f178b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 38/56] fix: events with the same id for different VENs each
 keep their own callbacks

---
 openleadr/server.py                | 4 ++--
 openleadr/service/event_service.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index f0a79d8..8acbc4d 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -314,9 +314,9 @@ class OpenADRServer:
 
         # Add the callback for the response to this event
         if callback is not None:
-            self.event_callbacks[event_id] = (event, callback)
+            self.event_callbacks[(ven_id, event_id)] = (event, callback)
         if delivery_callback is not None:
-            self.event_delivery_callbacks[event_id] = delivery_callback
+            self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback
         return event_id
 
     def cancel_event(self, ven_id, event_id):
diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 371d54b..34b0a8d 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -68,8 +68,8 @@ class EventService(VTNService):
             # Fire the delivery callbacks, if any
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if event_id in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[event_id]())
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
@@ -106,8 +106,8 @@ class EventService(VTNService):
                 # Remove the event from the events list if the cancellation is confirmed.
                 if event and utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
-                if event_response['event_id'] in self.event_callbacks:
-                    event, callback = self.event_callbacks.pop(event_id)
+                if (ven_id, event_id) in self.event_callbacks:
+                    event, callback = self.event_callbacks.pop((ven_id, event_id))
                     if isinstance(callback, asyncio.Future):
                         if callback.done():
                             logger.warning(f"Got a second response '{opt_type}' from ven '{ven_id}' "
-- 
2.43.0


From ff2bc222e08eec1180d6bf0283c35973d9c186bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 39/56] fix: a pulse count, which has no scale, can be reported

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0b0abd1..fe37cc4 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -322,7 +322,7 @@ class OpenADRClient:
                                             unit=unit,
                                             scale=scale)
 
-        if report_name != 'TELEMETRY_STATUS' and scale is not None:
+        if report_name != 'TELEMETRY_STATUS' and scale is not None and item_base.pulse_factor is None:
             if item_base.scale is not None:
                 if scale in enums.SI_SCALE_CODE.values:
                     item_base.scale = scale
-- 
2.43.0


From b943ec32eb91a5b255652822e1c3c1af73b1defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 40/56] fix: add_report uses the unit that it was given

---
 openleadr/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index fe37cc4..6b74bc4 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -330,7 +330,11 @@ class OpenADRClient:
                 raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
+        if item_base is None or unit is None or unit == item_base.unit:
+            pass
+        elif unit in item_base.acceptable_units:
+            item_base.unit = unit
+        else:
             logger.warning(f"The supplied unit {unit} for measurement {measurement} "
                            f"will be ignored, {item_base.unit} will be used instead. "
                            f"Allowed units for this measurement are: "
-- 
2.43.0


From 438ffedd563f1c53da799598a04988148b641e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 41/56] fix: a date-time without the Z, which the schema
 allows, is parsed

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 68291fc..0227ccf 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -270,7 +270,7 @@ def parse_datetime(value):
     """
     Parse an ISO8601 datetime into a datetime.datetime object.
     """
-    matches = re.match(r'(\d{4})-(\d{2})-(\d{2})T(\d{2}):(\d{2}):(\d{2})\.?(\d{1,6})?\d*Z', value)
+    matches = re.match(r'(\d{4})-(\d{2})-(\d{2})T(\d{2}):(\d{2}):(\d{2})\.?(\d{1,6})?\d*Z?$', value)
     if matches:
         year, month, day, hour, minute, second = (int(value)for value in matches.groups()[:-1])
         micro = matches.groups()[-1]
-- 
2.43.0


From 882de9bd0a5edaa9a4f087b19a54f14e6de007fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 42/56] fix: a custom signal name is not answered with SIGNAL
 NOT SUPPORTED

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 6b74bc4..af09510 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1214,7 +1214,8 @@ class OpenADRClient:
                 j = 0
                 response_code = 200
                 while (j < len(signals) and response_code == 200):
-                    if not signals[j]['signal_name'] in enums.SIGNAL_NAME.values:
+                    if not signals[j]['signal_name'] in enums.SIGNAL_NAME.values \
+                            and not str(signals[j]['signal_name']).startswith('x-'):
                         response_code = enums.STATUS_CODES.SIGNAL_NOT_SUPPORTED
                     j += 1
                 event_responses.append({'response_code': response_code,
-- 
2.43.0


From 0b187123a62217181c92964e362bc10717b453e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 43/56] fix: run() stops when the registration request failed,
 even if the query named a registration

---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index af09510..e1a9129 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -145,10 +145,10 @@ class OpenADRClient:
         if response_payload and 'response' in response_payload  and 'request_id' in response_payload['response']:
             request_id = response_payload['response']['request_id']
 
-        await self.create_party_registration(ven_id=self.ven_id, request_id=request_id)
+        registration = await self.create_party_registration(ven_id=self.ven_id, request_id=request_id)
 
 
-        if not self.registration_id:
+        if registration is None or not self.registration_id:
             logger.error("No RegistrationID received from the VTN, aborting.")
             await self.stop()
             return
-- 
2.43.0


From a02f3ff869af466ca15b59a2b49e79cc87a8d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 44/56] fix: the VTN accepts oadrCanceledPartyRegistration from
 a VEN

---
 openleadr/service/registration_service.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 17fdc7a..6189917 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -146,3 +146,11 @@ class RegistrationService(VTNService):
                        "handler that allown VENs to deregister from your VTN. This will receive a "
                        "ven_id as its argument. You don't need to return anything.")
         return None
+
+    @handler('oadrCanceledPartyRegistration')
+    async def canceled_party_registration(self, payload):
+        """
+        Handle the confirmation that a VEN canceled its registration at our request.
+        """
+        logger.info(f"VEN {payload.get('ven_id')} canceled its registration "
+                    f"'{payload.get('registration_id')}' at the request of this VTN.")
-- 
2.43.0


From a495591cd48bbf2363b1b9f7a102c4cc0408ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 45/56] fix: the VTN accepts oadrCanceledReport from a VEN

---
 openleadr/service/report_service.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index cda5886..794145b 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -294,6 +294,13 @@ class ReportService(VTNService):
                                "determine the problem. The requested reports was: \n"
                                f"{requested_report}")
 
+    @handler('oadrCanceledReport')
+    async def canceled_report(self, payload):
+        """
+        Handle the confirmation that a report was canceled at our request.
+        """
+        logger.info(f"VEN {payload.get('ven_id')} confirmed the cancellation of a report.")
+
     @handler('oadrRegisteredReport')
     async def registered_report(self, payload):
         if not hasattr(self, 'on_registered_report'):
-- 
2.43.0


From 9e0437645e2da6b4e90ad7c9e30a65efb81a2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:52 +0000
Subject: [PATCH 46/56] fix: keep the scale of the measurement given to
 add_report

The default scale 'none' replaced the scale of a Measurement, and a measurement
dict without a scale was refused.
---
 openleadr/client.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e1a9129..2e2813d 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -210,7 +210,7 @@ class OpenADRClient:
                    report_type=enums.REPORT_TYPE.READING,
                    report_duration=None, report_dtstart=None,
                    sampling_rate=None, data_source=None,
-                   scale="none", unit=None, power_ac=True, power_hertz=50, power_voltage=230,
+                   scale=None, unit=None, power_ac=True, power_hertz=50, power_voltage=230,
                    market_context=None, end_device_asset_mrid=None, report_data_source=None):
         """
         Add a new reporting capability to the client.
@@ -241,6 +241,8 @@ class OpenADRClient:
         :param datetime.timedelta report_duration: The time span that can be provided in this report.
         :param datetime.datetime report_dtstart: The earliest available data for this report (defaults to now).
         :param datetime.timedelta sampling_rate: The sampling rate for the measurement.
+        :param str scale: The scale for this measurement (found in openleadr.enums.SI_SCALE_CODE). By default
+                          this is the scale of the measurement itself, or 'none' if it does not have one.
         :param str unit: The unit for this measurement.
         :param boolean power_ac: Whether the power is AC (True) or DC (False).
                                  Only required when supplying a power-related measurement.
@@ -266,7 +268,7 @@ class OpenADRClient:
             raise ValueError(f"{report_type} is not a valid report_type. Valid options are "
                              f"{', '.join(enums.REPORT_TYPE.values)}"
                              " or any name starting with 'x-'.")
-        if scale not in enums.SI_SCALE_CODE.values:
+        if scale is not None and scale not in enums.SI_SCALE_CODE.values:
             raise ValueError(f"{scale} is not a valid scale. Valid options are "
                              f"{', '.join(enums.SI_SCALE_CODE.values)}")
 
@@ -322,12 +324,9 @@ class OpenADRClient:
                                             unit=unit,
                                             scale=scale)
 
-        if report_name != 'TELEMETRY_STATUS' and scale is not None and item_base.pulse_factor is None:
-            if item_base.scale is not None:
-                if scale in enums.SI_SCALE_CODE.values:
-                    item_base.scale = scale
-            else:
-                raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
+        # A measurement keeps its own scale unless another one is asked for
+        if report_name != 'TELEMETRY_STATUS' and item_base.pulse_factor is None:
+            item_base.scale = scale or item_base.scale or enums.SI_SCALE_CODE.none
 
         # Check if unit is compatible
         if item_base is None or unit is None or unit == item_base.unit:
-- 
2.43.0


From 53bded78135cf371d358ea5b149ad9a56c12a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 47/56] fix: a pulse count measurement given as a dict keeps
 its pulse factor

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 2e2813d..6bfa467 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -315,7 +315,8 @@ class OpenADRClient:
                                             description=measurement['description'],
                                             unit=measurement['unit'],
                                             scale=measurement.get('scale'),
-                                            power_attributes=power_attributes)
+                                            power_attributes=power_attributes,
+                                            pulse_factor=measurement.get('pulse_factor'))
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = replace(enums.MEASUREMENTS[measurement.upper()])
         else:
-- 
2.43.0


From 0fe67e400c8ad7bbd2f479d2da92e149ddc87da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 48/56] fix: find_by does not match an item that lacks the
 nested location

---
 openleadr/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 0227ccf..237f5c5 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -456,13 +456,15 @@ def find_by(dict_or_list, key, value, *args):
                 if not hasmember(_item, key):
                     break
                 _item = getmember(_item, key)
-            key = keys[-1]
-            if isinstance(value, tuple):
-                if not hasmember(_item, key) or getmember(_item, key) not in value:
-                    break
             else:
-                if not hasmember(_item, key) or getmember(_item, key) != value:
-                    break
+                key = keys[-1]
+                if isinstance(value, tuple):
+                    if hasmember(_item, key) and getmember(_item, key) in value:
+                        continue
+                elif hasmember(_item, key) and getmember(_item, key) == value:
+                    continue
+            # This item does not have the given value at the given location
+            break
         else:
             return item
     else:
-- 
2.43.0


From bb09c3b05271173c8d9dfefd15ca4027b01dfdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:31 +0000
Subject: [PATCH 49/56] fix: oadrCreateOpt has one eiTarget for all its targets

---
 openleadr/templates/oadrCreateOpt.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..cf6ac9b 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -32,9 +32,9 @@
     </ei:qualifiedEventID>
     {% endif %}
     {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
-    {% endfor %}
+    {% with event = {'targets': targets} %}
+    {% include 'parts/eiEventTarget.xml' %}
+    {% endwith %}
     {% else %}
     <ei:eiTarget/>
     {% endif %}
-- 
2.43.0


From 9d3b75cfce896cffb22dbcc30f41501144765cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:23 +0000
Subject: [PATCH 50/56] fix: a ProtocolError without a code of its own is
 answered as a deployment error

A handler that raised errors.ProtocolError itself, or a subclass that sets no
response_code, made the request handler fail with an AttributeError while it
was answering, so the VEN got a bare HTTP 500 instead of an oadrResponse.
---
 openleadr/errors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/errors.py b/openleadr/errors.py
index b4bded5..e4f1bcd 100644
--- a/openleadr/errors.py
+++ b/openleadr/errors.py
@@ -2,7 +2,9 @@ from openleadr.enums import STATUS_CODES
 
 
 class ProtocolError(Exception):
-    pass
+    # What the other side is told when a subclass does not say it
+    response_code = STATUS_CODES.DEPLOYMENT_ERROR_OR_OTHER_ERROR
+    response_description = 'DEPLOYMENT ERROR OR OTHER ERROR'
 
 
 class FingerprintMismatch(Exception):
-- 
2.43.0


From 922149a777b7dc918c0859b2139e120c87bed420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:25 +0000
Subject: [PATCH 51/56] fix: EventSignal refuses targets of several types in
 whichever form they are given

---
 openleadr/objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openleadr/objects.py b/openleadr/objects.py
index 450e946..736eb62 100644
--- a/openleadr/objects.py
+++ b/openleadr/objects.py
@@ -184,18 +184,20 @@ class EventSignal:
         elif self.targets_by_type is None:
             list_of_targets = [asdict(target) if is_dataclass(target) else target for target in self.targets]
             targets_by_type = utils.group_targets_by_type(list_of_targets)
-            if len(targets_by_type) > 1:
-                raise ValueError("In OpenADR, the EventSignal target may only be of type endDeviceAsset. "
-                                 f"You provided types: '{', '.join(targets_by_type)}'")
         elif self.targets is None:
+            targets_by_type = self.targets_by_type
             self.targets = [Target(**target) for target in utils.ungroup_targets_by_type(self.targets_by_type)]
         elif self.targets is not None and self.targets_by_type is not None:
+            targets_by_type = self.targets_by_type
             list_of_targets = [asdict(target) if is_dataclass(target) else target for target in self.targets]
             if utils.group_targets_by_type(list_of_targets) != self.targets_by_type:
                 raise ValueError("You assigned both 'targets' and 'targets_by_type' in your event, "
                                  "but the two were not consistent with each other. "
                                  f"You supplied 'targets' = {self.targets} and "
                                  f"'targets_by_type' = {self.targets_by_type}")
+        if len(targets_by_type) > 1:
+            raise ValueError("In OpenADR, the EventSignal target may only be of type endDeviceAsset. "
+                             f"You provided types: '{', '.join(targets_by_type)}'")
 
 
 @dataclass
-- 
2.43.0


From 7ace7dc5208d815860608e961f344ad76204bf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:00 +0000
Subject: [PATCH 52/56] fix: a transport address that is not given is not sent
 as the text None

---
 openleadr/templates/oadrCreatePartyRegistration.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/templates/oadrCreatePartyRegistration.xml b/openleadr/templates/oadrCreatePartyRegistration.xml
index 0815205..e7cbffa 100644
--- a/openleadr/templates/oadrCreatePartyRegistration.xml
+++ b/openleadr/templates/oadrCreatePartyRegistration.xml
@@ -9,7 +9,9 @@
     {% endif %}
     <oadr:oadrProfileName>{{ profile_name }}</oadr:oadrProfileName>
     <oadr:oadrTransportName>{{ transport_name }}</oadr:oadrTransportName>
+    {% if transport_address is defined and transport_address is not none %}
     <oadr:oadrTransportAddress>{{ transport_address }}</oadr:oadrTransportAddress>
+    {% endif %}
     <oadr:oadrReportOnly>{{ report_only|booleanformat }}</oadr:oadrReportOnly>
     <oadr:oadrXmlSignature>{{ xml_signature|booleanformat }}</oadr:oadrXmlSignature>
     <oadr:oadrVenName>{{ ven_name }}</oadr:oadrVenName>
-- 
2.43.0


From 369acdbb5468fd79dd96f2c910fdfe738e001e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:42 +0000
Subject: [PATCH 53/56] fix: line breaks and indentation inside a text survive
 flatten_xml

---
 openleadr/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 237f5c5..3479ffd 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -41,13 +41,10 @@ def generate_id(*args, **kwargs):
 
 def flatten_xml(message):
     """
-    Flatten the entire XML structure.
+    Flatten the entire XML structure: remove the line breaks and the indentation
+    between the elements, but leave the text inside them alone.
     """
-    lines = [line.strip() for line in message.split("\n") if line.strip() != ""]
-    for line in lines:
-        line = re.sub(r'\n', '', line)
-        line = re.sub(r'\s\s+', ' ', line)
-    return "".join(lines)
+    return re.sub(r'>\s*\n\s*<', '><', message.strip())
 
 
 def normalize_dict(ordered_dict):
-- 
2.43.0


From fe1b0920b59cd0d054ae1adc1e3cd41a59e30769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:02 +0000
Subject: [PATCH 54/56] fix: the answer to an oadrPoll does not have the text
 None for a requestID

---
 openleadr/templates/oadrDistributeEvent.xml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/templates/oadrDistributeEvent.xml b/openleadr/templates/oadrDistributeEvent.xml
index e7b6e7f..1209397 100644
--- a/openleadr/templates/oadrDistributeEvent.xml
+++ b/openleadr/templates/oadrDistributeEvent.xml
@@ -4,7 +4,11 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
+      {% if response.request_id is defined and response.request_id is not none %}
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
+      {% else %}
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads" />
+      {% endif %}
     </ei:eiResponse>
     {% endif %}
     <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ request_id }}</requestID>
-- 
2.43.0


From 481aa546e3418c65c9b83352211c298effc4700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:17 +0000
Subject: [PATCH 55/56] fix: a VEN that is rejected for a wrong result of
 on_create_party_registration gets a valid reply

---
 openleadr/service/registration_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 6189917..42e8219 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -99,7 +99,10 @@ class RegistrationService(VTNService):
                 logger.error("Your on_create_party_registration handler should return either "
                              "'False' (if the client is rejected) or a (ven_id, registration_id) "
                              "tuple. Will REJECT the client for now.")
-                response_payload = {}
+                transports = [{'transport_name': payload['transport_name']}]
+                response_payload = {'profiles': [{'profile_name': payload['profile_name'],
+                                                  'transports': transports}],
+                                    'requested_oadr_poll_freq': self.poll_freq}
             else:
                 ven_id, registration_id = result
                 transports = [{'transport_name': payload['transport_name']}]
-- 
2.43.0


From 3e8c9eccc148a155c29304887ac0a0ab3a99c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:53 +0000
Subject: [PATCH 56/56] fix: an error reply says who sent it and which request
 it answers

---
 openleadr/service/vtn_service.py     | 10 ++++++++--
 openleadr/templates/oadrResponse.xml |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 3228601..0e88099 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -130,6 +130,7 @@ class VTNService:
         except errors.ProtocolError as err:
             # In case of an OpenADR error, return a valid OpenADR message
             response_type, response_payload = self.error_response(message_type,
+                                                                  message_payload,
                                                                   err.response_code,
                                                                   err.response_description)
             msg = self._create_message(response_type, **response_payload)
@@ -193,6 +194,7 @@ class VTNService:
 
         else:
             response_type, response_payload = self.error_response('oadrResponse',
+                                                                  message_payload,
                                                                   enums.STATUS_CODES.COMPLIANCE_ERROR,
                                                                   "A message of type "
                                                                   f"{message_type} should not be "
@@ -201,7 +203,7 @@ class VTNService:
         hooks.call('after_handle', response_type, response_payload)
         return response_type, response_payload
 
-    def error_response(self, message_type, error_code, error_description):
+    def error_response(self, message_type, message_payload, error_code, error_description):
         if message_type == 'oadrCreatePartyRegistration':
             response_type = 'oadrCreatedPartyRegistration'
         if message_type == 'oadrRequestEvent':
@@ -209,5 +211,9 @@ class VTNService:
         else:
             response_type = 'oadrResponse'
         response_payload = {'response': {'response_code': error_code,
-                                         'response_description': error_description}}
+                                         'response_description': error_description,
+                                         'request_id': message_payload.get('request_id')},
+                            'request_id': utils.generate_id(),
+                            'vtn_id': self.vtn_id,
+                            'ven_id': message_payload.get('ven_id')}
         return response_type, response_payload
diff --git a/openleadr/templates/oadrResponse.xml b/openleadr/templates/oadrResponse.xml
index 2cea65e..b98c92a 100644
--- a/openleadr/templates/oadrResponse.xml
+++ b/openleadr/templates/oadrResponse.xml
@@ -9,6 +9,8 @@
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads" />
       {% endif %}
     </ei:eiResponse>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrResponse>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0

