#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over.split(), 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': ['openleadr/' + f for f in files.split()],
                     'mechanism': [{'name': n, 'where': 'openleadr/' + w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': 'openleadr/' + w} for n, m, w in state]
    PROPS.append(d)


NOTES = {}
NA_REASONS = {}
PATHS = 'path-sensitive interprocedural dataflow / typestate analysis over the Python AST'
PATHS_NOTE = ('Abstract interpretation of the current source over provenance terms and branch facts; all paths of the entry '
              'points with loops unrolled once or twice; no solver, nothing executed.')


def T(pid, technique, note):
    NOTES[pid] = (technique, note)


def NA(pid, reason):
    NA_REASONS[pid] = reason


P('C01', 'TLS requests reach a handler only after certificate authentication',
  'When the VTN serves over TLS and a fingerprint or VEN lookup is configured, no message other than '
  'oadrCreatePartyRegistration and oadrQueryRegistration reaches a message handler unless the fingerprint of the '
  'client certificate equals the fingerprint the lookup returns for the venID in that same message. Unless signature '
  'verification was switched off, the message must in addition carry a valid XML signature made with a certificate of '
  'that same fingerprint. A message that fails any of this, or lacks a venID, never reaches a handler.',
  'inputs configurations', 'every request, message type, lookup (sync or async, raising or not) and server configuration',
  'Tests send a few well-formed signed messages and one or two bad ones; no test covers the combinations of message '
  'type, lookup kind, failing lookup and switched-off verification.',
  'service/vtn_service.py messaging.py utils.py server.py',
  [('request gate', 'service/vtn_service.py VTNService.handler'), ('authenticate_message', 'messaging.py')])

P('C02', 'Messages for another VTN or from unregistered VENs never reach a handler',
  'A message whose vtnID differs from the VTN\'s own id never reaches a message handler and is answered with response '
  'code 452. While a VEN lookup is configured, a message (other than oadrCreatePartyRegistration and '
  'oadrQueryRegistration) with a venID the lookup does not know, or knows without registration_id, never reaches a '
  'handler and is answered with oadrRequestReregistration for that venID.',
  'inputs configurations', 'every message type, venID, vtnID and lookup outcome',
  'Each test fixes one VEN and one VTN id; the conjunction of type, id and lookup outcome is never swept.',
  'service/vtn_service.py errors.py utils.py',
  [('vtnID and registration gate', 'service/vtn_service.py VTNService.handler')])

P('C03', 'Received documents are schema-validated before they are interpreted',
  'Neither the VTN nor the VEN interprets a received document unless exactly those bytes passed validation against the '
  'OpenADR 2.0b schema, with a parser that rejects rather than repairs. What a VTN handler receives, and what a VEN '
  'request returns, is the message parsed from those bytes.',
  'inputs', 'every received byte string',
  'Tests send valid documents; the ordering of validation and use on every path, including error paths, is untested.',
  'messaging.py service/vtn_service.py client.py',
  [('schema-bound parser', 'messaging.py validate_xml_schema'), ('VTN gate', 'service/vtn_service.py VTNService.handler'),
   ('VEN request', 'client.py OpenADRClient._perform_request')])

P('C04', 'A VEN with a pinned VTN fingerprint acts only on verified replies',
  'When a VEN is configured with the fingerprint of its VTN, no reply is handed to the rest of the client unless its XML '
  'signature verified and was made with a certificate of exactly that fingerprint. A reply that fails is dropped and '
  'reported as no message.',
  'inputs configurations', 'every reply content, signer and configuration of the client',
  'The tests use one matching certificate pair; wrong signers, missing signatures and verification errors are sampled at best once.',
  'client.py messaging.py',
  [('reply verification', 'client.py OpenADRClient._perform_request'), ('signature and fingerprint check', 'messaging.py validate_xml_signature')])

P('C05', 'A signed message is accepted at most once and only while fresh',
  'Signature validation succeeds only for a message with a nonce and a timestamp no older than the replay window, and '
  'whose (timestamp, nonce) pair was not accepted before. An accepted pair is remembered at least as long as the '
  'replay window would still accept it.',
  'histories inputs', 'every sequence of received signed messages',
  'The tests replay one message; eviction, missing elements and repeated use over time cannot be enumerated by samples.',
  'messaging.py', [('replay protection', 'messaging.py _verify_replay_protect, _update_nonce_cache')],
  [('NONCE_CACHE', 'accepted (timestamp, nonce) pairs', 'messaging.py')])

P('C06', 'Every VTN request gets exactly one HTTP response with the right status',
  'Whatever a request contains and whatever exception validation, lookups or user handlers raise, the VTN answers with '
  'exactly one response and lets no exception escape. The status is 400 for a wrong content type or a document that '
  'fails the schema, 403 for a signature or fingerprint failure, 200 with an OpenADR message carrying the error\'s own '
  'code for protocol errors (oadrRequestReregistration when that was asked for), the error\'s own status for an HTTP error, 500 otherwise.',
  'inputs fault_sequences', 'every request and every exception raised at any step of its handling',
  'Tests raise two or three exception types at one place; the cross product of step and exception type is not covered.',
  'service/vtn_service.py errors.py', [('exception mapping', 'service/vtn_service.py VTNService.handler'), ('error_response', 'service/vtn_service.py')])

P('C07', 'Handler results are wrapped in a correct reply envelope',
  'When a message handler returns normally, the reply has the type and content it returned (oadrResponse when it '
  'returned nothing), the VTN\'s own vtnID, response code 200 echoing the request_id of the request, and the venID '
  'chosen by the handler or otherwise that of the request. A message type the endpoint has no handler for is answered '
  'with an oadrResponse with code 459.',
  'inputs', 'every message type and every handler result (None, tuple, dataclass payload, coroutine)',
  'Tests look at single replies; the envelope for every result shape and for requests without ids is not asserted.',
  'service/vtn_service.py', [('handle_message', 'service/vtn_service.py VTNService.handle_message')])

P('C25', 'What is sent is signed with the configured key whenever signing is on',
  'A VEN or VTN configured with certificate and key signs every message it sends with exactly that key and certificate '
  '(unless the VEN disabled signing), over the very payload that is transmitted. The signature covers a ReplayProtect '
  'element with the current UTC time and a fresh nonce.',
  'inputs configurations', 'every message type, every service of the server and every client request',
  'Tests verify one signed message; which of the dozens of send sites and which service factory signs is not swept.',
  'messaging.py server.py client.py', [('create_message', 'messaging.py create_message'), ('message factory of the services', 'server.py OpenADRServer.__init__'), ('message factory of the client', 'client.py OpenADRClient.__init__')])

P('C48', 'A VTN configured for TLS demands client certificates from its CA',
  'A VTN given http_cert, http_key and http_ca_file listens, on the configured host and port, only with a TLS context that '
  'presents that certificate and requires client certificates issued under that CA; a VEN given a certificate connects '
  'presenting it and trusting only the configured CA.',
  'configurations', 'every combination of the constructor arguments',
  'The TLS tests use one configuration and a cooperating peer; a context that merely does not insist passes them.',
  'server.py client.py', [('TLS context', 'server.py OpenADRServer.__init__'), ('site', 'server.py OpenADRServer.run'), ('client session', 'client.py OpenADRClient._ensure_client_session')])

P('C10', 'A VEN answers every event that wants an answer, truthfully and once',
  'For each oadrDistributeEvent message the VEN reports exactly one opt response for every event in it that requires a response '
  'and is not completed, and none for other events. Each response carries that event\'s event_id and modification number, '
  'the request_id of the message, and the opt type the handler returned for that event (optOut when the handler raised or '
  'returned something that is no opt type). A message of another VTN is answered with code 452 and reaches no handler; a raising handler stops nothing else.',
  'inputs histories', 'every list of events, handler results (sync, async, raising, wrong) and earlier messages',
  'Tests send one or two events with well-behaved handlers; mixes of required, completed, unknown-signal and repeated events are not swept.',
  'client.py', [('event dispatch and response', 'client.py OpenADRClient._on_event'), ('created_event', 'client.py OpenADRClient.created_event')],
  [('responded_events', 'event_id -> opt type answered before', 'client.py')])

P('C11', 'on_event runs once per event and on_update_event once per change',
  'An event that was not received before goes to on_event exactly once; the same event with another modification number goes to '
  'on_update_event exactly once and replaces the remembered one; an unchanged event reaches no handler and gets the remembered '
  'answer again. The clean-up forgets a remembered event, and its answer, exactly when the event is cancelled or completed.',
  'histories', 'every sequence of distribute-event messages, with or without lost responses',
  'A property of the history of messages; the tests redeliver one event once.',
  'client.py', [('dispatch by event_id and modification number', 'client.py OpenADRClient._on_event'), ('_event_cleanup', 'client.py OpenADRClient._event_cleanup')],
  [('received_events', 'events the VEN knows', 'client.py'), ('responded_events', 'answers the VEN gave', 'client.py')])

P('C12', 'A VEN\'s opt response reaches the callback of exactly that event',
  'Each response in an oadrCreatedEvent is given to the callback (or future) registered for that VEN and that event_id, with the '
  'opt type of that response, at most once. A response that names an event or modification number the VTN does not hold for '
  'that VEN reaches no callback and is answered with an error.',
  'inputs histories', 'every sequence of created-event messages of several VENs with several events, callbacks sync, async or futures',
  'Tests use one VEN and one event per message; cross-talk between VENs and events needs several of both.',
  'service/event_service.py server.py', [('created_event', 'service/event_service.py EventService.created_event'), ('callback registration', 'server.py OpenADRServer.add_raw_event')],
  [('event_callbacks', '(ven_id, event_id) -> (event, callback)', 'service/event_service.py')])

P('C13', 'An added or changed event is delivered at the next poll',
  'After add_event, add_raw_event or cancel_event, the next poll of that VEN that finds events updated is answered with all events held '
  'for it; a change that happens while a poll is being answered is not lost but signalled at the poll after. No event leaves the '
  'list of a VEN before it is completed or its cancellation was confirmed, and the delivery callback registered for an event runs when it is handed out.',
  'schedules histories', 'every interleaving of API calls, polls and event requests on the event loop',
  'The lost update needs an API call between two awaits of one poll; tests run the steps one after another.',
  'service/poll_service.py service/event_service.py server.py',
  [('poll', 'service/poll_service.py PollService.poll'), ('request_event', 'service/event_service.py EventService.request_event'), ('add_raw_event, cancel_event', 'server.py')],
  [('events_updated', 'ven_id -> events to be announced', 'server.py')])

P('C14', 'One VEN never sees or changes the events of another',
  'Events, update flags, completed ids and callbacks are kept per VEN: handling a message or an API call for one ven_id reads '
  'and writes only the entries of that ven_id, and what a poll or an event request returns comes from the own list of that VEN.',
  'inputs histories', 'every message and API call with any number of VENs',
  'Tests use a single VEN, where any key works.',
  'service/event_service.py service/poll_service.py server.py',
  [('event tables', 'service/event_service.py EventService'), ('API', 'server.py OpenADRServer')])

P('C15', 'cancel_event cancels exactly the named event and raises its version',
  'cancel_event marks the event with that event_id of that VEN as cancelled, raises its modification number by exactly one and flags '
  'the VEN for an update; no other event changes, and the cancelled event stays in the list until the VEN confirmed it. '
  'Cancelling an unknown event changes nothing and raises nothing.',
  'inputs histories', 'every list of events and every (ven_id, event_id)',
  'Tests cancel a known single event.',
  'server.py service/event_service.py', [('cancel_event', 'server.py OpenADRServer.cancel_event')])

P('C16', 'Event status follows from the active period and the current time',
  'determine_event_status says completed exactly when start plus duration has passed and the duration is positive, active from the start until then, near '
  'from start minus ramp-up until the start when a ramp-up is given, and far before that; a start without time zone counts as local time. Events that '
  'are handed out carry the status of that moment, except cancelled ones, which stay cancelled.',
  'inputs', 'every active period and every current time, including the exact boundaries',
  'The tests sample a few instants away from the boundaries; equality with a boundary and zero durations are not reached.',
  'utils.py service/event_service.py', [('determine_event_status', 'utils.py'), ('order_events', 'utils.py')])

P('C17', 'Events are delivered in the order the standard prescribes',
  'In every list of events handed to a VEN the active events come first, ordered by priority (1 highest, 0 or none last) and '
  'then by start time, followed by the other events by start time. The list holds exactly the events of the VEN, each once.',
  'inputs', 'every list of events, with every mixture of statuses, priorities and start times',
  'Tests order a handful of fixed events; ties and 0 priorities in combination are not covered.',
  'utils.py service/event_service.py', [('order_events', 'utils.py'), ('request_event', 'service/event_service.py EventService.request_event')])


P('C37', 'The client works only while registered, and starts up in the right order',
  'run and re-registration do nothing on behalf of the VEN (no reports, events, polls, jobs) unless the VTN accepted the registration and the VEN '
  'has a registrationID; otherwise the client is stopped. Reports are registered before events are synchronised, the scheduler is started last with the '
  'poll job, the event status job and the clean-up job, one report queue worker runs when there are reports, and the VEN polls every poll frequency, at most 24 h apart.',
  'inputs histories configurations', 'every outcome of the registration request and every configuration of the client',
  'Tests register successfully with one fixed poll frequency; refused and lost registrations combined with re-registration are not reached.',
  'client.py', [('start-up', 'client.py OpenADRClient.run'), ('re-registration', 'client.py OpenADRClient.create_party_reregistration')])

P('C38', 'The registration a client believes in is the one the VTN confirmed',
  'The client changes its registrationID, venID, vtnID and poll frequency only after a registration reply with code 200 and to the values of that reply. '
  'It forgets its registration exactly when the VTN confirmed or requested its cancellation (for this registration), together with its reports, report requests, jobs and queue worker, '
  'and a cancellation from the VTN is answered with code 200, or 452 when it names another registration.',
  'inputs histories', 'every reply and every order of registration, refusal and cancellation',
  'Tests perform each step once with well-formed replies; refused or lost replies in the middle of a history are not sampled.',
  'client.py', [('create_party_registration', 'client.py'), ('cancel_party_registration', 'client.py'), ('on_cancel_party_registration', 'client.py')],
  [('registration_id', 'the registration that is in force', 'client.py')])

P('C39', 'Hooks see every message, may be sync or async, and can harm nothing',
  'Every hook registered for a hook point is called with the message that passes that point, in order, coroutine hooks awaited, on both sides. '
  'A failing client hook never disturbs the request or the other hooks, and unknown hook points are refused.',
  'inputs configurations', 'every list of hooks, sync or async, raising or not, and every message',
  'Tests install one well-behaved hook at a time.',
  'client.py hooks.py service/vtn_service.py', [('hooks.call', 'hooks.py'), ('_execute_hooks', 'client.py OpenADRClient._execute_hooks')])

P('C40', 'A failed request never kills the client or is taken for an answer',
  'Once a session is open, a request that cannot be sent, is answered with an error status, an empty body or an invalid, unverifiable or unparsable document yields '
  '(None, {}) and never an exception. Every method of the client copes with that outcome: nothing is taken out of a reply before it is known that there is one.',
  'faults inputs', 'every failure of the network, of the reply and of its validation, at every request',
  'Tests run over a working loopback; they inject two kinds of fault at one or two requests.',
  'client.py', [('_perform_request', 'client.py OpenADRClient._perform_request')])

P('C41', 'Everything the VTN delivers through a poll is carried out',
  'Each kind of message a poll can deliver (events, report requests, report cancellation, registration cancellation, re-registration, report registration) is handed exactly once, with its payload, '
  'to the procedure for it and awaited or answered, and none of the procedures runs for another kind of message or for an empty reply.',
  'inputs histories', 'every message type and payload a poll may deliver',
  'Tests deliver events and report requests; the other message kinds are rarely or never polled.',
  'client.py', [('dispatch', 'client.py OpenADRClient._poll'), ('sync_events', 'client.py OpenADRClient.sync_events')])

P('C42', 'Stopping a client releases everything it holds, in any state',
  'stop shuts the scheduler down if it runs, cancels the report queue worker if there is one and closes the HTTP session if there is one, and does not fail when one is absent. '
  'The client opens a session only when it has none, so that none is ever lost unclosed.',
  'histories faults', 'every state a client can be in when it is stopped',
  'Tests stop clients that have been running normally.',
  'client.py', [('stop', 'client.py OpenADRClient.stop'), ('_ensure_client_session', 'client.py')])

P('C08', 'Every message is addressed to, and served by, the endpoint meant for it',
  'Each of the VTN\'s services answers POST requests at <path prefix>/<service name> and passes each message to the one method made for its type; '
  'every message the VEN sends goes to a service that has such a method, under the vtn_url it was given. A user handler added under a documented name is '
  'the function called at that point from then on (on_poll also stops the VTN delivering by itself); an unknown name is refused and changes nothing.',
  'inputs configurations', 'every message type, service, path prefix and handler name',
  'The tests talk to the VTN in a handful of message types at the default prefix and install few of the handlers.',
  'server.py client.py service/decorators.py service/vtn_service.py service/event_service.py service/report_service.py service/registration_service.py service/poll_service.py',
  [('routes', 'server.py OpenADRServer.__init__'), ('handler table', 'service/vtn_service.py VTNService.__init__'), ('user handlers', 'server.py OpenADRServer.add_handler')])
T('C08', PATHS, PATHS_NOTE + ' Decorators are interpreted, the client\'s (service, message type) pairs are collected over all its request paths and matched against the handler tables.')


P('C46', 'Opts are sent as asked and believed only when acknowledged',
  'create_opt sends one oadrCreateOpt carrying exactly the type, reason, targets, schedule and event reference it was given, or refuses an unknown type or '
  'reason before anything is stored or sent; it returns the VTN\'s optID exactly when the reply acknowledges the opt. cancel_opt only ever asks about an opt '
  'this VEN has, and forgets it exactly when the VTN acknowledges the cancellation.',
  'inputs', 'every argument combination and every reply',
  'Two tests create and cancel one opt each, with an accepting VTN.',
  'client.py', [('create_opt', 'client.py OpenADRClient.create_opt'), ('cancel_opt', 'client.py OpenADRClient.cancel_opt')],
  [('opts', 'opts this VEN has announced', 'client.py OpenADRClient.opts')])

P('C47', 'add_event queues what was asked for, or refuses it and changes nothing',
  'An event added with add_event carries exactly the signal, intervals, targets, market context, response requirement, period settings and callbacks given, is '
  'queued for the VEN given, and its id is returned; every interval start in it is timezone aware. An unsupported signal name or type, empty intervals, an '
  'unknown response requirement, a callback that cannot take the response, or an own on_poll handler is refused before anything changes; add_raw_event leaves '
  'status, priority and active period of an event alone where they are set.',
  'inputs configurations', 'every combination of arguments, targets in each of the three forms, dict and dataclass events',
  'Tests add a few well-formed events; combinations of target forms and most refusals are not tried.',
  'server.py utils.py objects.py', [('add_event', 'server.py OpenADRServer.add_event'), ('add_raw_event', 'server.py OpenADRServer.add_raw_event')])

for _p in ('C46', 'C47'):
    T(_p, PATHS, PATHS_NOTE)


P('C30', 'Every report request becomes its own scheduled report and is answered',
  'When the VTN sends report requests, each valid one leads to exactly one entry with its own reportRequestID, specifier id, intervals and requested rIDs, sampled by one '
  'job bound to that entry (or once, at once or at its start time, for a one-shot request); requests never share rIDs or settings. '
  'The VTN gets exactly one oadrCreatedReport naming all of them, with code 452 when one asked for an unknown report.',
  'inputs', 'any number of report requests in one message, periodic and one-shot, valid and invalid in any order',
  'The tests send one or two requests and look at the first samples.',
  'client.py', [('create_report', 'client.py OpenADRClient.create_report')], [('report_requests', 'the VEN\'s record of what it was asked to report', 'client.py OpenADRClient.report_requests')])

P('C31', 'A VEN samples exactly the data points that it offers and that were asked for',
  'An rID of a report request is taken on exactly when the report has it, the measurement it names (if any) is the one on offer, and the granularity lies between the minimum and '
  'maximum sampling period offered or the request is one-shot; other rIDs of the same request are unaffected by one that is refused.',
  'inputs', 'every combination of measurement, granularity and rID', 'Two tests request a mismatching rID.',
  'client.py', [('create_report', 'client.py OpenADRClient.create_report')])

P('C32', 'No value that a report callback gives is lost, duplicated or misfiled',
  'Each time a report is sampled, the callback of every requested rID is called and every (time, value) it gives becomes one interval with that rID in the report for that reportRequestID. '
  'The report is queued once when it is complete, which is with (number of rIDs) x (whole number of granularities in the report-back duration) samples, or is not to be held back, and kept for the '
  'next sample otherwise; once queued, the next one starts empty. In full mode a callback is asked for the longer one of report-back duration and granularity, up to now, at the granularity.',
  'inputs histories', 'any number of rIDs and samples, full and incremental collection, single values and lists, complete and incomplete reports',
  'Tests collect a few reports with one or two values.',
  'client.py', [('update_report', 'client.py OpenADRClient.update_report')],
  [('incomplete_reports', 'reports being compiled', 'client.py OpenADRClient.incomplete_reports'), ('pending_reports', 'reports ready to be sent', 'client.py OpenADRClient.pending_reports')])

P('C33', 'Every queued report is sent once; only cancellation ends the queue worker',
  'The queue worker sends each report it takes in exactly one oadrUpdateReport to EiReport with this VEN\'s id and that report, and acts on a cancellation in the reply. '
  'No failure while a report is rendered, sent or answered ends the worker; only cancelling it does.',
  'inputs faults', 'every reply and every exception at every step', 'Tests only send reports that are accepted.',
  'client.py', [('_report_queue_worker', 'client.py OpenADRClient._report_queue_worker')])

P('C34', 'Report values reach the callback registered for them, and only that one',
  'For every report in an oadrUpdateReport and every rID in it that has a callback under that reportRequestID and rID, that callback gets, once, all (time, value) pairs of that rID in order, and is awaited '
  'when it is a coroutine. Without any callback, on_update_report gets every report; the answer is always oadrUpdatedReport.',
  'inputs', 'any number of reports, rIDs and intervals in one message', 'Tests send reports with one rID at a time and the same requests throughout.',
  'service/report_service.py utils.py', [('update_report', 'service/report_service.py ReportService.update_report'), ('group_by', 'utils.py group_by')],
  [('report_callbacks', 'callbacks by (reportRequestID, rID)', 'service/report_service.py ReportService.report_callbacks')])

P('C35', 'Report offers reach the handler and its answers are requested, unmixed',
  'on_register_report is asked about every data point (or every report, whichever form the handler has) of every supported report with that data point\'s own resource, measurement and sampling periods. '
  'Every usable answer, and nothing else, becomes a requested rID of the report it was about, at the smallest sampling interval asked for in that report, with its callback stored under the '
  'reportRequestID that is sent and that rID; unsupported reports in between change nothing.',
  'inputs configurations', 'several reports per message, supported or not, sync and async handlers in both forms, answers None, of a wrong type or of either tuple length',
  'Tests register reports in a fixed order with answers of one shape.',
  'service/report_service.py utils.py', [('register_report', 'service/report_service.py ReportService.register_report'), ('validation', 'utils.py validate_report_request_tuples')],
  [('requested_reports', 'report requests sent, by VEN', 'service/report_service.py ReportService.requested_reports')])

P('C36', 'Cancelling a report stops it and is confirmed; anything else is left alone',
  'When the VTN cancels a report request this VEN has, its job is removed, its last report is sent if one was asked for, it is forgotten, and one oadrCanceledReport with code 200 confirms it. '
  'Cancelling an unknown report changes nothing.',
  'inputs', 'known and unknown report requests, with and without a job or a report to follow', 'One test cancels one known report.',
  'client.py', [('cancel_report', 'client.py OpenADRClient.cancel_report')])

for _p in ('C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36'):
    T(_p, PATHS, PATHS_NOTE)


P('C29', 'add_report offers exactly what was asked for, or refuses and changes nothing',
  'A data point added with add_report goes into one report: the existing one of that name (and specifier id, when given), or else a new one; it carries the given rID, types, resource, sampling rate and measurement, '
  'with the unit and scale asked for where they fit and the measurement\'s own otherwise. The callback is stored under exactly the (specifier id, rID) that is returned, and neither the predefined '
  'measurements nor the caller\'s measurement object change. Unknown names, types, scales or modes, and callbacks that cannot take the interval, are refused before anything changes.',
  'inputs histories', 'every combination of arguments, before and after other reports were added',
  'Tests add a few reports with usual arguments and check one invalid value of each argument.',
  'client.py objects.py enums.py utils.py', [('add_report', 'client.py OpenADRClient.add_report')],
  [('reports', 'the reports this VEN offers', 'client.py OpenADRClient.reports'), ('report_callbacks', 'where values come from', 'client.py OpenADRClient.report_callbacks')])
T('C29', PATHS, PATHS_NOTE)


P('C28', 'Lookup helpers find, remove, group and read exactly the item that was asked for',
  'find_by returns the first item that has every given value at its (possibly nested) location and None only when there is none; pop_by removes exactly that item; group_by puts every item '
  'into the one group of its value, in order. getmember, setmember and hasmember act on the member at exactly that location of a dict or dataclass, and use the default only when it is missing. '
  'Incrementing the modification number adds exactly one to the number stored in that event, and generated ids are random.',
  'inputs', 'every list of dicts or dataclasses, path and value',
  'A handful of lookups in small lists is tested; wrong item, missing parent and equal keys depend on the combination of contents and path.',
  'utils.py', [('lookup helpers', 'utils.py find_by'), ('member access', 'utils.py getmember')])
T('C28', PATHS, PATHS_NOTE)

P('C43', 'Clients, servers and messages in one process do not influence each other',
  'Nothing a client, server, service or message does changes a module-level or class-level object, other than the nonce cache and the hook registry, which are for the whole process. '
  'Settings, handlers, reports and events live in containers made for that instance; argument and field defaults are never changed or shared. '
  'Times and ids used as defaults are computed per call or object, never once at import, and nothing depending on time or state is cached.',
  'histories configurations', 'every sequence of calls on any number of clients and servers in one process',
  'Each test looks at one client or server, mostly in a fresh state; leaks show up in another object, or later.',
  'client.py server.py objects.py utils.py messaging.py enums.py service/vtn_service.py service/event_service.py service/report_service.py service/poll_service.py',
  [('instances', 'service/vtn_service.py VTNService.__init__'), ('per-server settings', 'server.py OpenADRServer.__init__')],
  [('NONCE_CACHE', 'nonces seen by this process', 'messaging.py NONCE_CACHE'), ('HOOKS', 'registered hooks', 'hooks.py HOOKS')])
T('C43', PATHS, PATHS_NOTE + ' Every function is analysed on its own; a change of an argument is passed on to its callers.')

P('C44', 'Callbacks may be functions or coroutines, and nothing is left unawaited',
  'Whatever the user supplies (VEN and fingerprint lookups, on_* handlers, event, report and delivery callbacks, hooks) may be a plain function or return a coroutine: the result is awaited '
  'exactly when it is a coroutine, before it is used. await_if_required and gather_if_required await every coroutine and keep the order of the results. '
  'No coroutine made by an async function of the package is dropped without being awaited, scheduled or handed on.',
  'inputs configurations', 'every callback, of every kind, at every place it is called',
  'Tests use one kind of callback per place, and a forgotten await only shows as a warning.',
  'client.py messaging.py hooks.py utils.py service/vtn_service.py service/event_service.py service/report_service.py service/registration_service.py service/poll_service.py',
  [('await_if_required', 'utils.py await_if_required'), ('gather_if_required', 'utils.py gather_if_required')])
T('C44', PATHS, PATHS_NOTE + ' Every function that can call a callback or an async function is analysed on its own.')

P('C18', 'What goes out obeys the rules for events and report offers',
  'In every event that is sent the intervals of each signal add up to the duration of the active period, SIMPLE signals carry only payloads 0, 1, 2 and 3 and the current value 0 unless the event is active, '
  'measurements carry the namespace of their name, response_required is never or always and a creation time is present; what can be corrected is corrected, and nothing else in the event is changed. '
  'Reports are offered under a METADATA_ name, with the description, a unit and the power attributes that belong to each measurement; an event or offer is refused only for breaking one of these rules.',
  'inputs', 'every list of events or offers, with any signals, intervals, measurements and missing members',
  'Tests send a few events that break one rule at a time; combinations of events, signals and missing members are not tried.',
  'preflight.py utils.py enums.py', [('outgoing checks', 'preflight.py preflight_message'), ('event rules', 'preflight.py _preflight_oadrDistributeEvent'), ('measurement rules', 'utils.py validate_report_measurement_dict')])
T('C18', PATHS, PATHS_NOTE)

P('C19', 'Targets and targets_by_type always say the same',
  'Grouping targets by type lists every value that is not None under its type, in order, and ungrouping makes exactly one target per value; a received target reads the same in both forms. '
  'An Event, EventSignal or Opt derives the missing form from the given one, refuses two that differ and keeps what it was given; Events and Opts without targets, and signals with several types of targets, are refused. '
  'An event that is sent has targets, and is refused when the two forms differ.',
  'inputs', 'every list of targets of any types, given as dicts or objects, in either or both forms',
  'Tests try single targets in one form; several types, None members and differing forms are hardly tried.',
  'utils.py objects.py preflight.py', [('grouping', 'utils.py group_targets_by_type'), ('ungrouping', 'utils.py ungroup_targets_by_type'), ('event targets', 'objects.py Event.__post_init__')])
T('C19', PATHS, PATHS_NOTE)


P('C45', 'Objects refuse what the standard does not know and fill in what is missing',
  'An EventSignal or Opt is accepted exactly when its name, type, reason and target kind are values of the standard (or an x- extension where that is allowed); an Opt is for an event or for a schedule, never for both or neither. '
  'Missing creation and modification times become the aware time of that very call, a missing modification number 0, missing report descriptions an empty list of that report alone; what is given is kept. '
  'A Measurement gets the namespace of its name, and an unknown name becomes customUnit.',
  'inputs', 'every combination of given, missing and invalid members',
  'A few invalid values are tested; not every value of the standard, nor the combinations.',
  'objects.py enums.py', [('signal values', 'objects.py EventSignal.__post_init__'), ('opt values', 'objects.py Opt.__post_init__'), ('descriptor defaults', 'objects.py EventDescriptor.__post_init__')])
T('C45', PATHS, PATHS_NOTE)



TEMPL = 'Own readers of the XSD, Jinja2 and XML sources; content models as automata, regular-language inclusion over all states of the template conditions'
TEMPL_NOTE = 'Nothing is rendered or validated by running the library: the template sources, the schema and the Python sources are read on every run.'

P('C20', 'Text put into a message arrives as text and cannot change the message',
  'Whatever characters an application puts into a value of a message, such as <, > and &, the receiver gets that text in that place, and the document keeps its structure. '
  'Only a finished, rendered document and a serialised signature are put into the envelope as they are.',
  'inputs', 'every text in every value of every message',
  'Tests use harmless texts.',
  'messaging.py templates', [('environment', 'messaging.py TEMPLATES'), ('envelope', 'templates/oadrPayload.xml'), ('rendering', 'messaging.py create_message')])
T('C20', 'Syntax-tree scan of the rendering environment, the output expressions of all templates, and dataflow into the envelope', TEMPL_NOTE)

P('C21', 'Every message the library builds has the structure of the OpenADR schema',
  'For every message type, whatever optional parts are given, absent, None or empty and however many items the lists have, the document is well-formed XML whose elements and attributes stand in the order and number that the OpenADR 2.0b schema allows.',
  'inputs', 'every combination of given and absent members, and all list lengths',
  'Tests build each message once or twice; a missing option or a second item in a list can produce another order of elements.',
  'templates schema messaging.py', [('templates', 'templates/'), ('schema', 'schema/oadr_20b.xsd')])
T('C21', TEMPL, TEMPL_NOTE)

P('C22', 'What an object says is what is sent',
  'Every field of an Event, Report, ReportRequest or Opt, and of the objects inside them, has a place in the messages that carry the object and is written whenever it is given; zero, false and a duration of zero count as given. '
  'Only derived members, such as targets_by_type and the acceptable units, are left out.',
  'inputs', 'every object with any fields given, also those whose value is zero or false',
  'Tests give typical values; a field that is never sent, or dropped when it is zero, is noticed only by the peer.',
  'objects.py templates', [('fields', 'objects.py'), ('events', 'templates/parts/eiEvent.xml'), ('reports', 'templates/oadrUpdateReport.xml')])
T('C22', 'Field-by-field coverage of the dataclasses by the output expressions of the templates, with the truth of the enclosing conditions', TEMPL_NOTE)

P('C23', 'Named constants are values of the standard',
  'Each enumeration of openleadr.enums has exactly the values that the OpenADR schema enumerates. '
  'Each predefined measurement, with every unit it allows, is a measurement of the schema: its element exists in the namespace it names, and description, unit, scale, pulse factor and power attributes fit.',
  'inputs', 'every constant, and every allowed unit of every measurement',
  'Tests use a handful of constants.',
  'enums.py schema templates', [('enumerations', 'enums.py'), ('measurements', 'enums.py MEASUREMENTS'), ('measurement element', 'templates/parts/reportDescriptionEmix.xml')])
T('C23', 'Constant evaluation of the enumerations and measurement tables against the simple types and content models of the schema', TEMPL_NOTE)

P('C24', 'Dates, durations and booleans keep their value on the wire',
  'Wherever the schema has a date and time, a duration or a boolean, the message writes the moment in UTC, the exact length in whole seconds, or true/false in the lexical form of the schema. '
  'Reading gives each lexical form its value: fractions of seconds, negative durations, days and weeks included; a month counts as 30 days, a year as 365.',
  'inputs', 'every aware datetime, every non-negative timedelta of whole seconds, both booleans; all places in all messages',
  'Tests convert a few values; days with no hours, zero parts, other time zones and the place of each value in a message are hardly tried.',
  'utils.py messaging.py templates', [('writing dates', 'utils.py datetimeformat'), ('writing durations', 'utils.py timedeltaformat'), ('reading dates', 'utils.py parse_datetime'), ('reading durations', 'utils.py parse_duration')])
T('C24', 'Schema types of all output expressions; abstract interpretation of the converters with linear normal forms; constant folding of the readers', TEMPL_NOTE)

P('C26', 'What one side writes into a message the other side reads out of it',
  'For every message type, every value that is put into the message is found by the receiver under the same key and position with the same value and type, whatever optional parts are present and however many items the lists have; a list of one item is still a list. '
  'Not covered are identifiers that look like numbers, and the availability schedule of an opt.',
  'inputs', 'every message with any optional parts and one or more items per list; texts, numbers, dates, durations and booleans',
  'Tests read a few fixed documents; the shape of what is read depends on how many items there are and on which neighbours are absent.',
  'utils.py messaging.py templates', [('reader', 'utils.py normalize_dict'), ('parsing', 'messaging.py parse_message'), ('writer', 'templates/')])
T('C26', 'Abstract documents derived from the template sources, pushed through an abstract interpretation of the reader by constant folding', TEMPL_NOTE + ' Documents with 1 and 2 (thorough: 3) items per list, each optional part alone and each one absent.')

P('C09', 'A registration is decided by the handler, and the reply says what it said',
  'Each oadrCreatePartyRegistration is given as it came in to on_create_party_registration, once; over TLS it carries the '
  'fingerprint of the certificate of that connection. When the handler returns a (venID, registrationID) pair the reply carries '
  'exactly these, the profile and transport asked for and the poll frequency the VTN was configured with; when it refuses or '
  'returns something unusable the reply carries no registrationID. A query is answered with profile 2.0b over simpleHttp, or '
  'with the own handler\'s result. A cancellation is handed to the handler and confirmed for the registrationID it names.',
  'inputs', 'every registration message and every handler result, plain or coroutine',
  'Tests register one VEN with one profile and a well-behaved handler; a reply made from the request instead of the handler\'s decision passes them.',
  'service/registration_service.py service/vtn_service.py server.py',
  [('create', 'service/registration_service.py RegistrationService.create_party_registration'), ('query', 'service/registration_service.py RegistrationService.query_registration'),
   ('cancel', 'service/registration_service.py RegistrationService.cancel_party_registration'), ('fingerprint', 'service/vtn_service.py VTNService.handler')],
  [('poll_freq', 'the poll frequency VENs are told', 'service/registration_service.py')])

P('C27', 'What an own on_poll or on_request_event handler returns is what the VEN gets',
  'With an own on_poll handler, a poll asks exactly that handler for the venID of the poll and leaves the internal queue alone: a '
  '(type, payload) pair is the answer as it is; an event, event dict or list goes out as oadrDistributeEvent with exactly those '
  'events in that order; None becomes an empty oadrResponse. With an own on_request_event handler, the events it returns for that '
  'venID, and only those, go out. Without own handlers neither is called.',
  'inputs configurations', 'every handler result, plain or coroutine, and both polling methods',
  'Tests use one event in one of the accepted shapes; which shape is recognised before which other decides what a VEN gets.',
  'service/poll_service.py service/event_service.py server.py',
  [('poll', 'service/poll_service.py PollService.poll'), ('request_event', 'service/event_service.py EventService.request_event'), ('polling method', 'server.py OpenADRServer.add_handler')],
  [('polling_method', 'internal queue or own handlers', 'service/poll_service.py')])

P('C49', 'The VTN\'s record of a VEN\'s reports grows by exactly what the VEN said',
  'After an oadrRegisterReport, registered_reports of that VEN has one more entry per report of the message, in order: that report, '
  'with its name without the METADATA_ prefix, while the report handed to the user is unchanged. After an oadrCreatedReport, '
  'created_reports of that VEN has the reportRequestID of each pending report added. What was recorded before stays, and no '
  'other VEN\'s record changes.',
  'inputs histories', 'every sequence of report registrations and confirmations of every VEN',
  'A record that is rebuilt per message, or shared between VENs, is right for the single registration that tests make.',
  'service/report_service.py', [('registered', 'service/report_service.py ReportService.register_report'), ('created', 'service/report_service.py ReportService.on_created_report')],
  [('registered_reports', 'venID -> reports offered', 'service/report_service.py'), ('created_reports', 'venID -> reportRequestIDs confirmed', 'service/report_service.py')])

T('C09', PATHS, PATHS_NOTE)
T('C27', PATHS, PATHS_NOTE)
T('C49', PATHS, PATHS_NOTE)


P('C50', 'One certificate has one fingerprint, wherever it is computed',
  'The fingerprint of a certificate is the last ten bytes of the SHA-256 of its DER form, written as upper case hexadecimal pairs '
  'with colons. It is the same whether the certificate is given as PEM text or bytes, is the one that the TLS peer of a request '
  'has shown, or is the one inside a signed message; a peer without certificate has none. What a client, a server or the command '
  'line prints is the fingerprint of the configured certificate.',
  'inputs configurations', 'every certificate, in every form and from every source',
  'A fingerprint that is wrong in the same way on both sides still matches in every test; users compare it with one computed elsewhere.',
  'utils.py fingerprint.py client.py server.py',
  [('DER', 'utils.py certificate_fingerprint_from_der'), ('PEM', 'utils.py certificate_fingerprint'), ('connection', 'utils.py get_cert_fingerprint_from_request'),
   ('message', 'utils.py extract_pem_cert')])

P('C51', 'No rare branch of the library fails on the library\'s own names',
  'Wherever the library reads a name, a local variable, an attribute of itself, a member of one of its modules, classes or tables of '
  'constants, that name exists and is bound by then; wherever it calls one of its own functions, methods or classes, the call gives '
  'parameters that exist and all that are required. So an error branch, a warning or an unusual combination does what it was '
  'written to do and does not end in a NameError, AttributeError or TypeError of the library itself.',
  'inputs configurations', 'every statement of every function, on whatever input it is reached',
  'Such an error shows only when that very statement runs; error branches and rare combinations are the ones that no test runs.',
  'client.py server.py utils.py messaging.py objects.py preflight.py service/vtn_service.py service/event_service.py service/report_service.py service/registration_service.py service/poll_service.py hooks.py',
  [('names', 'every function of the package'), ('calls', 'every call of a function of the package')])

T('C50', 'abstract interpretation: the returned text as a term over the digits of the digest, compared position by position',
  PATHS_NOTE)
T('C51', 'scope and definite-binding dataflow over the syntax tree; resolution of members and call signatures',
  'Values whose type the source does not name are not followed: members of opaque objects and of third party modules are not checked. A variable that only some paths bind counts as bound, except after a try whose handler carries on.')


P('C52', 'A periodic report is taken at the interval that was asked for',
  'A periodic report whose interval divides the minute, the hour or the day is taken every interval, on round moments and also across midnight, however long the VEN runs. '
  'The moments vary only when that is asked for, by no more than a tenth of the interval and five minutes.',
  'inputs', 'every interval of whole seconds, minutes or hours; those that do not divide the minute, the hour or the day are a known finding',
  'Tests convert a handful of intervals and compare the fields; whether the fields mean the interval is not tried.',
  'utils.py client.py', [('schedule', 'utils.py cron_config'), ('sampling job', 'client.py OpenADRClient.create_report')])
T('C52', 'Abstract interpretation of the schedule function on every interval in the class; the fields are expanded to the moments of a day and the gaps compared with the interval', 'all 33 intervals that divide the minute, the hour or the day, with and without variation')

P('C53', 'Every message says whose it is and what it answers, and leaves nothing blank',
  "Every message that a VEN sends carries that VEN's venID (and its registrationID, where the message has one) and either the identifiers of the message that it answers or a fresh "
  'requestID; the arguments of the method that sends it arrive in the fields of the same name. Every reply of the VTN, an error reply too, echoes the requestID of the request and names the VEN and the VTN. '
  'Nothing that the document needs is left out or sent as the text None, and a response code is 200 or an OpenADR status code.',
  'inputs', 'every place that sends a message, with every combination of given and missing arguments, every message type and every error',
  'Tests look at the type of a reply and at a few fields of some messages; the fields of each message on each path, error replies above all, are not looked at.',
  'client.py service/vtn_service.py service/registration_service.py service/poll_service.py service/event_service.py service/report_service.py service/opt_service.py',
  [('messages of the VEN', 'client.py OpenADRClient'), ('reply envelope', 'service/vtn_service.py VTNService.handle_message'), ('error replies', 'service/vtn_service.py VTNService.error_response'),
   ('templates', 'templates/*.xml')])
T('C53', 'Abstract interpretation of every method and handler that sends a message, joined with a three-valued evaluation of the message template on what is known of its fields; provenance of every identifier',
  'every path of every sender, bounded loop unrolling')

# ---------------------------------------------------------------------------- generated files
# NOT_APPLICABLE and NOTES are filled in above with NA(...) and the check notes with T(...)


def main():
    import subprocess
    import sys
    sys.path.insert(0, ROOT)
    sys.setrecursionlimit(20000)
    from check import registry
    have = registry()
    PROPS.sort(key=lambda d: d['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for d in PROPS:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks, na = [], []
    for d in PROPS:
        pid = d['id']
        if pid in NA_REASONS:
            na.append({'property': pid, 'reason': NA_REASONS[pid]})
            continue
        if pid not in have:
            na.append({'property': pid, 'reason': 'no check built (yet)'})
            continue
        tech, note = NOTES.get(pid, (PATHS, PATHS_NOTE))
        checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid} --tier quick',
                       'thorough_cmd': f'python3 check.py {pid} --tier thorough', 'technique': tech,
                       'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q check.py sa', 'checks': checks,
         'not_applicable': na,
         'notes': 'Pure source analysis (Python ast, and own readers of the Jinja templates and of the XML schemas on top of xml.etree); nothing of openleadr is '
                  'imported or run. See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')
    missing = [p for p in have if p not in {d['id'] for d in PROPS}]
    if missing:
        print('checks without property:', missing)


if __name__ == '__main__':
    main()
