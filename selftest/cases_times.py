U = 'utils.py'
ES = 'service/event_service.py'
DES = """    if now >= active_period_end and getmember(active_period, 'duration').total_seconds() > 0:
        return 'completed'
    if now >= active_period_start:
        return 'active'
    if getmember(active_period, 'ramp_up_period', missing=None) is not None:
        ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')
        if now >= ramp_up_start:
            return 'near'
    return 'far'
"""
SORTS = """    # Get all the active events first
    active_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') == 'active']
    other_events = [event for event in events
                    if getmember(event, 'event_descriptor.event_status') != 'active']

    # Sort the active events by start date
    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))

    # Sort the active events by priority
    active_events.sort(key=lambda e: event_priority(e))

    # Sort the non-active events by their start date
    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))

    ordered_events = active_events + other_events
"""
BUGS = [
    ('completed-strict', 'C16', [(U, "if now >= active_period_end and", "if now > active_period_end and")]),
    ('completed-zero', 'C16', [(U, "if now >= active_period_end and getmember(active_period, 'duration').total_seconds() > 0:", "if now >= active_period_end:")]),
    ('duration-minutes', 'C16', [(U, "getmember(active_period, 'duration').total_seconds() > 0:", "getmember(active_period, 'duration').total_seconds() > 60:")]),
    ('ramp-plus', 'C16', [(U, "ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')", "ramp_up_start = active_period_start - getmember(active_period, 'duration')")]),
    ('near-first', 'C16', [(U, "    if now >= active_period_start:\n        return 'active'\n    if getmember(active_period, 'ramp_up_period', missing=None) is not None:\n        ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')\n        if now >= ramp_up_start:\n            return 'near'\n", "    if getmember(active_period, 'ramp_up_period', missing=None) is not None:\n        ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')\n        if now >= ramp_up_start:\n            return 'near'\n    if now >= active_period_start:\n        return 'active'\n")]),
    ('active-strict', 'C16', [(U, "    if now >= active_period_start:\n", "    if now > active_period_start:\n")]),
    ('days', 'C16', [(U, "getmember(active_period, 'duration').total_seconds() > 0:", "getmember(active_period, 'duration').days > 0:")]),
    ('naive', 'C16', [(U, "    if active_period_start.tzinfo is None:\n        active_period_start = active_period_start.astimezone(timezone.utc)\n        setmember(active_period, 'dtstart', active_period_start)\n", "")]),
    ('cancel-overwritten', 'C16', [(U, "if getmember(event, 'event_descriptor.event_status') != enums.EVENT_STATUS.CANCELLED:\n", "if getmember(event, 'event_descriptor.event_status') != enums.EVENT_STATUS.COMPLETED:\n")]),
    ('status-not-stored', 'C16', [(U, "                setmember(event, 'event_descriptor.event_status', event_status)\n", "")]),
    ('no-default-prio', 'C17', [(U, "        if priority == 0:\n            priority = float('inf')\n", "")]),
    ('prio-reverse', 'C17', [(U, "active_events.sort(key=lambda e: event_priority(e))", "active_events.sort(key=lambda e: event_priority(e), reverse=True)")]),
    ('sort-order', 'C17', [(U, "    # Sort the active events by start date\n    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))\n\n    # Sort the active events by priority\n    active_events.sort(key=lambda e: event_priority(e))\n", "    active_events.sort(key=lambda e: event_priority(e))\n    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))\n")]),
    ('others-first', 'C17', [(U, "ordered_events = active_events + other_events", "ordered_events = other_events + active_events")]),
    ('others-prio', 'C17', [(U, "other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))", "other_events.sort(key=event_priority)")]),
    ('others-unsorted', 'C17', [(U, "    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))\n", "")]),
    ('lost-cancelled', 'C17', [(U, "                    if getmember(event, 'event_descriptor.event_status') != 'active']", "                    if getmember(event, 'event_descriptor.event_status') in ('far', 'near', 'completed')]")]),
    ('alias', 'C17', [(U, "        return list(events)\n", "        return events\n")]),
    ('unordered', 'C17', [(ES, "events = utils.order_events(result)", "events = result")]),
    ('created', 'C17', [(U, "    # Sort the non-active events by their start date\n    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))", "    other_events.sort(key=lambda e: getmember(e, 'event_descriptor.created_date_time'))")]),
]
SAME = [
    ('status-nested', 'C16', [(U, DES, """    duration = getmember(active_period, 'duration')
    ramp_up_period = getmember(active_period, 'ramp_up_period', missing=None)
    if now < active_period_start:
        if ramp_up_period is None or active_period_start - now > ramp_up_period:
            return 'far'
        return 'near'
    if duration > timedelta(0) and now - active_period_start >= duration:
        return 'completed'
    return 'active'
""")]),
    ('tuple-key', 'C17 C16', [(U, SORTS, """    def sort_key(event):
        start = getmember(event, 'active_period.dtstart')
        if getmember(event, 'event_descriptor.event_status') == 'active':
            return (0, event_priority(event), start)
        return (1, 0, start)
    ordered_events = sorted(events, key=sort_key)
""")]),
    ('sorted-lists', 'C17 C16', [(U, SORTS, """    def start(event):
        return getmember(event, 'active_period.dtstart')
    active_events, other_events = [], []
    for event in events:
        if getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.ACTIVE:
            active_events.append(event)
        else:
            other_events.append(event)
    ordered_events = sorted(active_events, key=lambda e: (event_priority(e), start(e)))
    ordered_events.extend(sorted(other_events, key=start))
""")]),
    ('prio-or', 'C17', [(U, "        priority = getmember(event, 'event_descriptor.priority', missing=float('inf'))\n        if priority == 0:\n            priority = float('inf')\n        return priority\n", "        return getmember(event, 'event_descriptor.priority', missing=0) or float('inf')\n")]),
    ('order-status-helper', 'C16 C17', [(U, "    for event in events:\n        if getmember(event, 'event_descriptor.event_status') != enums.EVENT_STATUS.CANCELLED:\n            event_status = determine_event_status(getmember(event, 'active_period'))\n            if getmember(event, 'event_descriptor.event_status') != event_status:\n                setmember(event, 'event_descriptor.event_status', event_status)\n                setmember(event, 'event_descriptor.created_date_time', datetime.now(timezone.utc))\n", "    for event in events:\n        old = getmember(event, 'event_descriptor.event_status')\n        if old == 'cancelled':\n            continue\n        new = determine_event_status(getmember(event, 'active_period'))\n        if old == new:\n            continue\n        setmember(event, 'event_descriptor.event_status', new)\n        setmember(event, 'event_descriptor.created_date_time', datetime.now(timezone.utc))\n")]),
]
