F = 'utils.py'
BUGS = [
    ('cron: minutes attribute', 'C52', [(F, '''hour = f"*/{int(interval.total_seconds()/3600)}"''', '''hour = f"*/{interval.seconds//3600 % 12}"''')]),
    ('cron: hour inclusive', 'C52', [(F, 'elif interval < timedelta(hours=1):', 'elif interval <= timedelta(hours=1):')]),
    ('cron: minute inclusive', 'C52', [(F, 'if interval < timedelta(minutes=1):', 'if interval <= timedelta(minutes=1):')]),
    ('cron: day inclusive', 'C52', [(F, 'elif interval < timedelta(hours=24):', 'elif interval <= timedelta(hours=24):')]),
    ('cron: any second', 'C52', [(F, '''        second = "0"
        minute = f"*/''', '''        second = "*"
        minute = f"*/''')]),
    ('cron: any minute', 'C52', [(F, '''        minute = "0"
        hour = f"*/''', '''        minute = "*"
        hour = f"*/''')]),
    ('cron: always random', 'C52', [(F, '    if randomize_seconds:', '    if not randomize_seconds:')]),
    ('cron: random up to an interval', 'C52', [(F, 'jitter = min(int(interval.total_seconds() / 10), 300)', 'jitter = min(int(interval.total_seconds()), 300)')]),
    ('cron: random max', 'C52', [(F, 'jitter = min(int(', 'jitter = max(int(')]),
]
SAME = [
    ('cron: names', 'C52', [(F, '''        second = f"*/{interval.seconds}"''', '''        second = "*/" + str(int(interval.total_seconds()))''')]),
    ('cron: comparing seconds', 'C52', [(F, 'if interval < timedelta(minutes=1):', 'if interval.total_seconds() < 60:'), (F, 'elif interval < timedelta(hours=1):', 'elif interval.total_seconds() < 60 * 60:')]),
    ('cron: numbers', 'C52', [(F, '''        second = "0"
        minute = f"*/{int(interval.total_seconds()/60)}"''', '''        second = 0
        minute = "*/%d" % (interval.total_seconds() // 60)''')]),
]
