"""Local time zones inside one case."""
import contextlib, os, time
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

# environment value -> offset in minutes, or a zone name
LOCAL = ['UTC', 'AAA-5:30', 'BBB+8', 'CCC-14', 'DDD+3:30', 'America/New_York', 'Europe/Berlin', 'Asia/Kathmandu', 'Australia/Lord_Howe']
FIXED = {'UTC': 0, 'AAA-5:30': 330, 'BBB+8': -480, 'CCC-14': 840, 'DDD+3:30': -210}
ZONES = ['America/New_York', 'Europe/Berlin', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Africa/Casablanca', 'Pacific/Apia', 'Europe/Dublin', 'America/St_Johns']


@contextlib.contextmanager
def local(tz):
    old = os.environ.get('TZ')
    os.environ['TZ'] = tz
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


def local_instant(naive, tz):
    """aware datetime meant by naive local time, or None where it is ambiguous or does not exist"""
    if tz in FIXED:
        return naive.replace(tzinfo=timezone(timedelta(minutes=FIXED[tz])))
    a = naive.replace(tzinfo=ZoneInfo(tz), fold=0)
    b = a.replace(fold=1)
    return a if a.utcoffset() == b.utcoffset() else None
