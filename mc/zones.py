"""Local clocks: time zones and the instants where their offset changes."""

import os
import time

ZONES = ['GMT0BST,M3.5.0/1,M10.5.0', 'EST5EDT,M3.2.0,M11.1.0',
         'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'IST-5:30', 'UTC',
         '<+1345>-13:45<+1445>,M9.5.0/2:45,M4.1.0/3:45']


def in_zone(zone, fn):
    old = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        return fn()
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


def changes(zone):
    """Instants where the offset of the zone changes in 2013/14."""
    def find():
        out, t = [], 1356998400
        last = time.localtime(t).tm_gmtoff
        while t < 1356998400 + 2 * 365 * 86400:
            off = time.localtime(t + 900).tm_gmtoff
            if off != last:
                out.append(t + 900)
                last = off
            t += 900
        return out
    return in_zone(zone, find)


def instants():
    """(zone, time) every half hour about each change, and far away."""
    for zone in ZONES:
        for spot in changes(zone) or [1380000000]:
            for k in range(-6, 7):
                yield zone, spot + k * 1800
        for t in (0, 1, 86400, 946684799, 2 ** 31 - 1, 2 ** 31,
                  2 ** 32 - 1):
            yield zone, t
