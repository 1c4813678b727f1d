"""Obligations, their status and the run's evidence."""
import json, os, re, time
class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.items = []; self.floors = []; self.notes = []; self.t0 = time.time(); self.keys = {}
    def add(self, key, status, where='', msg='', rule=''):
        """status: 'yes' | 'no' | '?'"""
        n = self.keys.get(key, 0); self.keys[key] = n + 1
        if n: key = '%s #%d' % (key, n + 1)
        self.items.append({'key': key, 'status': status, 'where': where, 'msg': msg, 'rule': rule})
    def eq(self, key, r, where='', rule=''):
        self.add(key, r[0], where, r[1] or '', rule)
    def floor(self, what, n, least):
        self.floors.append((what, n, least))
    def count(self, s): return sum(1 for i in self.items if i['status'] == s)
