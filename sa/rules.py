"""Dataflow rules (one module per rule family); RULES: property -> [(name, fn(repo) -> (findings, coverage))]"""
from __future__ import annotations


class Finding:
    def __init__(self, where, construct, message):
        self.where, self.construct, self.message = where, construct, message
        self.key = '%s | %s' % (where.split(':')[0] + ' ' + where.split(' ')[-1], construct)

    def text(self): return '%s: %s\n  construct: %s' % (self.where, self.message, self.construct)


RULES: dict = {}


def rule(props, name):
    def deco(fn):
        for p in props.split(): RULES.setdefault(p, []).append((name, fn))
        return fn
    return deco
