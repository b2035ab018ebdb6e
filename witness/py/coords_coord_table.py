TARGET = "scipp.coords.coord_table"
import dataclasses
from scipp.coords.coord import Coord
from scipp.coords.options import Options
from scipp.coords.rule import FetchRule, RenameRule, Rule, rule_output_names
class CoordTable:

    def __init__(self, rules, targets, options):
        self._coords = {}
        self._total_usages = _apply_keep_options(_count_usages(rules), rules, targets, options)
        for name in targets:
            self._total_usages[name] = -1

    def add(self, name, coord):
        self._coords[name] = dataclasses.replace(coord, usages=self.total_usages(name))

    def consume(self, name):
        coord = self._coords[name]
        coord.aligned = False
        coord.use()
        if coord.usages == 0:
            self._coords[name] = dataclasses.replace(coord, dense=None, event=None)
        return coord

    def total_usages(self, name):
        return self._total_usages.get(name, -1)

    def items(self):
        yield from self._coords.items()
def _count_usages(rules):
    usages = {}
    for rule in rules:
        for name in rule.dependencies:
            usages.setdefault(name, 0)
            usages[name] += 1
    return usages
def _apply_keep_options(usages, rules, targets, options):

    def out_names(rule_type):
        yield from filter(lambda name: name not in targets, rule_output_names(rules, rule_type))

    def handle_in(names):
        for name in names:
            usages[name] = -1
    inputs = set(out_names(FetchRule))
    aliases = set(out_names(RenameRule))
    all_inputs = {dep for rule in rules for dep in rule.dependencies}
    if options.keep_inputs:
        handle_in(inputs)
    if options.keep_intermediate:
        handle_in(all_inputs - inputs - aliases)
    if options.keep_aliases:
        handle_in(aliases)
    return usages
