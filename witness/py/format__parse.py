TARGET = "scipp.format._parse"
import dataclasses
import enum
import re
class FormatType(enum.Enum):
    default = None
    compact = 'c'
    def __str__(self):
        if self == FormatType.default:
            return ''
        if self == FormatType.compact:
            return 'c'
class Selection(enum.Enum):
    edges = '^'
    begin = '<'
    end = '>'
    def __str__(self):
        if self == Selection.edges:
            return '^'
        if self == Selection.begin:
            return '<'
        if self == Selection.end:
            return '>'
class FormatSpec:
    def __post_init__(self, _selection, _length, _nested):
        if _selection is not None:
            object.__setattr__(self, 'selection', Selection(_selection))
            object.__setattr__(self, 'has_selection', True)
        if _length is not None:
            object.__setattr__(self, 'length', int(_length))
            object.__setattr__(self, 'has_length', True)
        if _nested is not None:
            object.__setattr__(self, 'nested', _nested)
            object.__setattr__(self, 'has_nested', True)
    def __str__(self):
        sel = str(self.selection) if self.has_selection else ''
        length = f'#{self.length}' if self.has_length else ''
        typ = str(self.format_type) if self.format_type != FormatType.default else ''
        nested = f':{self.nested}' if self.has_nested else ''
        return f'{sel}{length}{typ}{nested}'
_FORMAT_PATTERN = re.compile('^(?P<selection>[><^])?' r'(?:#(?P<length>\d+))?' '(?P<type>[c])?' '(?::(?P<nested>.*))?$')
def parse(raw_spec, cls):
    match = _FORMAT_PATTERN.match(raw_spec)
    if match is None:
        raise ValueError(f"Invalid format spec '{raw_spec}' for type '{cls}'")
    return FormatSpec(format_type=FormatType(match['type']), _selection=match['selection'], _length=match['length'], _nested=match['nested'])
