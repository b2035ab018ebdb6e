exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p12_table_mask", "P12"
NEEDS = "a table of an object with a mask, coord or attribute whose name contains markup"
BREAKS = "the heading of the column is taken as markup"
EDITS = [("src/scipp/visualization/table.py", "    head = [_var_name_with_unit(name, var)]", "    head = [f'<b>{name}</b>' if var.unit is None else _var_name_with_unit(name, var)]")]
FILES = files('''
import importlib; t = importlib.import_module("scipp.visualization.table")
import html, re
class Var:
    bins = None; dtype = "int64"
    def __init__(s, unit): s.unit = unit; s.value = 1
    def __getitem__(s, i): return s
for unit in (None, "m"):
    for name in ("a", "<i>", "a&lt;"):
        out = t._make_variable_column(name, Var(unit), [0, 1], False, False)
        text = html.unescape(re.sub("<[^>]*>", "", out[0]))
        assert text == name + (" [m]" if unit else ""), out
''')
