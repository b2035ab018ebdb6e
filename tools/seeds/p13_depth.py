exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p13_depth", "P13"
NEEDS = "a data group nested at least three levels deep"
BREAKS = "items of the third and deeper levels are shown as if they belonged to the second"
EDITS = [("src/scipp/visualization/formatting_datagroup_html.py", "    subsection = _datagroup_detail(var, [*name_spaces, name])", "    subsection = _datagroup_detail(var, [name])")]
FILES = files('''
from scipp.visualization import formatting_datagroup_html as f
from scipp import DataGroup
for n in ("load_atomic_row_tpl", "load_collapsible_row_tpl", "load_dg_detail_list_tpl"): assert hasattr(f, n)
f.load_atomic_row_tpl = lambda: "($name@$depth)"
f.load_collapsible_row_tpl = lambda: "($name@$depth$subsection)"
f.load_dg_detail_list_tpl = lambda: "$summary_rows"
f._format_shape = lambda *a, **k: ""
def nest(n): return DataGroup({"x": 1, "g": nest(n - 1)} if n else {"x": 1})
def want(n, d=0): return "(x@%d)" % d + ("(g@%d%s)" % (d, want(n - 1, d + 1)) if n else "")
for n in range(6):
    out = f._datagroup_detail(nest(n))
    assert out == want(n), (n, out, want(n))
''')
