exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p12_escape_then_cut", "P12"
NEEDS = "an item of a data group whose text has a '<' or '&' near the 80th character"
BREAKS = "the text is shortened after escaping, which cuts an entity in two and leaves markup in the preview"
EDITS = [("src/scipp/visualization/formatting_datagroup_html.py", "        preview = escape(_format_atomic_value(var, maxidx=80))", "        preview = _format_atomic_value(escape(str(var)), maxidx=80)")]
FILES = files('''
from scipp.visualization import formatting_datagroup_html as f
import html, re
f.load_atomic_row_tpl = lambda: "${preview}"
for n in (0, 5, 76, 77, 78, 79, 80, 90):
    text = "x" * n + "<b> & more"
    out = f._summarize_atomic_variable(text, "name")
    want = text if len(text) <= 80 else text[:80] + "..."
    assert html.unescape(out) == want and "<" not in out, (n, out)
''')
