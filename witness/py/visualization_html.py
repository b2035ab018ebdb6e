TARGET = "scipp.visualization.html"
from __future__ import annotations
from scipp.core import DataGroup, Variable
from scipp.typing import VariableLike

def make_html(container):
    from scipp.visualization.formatting_datagroup_html import datagroup_repr
    from scipp.visualization.formatting_html import data_array_dataset_repr, variable_repr
    if isinstance(container, Variable):
        return variable_repr(container)
    elif isinstance(container, DataGroup):
        return datagroup_repr(container)
    else:
        return data_array_dataset_repr(container)

def to_html(container):
    from IPython.display import HTML, display
    display(HTML(make_html(container)))
