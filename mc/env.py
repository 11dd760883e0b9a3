"""The sandbox pairs Python 3.12 with attrs 20.3.0, whose closure-cell patching predates 3.11: without
it every argument-less `super()` in a slotted class raises TypeError, so `to_dict()` and the whole
result store could not run at all.  This shim does what attrs does on the Python versions it supports;
it touches attrs only, in this process only, before dp is imported."""
import warnings
warnings.simplefilter('ignore')
import attr._make  # noqa: E402


def _set_closure_cell(cell, value):
    cell.cell_contents = value


attr._make.set_closure_cell = _set_closure_cell
