"""H01: an answer depends on the question and the object's present contents, never on the questions asked before."""

from mc import memory

ID = "H01"
RULE = (
    "every sequence of questions (same shapes and same ends, other contents) and edits, up to the depth, put to one object of "
    "every kind (models, nodes, effects, passbands, interpolators, tables, footprints, files, functions, whole simulations), its last answer against the answer of a "
    "fresh object that saw the edits only; a state is (object, edits, question)"
)
ASSUMPTIONS = ["a fresh object's answers are judged by the other properties"]

SECTIONS = [
    ("analytic", memory.sec_models(memory.analytic_models), 8),
    ("templates", memory.sec_models(memory.template_models), 4),
    ("physical", memory.sec_models(memory.physical_models), 8),
    ("bands", memory.sec_models(memory.band_models), 4),
    ("multi", memory.sec_models(memory.multi_models), 4),
    ("supernovae", memory.sec_models(memory.supernovae), 8),
    ("agn", memory.sec_models(memory.agn_models), 2),
    ("passbands", memory.sec_passbands, 4),
    ("tables", memory.sec_tables, 4),
    ("errors", memory.sec_errors, 8),
    ("footprints", memory.sec_footprints, 2),
    ("interpolators", memory.sec_interpolators, 4),
    ("nodes", memory.sec_nodes, 8),
    ("functions", memory.sec_functions, 4),
    ("files", memory.sec_files, 8),
    ("simulate", memory.sec_simulate, 8),
]
