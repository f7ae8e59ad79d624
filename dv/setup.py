"""setup_cmd: makes sure the AST exporter can be found (it is committed prebuilt; otherwise built into build/)."""
from . import frontend
print(frontend.exporter())
