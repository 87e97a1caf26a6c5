"""python3 -m sa.dump <qualified name> : print the path table of one function."""
import sys
from . import prog, engine, show
p = prog.Program(sys.argv[2] if len(sys.argv) > 2 else "/repo")
e = engine.Engine(p)
rows = e.table(sys.argv[1])
print(len(rows), "rows", e.steps)
for r in rows:
    print(show.row(r))
