"""A stand-in for tabulate that records the table."""
import matplotlib
def tabulate(table, headers=(), **k):
    matplotlib.emit(ev="table", headers=[str(h) for h in headers], rows=[list(r) for r in table])
    return "table"
