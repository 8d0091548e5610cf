"""Reading what an execution leaves behind."""
import ast
import csv
import json
import os
import re

from harness.core import require


def folder(sim, root='output'):
    """The output folder of a simulation, found by its identifier."""
    path = os.path.join(root, sim.execution_id)
    require(os.path.isdir(path), 'execution %s has no folder of its own among %r', sim.execution_id,
            sorted(os.listdir(root)) if os.path.isdir(root) else None)
    return path


def the_file(path, prefix, suffix):
    found = [f for f in os.listdir(path) if f.startswith(prefix) and f.endswith(suffix)]
    require(len(found) == 1, 'expected exactly one file %s*%s in the output folder, found %r', prefix, suffix,
            sorted(os.listdir(path)))
    return os.path.join(path, found[0])


def read_json(path):
    require(os.path.isfile(path), 'there is no file %s', path)
    with open(path, encoding='utf-8') as f:
        return json.load(f)


def read_csv(path):
    """rows as dictionaries"""
    require(os.path.isfile(path), 'there is no file %s', path)
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    require(rows, '%s is empty', path)
    header = rows[0]
    for row in rows[1:]:
        require(len(row) == len(header), '%s has a row with %d instead of %d cells: %r', os.path.basename(path), len(row),
                len(header), row)
    return header, [dict(zip(header, row)) for row in rows[1:]]


_NUMPY = re.compile(r'np\.\w+\(([^()]*)\)')


def parse_cell(text):
    """number, list or dictionary written to a cell"""
    text = _NUMPY.sub(r'\1', text)
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return text


def same_value(a, b, tol=0.0):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        a, b = {str(k): v for k, v in a.items()}, {str(k): v for k, v in b.items()}
        return a.keys() == b.keys() and all(same_value(a[k], b[k], tol) for k in a)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    return a == b
