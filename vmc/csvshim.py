"""Keeps pandas' C parser usable under this interpreter.

Under PyPy the deallocation of pandas.TextReader aborts the process.  The real
parser is kept; its objects are never released, and the two inputs for which its
constructor raises (and would release the object) are recognised beforehand and
answered with the exception the constructor raises.  tools/test_csvshim.py
compares that with the unpatched parser, one process per text.
"""
import io

import pandas  # noqa: F401
import pandas._libs.parsers as _parsers
import pandas.io.parsers.c_parser_wrapper as _wrapper
from pandas.errors import EmptyDataError, ParserError

_KEEP = []


def refused(text):
    """None, or the exception raised by the constructor for this text."""
    quoted, field_start, row, seen, q_row = False, True, 0, False, 0
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if quoted:
            if c == '"':
                if i + 1 < n and text[i + 1] == '"':
                    i += 1
                else:
                    quoted = False
        elif c == '"' and field_start:
            quoted, field_start, seen, q_row = True, False, True, row
        elif c == "\n" or c == "\r":
            field_start = True
            row += 1
        elif c == ",":
            field_start, seen = True, True
        else:
            field_start = False
            seen = seen or not c.isspace()
        i += 1
    if not seen:
        return EmptyDataError("No columns to parse from file")
    if quoted:
        return ParserError(f"Error tokenizing data. C error: EOF inside string starting at row {q_row}")
    return None


class _Module:
    def __getattr__(self, name):
        return getattr(_parsers, name)

    def TextReader(self, source, *args, **kwargs):
        text = source.read()
        if isinstance(text, bytes):
            text = text.decode()
        e = refused(text)
        if e is not None:
            raise e
        reader = _parsers.TextReader(io.StringIO(text), *args, **kwargs)
        _KEEP.append(reader)
        return reader


def install():
    if not isinstance(_wrapper.parsers, _Module):
        _wrapper.parsers = _Module()


install()
