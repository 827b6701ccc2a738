"""Reader for VTK rectilinear grid files (raw appended data), written from the file format description."""
import re, struct
import xml.etree.ElementTree as ET
import numpy as np

TYPES = {"Float32": "f4", "Float64": "f8", "Int32": "i4", "Int64": "i8", "UInt8": "u1", "Int8": "i1", "UInt32": "u4", "UInt64": "u8", "Int16": "i2", "UInt16": "u2"}


def read(path):
    raw = open(path, "rb").read()
    m = re.search(rb"<AppendedData[^>]*encoding=\"raw\"[^>]*>\s*_", raw)
    head, data = raw, b""
    if m:
        head = raw[:m.start()] + b"</VTKFile>"
        data = raw[m.end():]
    root = ET.fromstring(head)
    order = ">" if root.get("byte_order") == "BigEndian" else "<"
    hdr = np.dtype(order + TYPES[root.get("header_type", "UInt32")])
    grid = root.find("RectilinearGrid")
    piece = grid.find("Piece")
    ext = [int(v) for v in piece.get("Extent").split()]
    if [int(v) for v in grid.get("WholeExtent").split()] != ext:
        raise ValueError("extent of the piece is not the whole")
    nodes = [ext[2 * a + 1] - ext[2 * a] + 1 for a in range(3)]

    def array(el):
        t = np.dtype(order + TYPES[el.get("type")])
        if el.get("format") == "appended":
            off = int(el.get("offset"))
            n = int(np.frombuffer(data, hdr, 1, off)[0])
            return np.frombuffer(data, t, n // t.itemsize, off + hdr.itemsize)
        return np.array(el.text.split(), dtype=t)
    coords = [array(el) for el in piece.find("Coordinates").findall("DataArray")]
    cells = {}
    cd = piece.find("CellData")
    for el in (cd.findall("DataArray") if cd is not None else []):
        a = array(el)
        if a.size != np.prod([n - 1 for n in nodes]):
            raise ValueError("cell array %s has %d values" % (el.get("Name"), a.size))
        cells[el.get("Name")] = a.reshape([n - 1 for n in nodes], order="F")     # x varies fastest
    return {"nodes": nodes, "x": coords, "cells": cells}
