#!/usr/bin/env python3
"""Derive spec/dialect.json (wire layout of every message) from mavlink_utils/HC_dialect.xml alone.

Independent of the generated HC_dialect.py and of protocol_meta: follows the MAVLink serialisation guide
(fields ordered by element size, stable; payload length includes arrays; CRC_EXTRA over names and types).
`scalar` is the sum of the element sizes ignoring array lengths (see known finding C03).
Run once; the result is committed.
"""
import json, sys
import xml.etree.ElementTree as ET
SIZE = {"uint64_t": 8, "int64_t": 8, "double": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2, "int16_t": 2,
        "uint8_t": 1, "int8_t": 1, "char": 1}


def crc(data, c=0xFFFF):
    for b in data:
        t = b ^ (c & 0xFF)
        t = (t ^ (t << 4)) & 0xFF
        c = ((c >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)) & 0xFFFF
    return c


def main(xml, out):
    root = ET.parse(xml).getroot()
    msgs = []
    for m in root.iter("message"):
        fields = []
        for f in m.findall("field"):
            t = f.get("type")
            if t == "uint8_t_mavlink_version":
                t = "uint8_t"
            arr = 0
            if "[" in t:
                t, a = t[:-1].split("[")
                arr = int(a)
            fields.append((f.get("name"), t, arr, len(fields) + 1))
        order = sorted(range(len(fields)), key=lambda i: -SIZE[fields[i][1]])
        wire = [fields[i] for i in order]
        name = m.get("name")
        c = crc((name + " ").encode())
        off, lay = 0, []
        for n, t, a, d in wire:
            c = crc((t + " " + n + " ").encode(), c)
            if a:
                c = crc(bytes([a]), c)
            size = SIZE[t] * max(a, 1)
            lay.append({"n": n, "t": t, "a": a, "off": off, "size": size, "d": d})
            off += size
        msgs.append({"id": int(m.get("id")), "name": name, "len": off, "scalar": sum(SIZE[t] for _, t, _, _ in wire),
                     "crc": (c & 0xFF) ^ (c >> 8), "fields": lay})
    msgs.sort(key=lambda x: x["id"])
    with open(out, "w") as fh:
        fh.write("[\n" + ",\n".join(json.dumps(x, separators=(",", ":")) for x in msgs) + "\n]\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
