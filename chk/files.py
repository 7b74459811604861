"""Assembles files from instances."""
HEADER = ("ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION(('ViewDefinition [CoordinationView]'),'2;1');\n"
          "FILE_NAME('f.ifc','2021-03-04T05:06:07',('a'),('o'),'p','s','z');\nFILE_SCHEMA(('IFC4'));\nENDSEC;\n")
FOOTER = "ENDSEC;\nEND-ISO-10303-21;\n"


def opaque(n):
    return "IFCOPAQUE('o%d',(%d,.X.))" % (n, n)


def file(insts, header=HEADER, footer=FOOTER):
    """insts: [(id, text)]"""
    return header + "DATA;\n" + "".join("#%s=%s;\n" % (i, t) for i, t in insts) + footer


def chunks(seq, n):
    for i in range(0, len(seq), n):
        yield seq[i:i + n]
