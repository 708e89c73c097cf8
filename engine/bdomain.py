"""Domain of the binary (de)serializer: reading and writing are recorded as sequences of primitive and nested operations."""
from interp import C, C0, C1, Throw, isc, is_kept, is_local
from jdomain import JsonDomain

NSB = "ReflectiveRapidJSON::BinaryReflector::"
READER, WRITER = "CppUtilities::BinaryReader::", "CppUtilities::BinaryWriter::"
PRIM = {"char": "Char", "unsigned char": "Byte", "bool": "Bool", "short": "Int16BE", "unsigned short": "UInt16BE", "int": "Int32BE",
        "unsigned int": "UInt32BE", "long": "Int64BE", "unsigned long": "UInt64BE", "float": "Float32BE", "double": "Float64BE",
        "std::basic_string<char, std::char_traits<char>, std::allocator<char>>": "LengthPrefixedString"}
RANGE = {"Byte": (0, 255), "Char": (-128, 127), "Bool": (0, 1), "VariableLengthUIntBE": (0, (1 << 56) - 1), "UInt16BE": (0, 65535), "UInt24BE": (0, (1 << 24) - 1),
         "UInt32BE": (0, (1 << 32) - 1), "UInt64BE": (0, (1 << 64) - 1), "VariableLengthUIntLE": (0, (1 << 56) - 1), "UInt32LE": (0, (1 << 32) - 1),
         "UInt16LE": (0, 65535), "UInt64LE": (0, (1 << 64) - 1)}
CONV = "CppUtilities::ConversionException"


class BinDomain(JsonDomain):
    def __init__(self, ir, root=None, rootval=None, inline=()):
        JsonDomain.__init__(self, ir, None, None)
        self.root = root  # function which is inlined even though it matches a nested operation
        self.rootval = rootval  # location of the object being read or written
        self.inline = inline

    def rng(self, i, st, t):
        if t[0] == "rd":
            return RANGE.get(t[2])
        return JsonDomain.rng(self, i, st, t)

    def nested(self, i, fn, key):
        """Returns "r"/"w" if the function reads/writes a value of an arbitrary type."""
        if key in (NSB + "BinaryDeserializer::read", READER + "read"):
            return "r"
        if key in (NSB + "BinarySerializer::write", WRITER + "write"):
            return "w"
        if key == NSB + "readCustomType":
            return "rc"
        if key == NSB + "writeCustomType":
            return "wc"
        return None

    def intercept(self, i, fn, key, args, this, st, frame, e):
        ir = i.ir
        where = ir.where(frame.fn, e.get("l") or frame.line)
        if key.startswith(READER + "read") and fn["n"] != "read" and len(fn["n"]) > 4:
            if fn["params"]:
                i.broken(frame, "unknown function for reading")
            sym = ("rd", (e["#"],) + tuple(frame.id), fn["n"][4:])
            return [(sym, st.ev("rd", fn["n"][4:], sym, None, where))]
        if key.startswith(WRITER + "write") and fn["n"] != "write" and len(fn["n"]) > 5:
            v = args[0]
            if v[0] == "p" and ir.ty(fn["params"][0]["t"])["c"] in ("lref", "rref"):
                v = i.read(st, v[1])
            return [(("void",), st.ev("wr", fn["n"][5:], v, None, where))]
        n = self.nested(i, fn, key)
        if n is None:
            return None
        k = 1 if n in ("rc", "wc") else 0
        t = ir.uq(fn["params"][k]["t"])
        byref = ir.ty(fn["params"][k]["t"])["c"] in ("lref", "rref")
        loc = args[k][1] if byref and args[k][0] == "p" else None
        val = i.read(st, loc) if loc is not None else args[k]
        ver = args[k + 1] if len(args) > k + 1 else None
        if ver is not None and ver[0] == "p":
            ver = i.read(st, ver[1])
        own = loc == self.rootval or (loc is None and val == ("val", self.rootval)) or (val == ("val", self.rootval))
        if own and "body" in fn and fn["id"] not in frame.stack and not key.startswith("CppUtilities::"):
            return None  # delegates to another function for the same object
        prim = PRIM.get(t)
        if n in ("r", "rc") and prim is None and is_kept(i, loc):
            st = st.alarm("kept", "reads into an object which still has the contents of a previous call", where, ir.sig(frame.fn))
        if n in ("w", "wc"):
            return [(("void",), st.ev("wr", prim or t, val, ver if prim is None else None, where))]
        sym = ("rd", (e["#"],) + tuple(frame.id), prim or t)
        st = st.ev("rd", prim or t, sym, ver if prim is None else None, where, loc, i.read(st, loc) if loc is not None else None)
        if loc is not None:
            st = i.write(st, loc, sym, quiet=prim is None)
        if len(args) > k + 1 or n == "rc":
            return [(("readver", sym), st)]
        return [(("void",), st)]
