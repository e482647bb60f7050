"""Generates random C++ programs over reflected structs (written under .build, seeded by VERIF_SEED)."""
import os, random
from . import build as B

LEAVES = ["bool", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "double", "float", "std::string", "eosio::name", "eosio::checksum256",
          "eosio::varuint32", "eosio::bytes", "eosio::time_point_sec"]
NAMES = ["a", "b", "c", "id", "owner", "value", "base_id", "f", "p", "x1", "x2", "src", "dst", "field", "kind", "memo", "data", "items", "name", "key", "m0", "m1", "m2", "first", "second", "obj", "stream", "t", "u", "m", "na", "x", "item", "dat", "names", "owner_id", "values", "valu", "Value", "_value", "value_"]


def write(name, text):
    d = os.path.join(B.BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    if not os.path.exists(p) or open(p).read() != text:
        with open(p + ".tmp", "w") as f: f.write(text)
        os.replace(p + ".tmp", p)
    return p


class Struct:
    def __init__(self, name, members, base=None): self.name, self.members, self.base = name, members, base
    def all(self): return (self.base.all() if self.base else []) + self.members
    def cpp(self, order=None):
        """declared in random order, reflected in member order"""
        decl = self.members if order is None else order
        s = "struct %s%s { %s };\n" % (self.name, " : " + self.base.name if self.base else "", " ".join("%s %s{};" % (t, n) for n, t in decl))
        l = [self.name] + (["base " + self.base.name] if self.base else []) + [n for n, _ in self.members]
        s += "EOSIO_REFLECT(%s)\n" % ", ".join(l)
        s += "inline void fill(%s& o) { %s }\n" % (self.name, " ".join("fill(o.%s);" % n for n, _ in self.all()))
        s += "inline bool same(const %s& x, const %s& y) { return true%s; }\n" % (self.name, self.name, "".join(" && same(x.%s, y.%s)" % (n, n) for n, _ in self.all()))
        s += "inline void wire(std::string& w, const %s& o) { %s }\n" % (self.name, " ".join("wire(w, o.%s);" % n for n, _ in self.all()))
        return s


def leaf(r):
    t = r.choice(LEAVES)
    k = r.random()
    if k < .12 and t != "bool": return "std::vector<%s>" % t
    if k < .24: return "std::optional<%s>" % t
    if k < .28 and t != "bool": return "std::optional<std::vector<%s>>" % t if r.random() < .5 else "std::vector<std::optional<%s>>" % t
    return t
