#!/usr/bin/env python3
"""Writes harness/src/gen/shapes.rs: every struct shape C24 explores (deterministic)."""
import os
# kind -> type; the first group has a fixed length
FIX = ["u8", "u16", "i32", "bool", "()", "FixedBytes<3>", "RangedInt<u8, 10, 20>"]
VAR = ["Dynamic<u8, Bytes>", "Option<u16>", "N", "Z", "Bytes", "Sequence<u16>", "Nullable<u8>", "P2", "U8"]
ALL = FIX + VAR
THREE = ["u8", "u16", "Dynamic<u8, Bytes>", "Option<u16>", "Bytes"]
NAMES = {1: [["x"], ["buf"], ["p"], ["f"], ["r#type"], ["len"], ["unknown"]],
         2: [["b", "a"], ["p", "buf"], ["r#type", "f"], ["zz", "Aa"], ["pos1", "pos0"], ["write_to", "parse"], ["_b", "_a"]],
         3: [["c", "a", "b"], ["buf", "p", "f"], ["z9", "z10", "z1"], ["r#fn", "r#type", "r#in"], ["pos2", "pos0", "pos1"]]}
out = ["// @generated by tools/gen_shapes.py"]
n = 0
calls = []
def struct(tys, named, group, fixed=False, names=None):
    global n
    n += 1
    name = f"S{n}"
    k = len(tys)
    nm = None
    if named:
        nm = names or (NAMES[k][n % len(NAMES[k])] if k in NAMES else [f"f{(7 * i + 3) % 29}x{i}" if n % 2 else f"{'zyxwvutsrqponmlkjihgfedcba'[i % 26]}{i}" for i in range(k)])
        body = "{ " + ", ".join(f"{a}: {t}" for a, t in zip(nm, tys)) + " }"
    else:
        body = "(" + ", ".join(f"a{i}: {t}" for i, t in enumerate(tys)) + ")"
    mac = ("fstruct" if fixed else "rstruct") if named else ("ftuple" if fixed else "rtuple")
    if n % 3:
        # declared as people do: the derive macros see the plain types
        last = "FixedLength" if fixed else "Estimable"
        vis = ["pub ", "", "pub(crate) "][n % 7 % 3]
        fs = ", ".join(vis + x for x in ([f"{a}: {t}" for a, t in zip(nm, tys)] if named else tys))
        out.append(f"#[derive(tedium::Encode, tedium::Decode, tedium::{last}, Clone, Debug)] pub struct {name}" + (" { " + fs + " }" if named else f"({fs});"))
        mac, name2 = mac.replace("f", "r", 1), "@refl " + name
    else:
        # declared by another macro: the derive macros see the types in invisible groups
        name2 = name
    out.append(f"{mac}!({name2} {body});")
    show = ("named " if named else "tuple ") + name + " " + body
    calls.append((group, "fixed" if fixed else "derived", name, show))

for named in (False, True):
    struct([], named, "0")
    for a in ALL: struct([a], named, "1")
    for a in ALL:
        for b in ALL: struct([a, b], named, "2")
    for a in THREE:
        for b in THREE:
            for c in THREE: struct([a, b, c], named, "3")
    seed = 12345
    for k in list(range(4, 13)) + [16, 17, 24, 33]:
        struct(["u8"] * k, named, "many")
        for _ in range(2):
            tys = []
            for i in range(k):
                seed = (seed * 1103515245 + 12345) & 0x7fffffff
                tys.append([x for x in ALL if x not in ("Bytes", "Sequence<u16>", "Nullable<u8>") or i == k - 1][(seed >> 8) % (len(ALL) - (0 if i == k - 1 else 3))])
            struct(tys, named, "many")
    # derived FixedLength
    struct([], named, "fixed", True)
    for a in FIX: struct([a], named, "fixed", True)
    for a in FIX:
        for b in FIX: struct([a, b], named, "fixed", True)
    for a in FIX[:3]:
        for b in FIX[:3]:
            for c in FIX[:3]: struct([a, b, c], named, "fixed", True)
    for k in (4, 5, 7, 8, 12): struct([FIX[(i * 3 + k) % len(FIX)] for i in range(k)], named, "fixed", True)
# every remaining special name, alone and in front
for nm in ["self_", "buf", "p", "U", "P", "some", "none", "KNOWN", "LEN", "usize", "n", "r#struct", "r#match", "tedium", "Self_", "a1", "_0"]:
    struct(["u8", "Dynamic<u8, Bytes>", "u16"], True, "names", names=[nm, "zz1", "aa1"])
    struct(["Option<u16>", "u8"], True, "names", names=["zz1", nm])
out.append("pub fn all(v: &mut Vec<Section>, tier: Tier) {")
for g, kind, name, show in calls:
    out.append(f'    {kind}::<{name}>(v, tier, {("%d" % int(g)) if g.isdigit() else 9}, "{show}");')
out.append("}")
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "src", "gen")
os.makedirs(d, exist_ok=True)
open(os.path.join(d, "shapes.rs"), "w").write("\n".join(out) + "\n")
print(n, "shapes")
