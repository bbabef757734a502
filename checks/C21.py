"""C21 refraction tables: TLC-enumerated lives replayed; every probe compared to the direct computation."""
from vlib.core import *

CFG = "CONSTANT Depth = {}\nCHECK_DEADLOCK FALSE\n"


def body(c):
    c.model("LutLife", "SPECIFICATION Spec\nINVARIANTS JustBuilt Stale\n" + CFG.format(6 if c.thorough else 5))
    lives = []
    for d in (2, 3, 4, 5) if c.thorough else (2, 3, 4):
        lives += c.generate("GenLut", "SPECIFICATION GenSpec\nINVARIANT Emit\n" + CFG.format(d))
    text = []
    for i in range(3 if c.thorough else 2):
        for n, a in enumerate(lives):
            text.append(f"life {1 + n + 1000 * i + 7919 * c.seed} {(n + i) % 4} {len(a)} {' '.join(a)}\n")
    for n in range(1500 if c.thorough else 600):
        text.append(f"life {50000 + n + 7919 * c.seed} {n % 4} 2 build probe\n")
    axis = lambda rec, why: "axis-cell" if why.replace("\\", "").replace('"', "") == "{axis-cell}" else None
    c.check_records("TraceLut", build_harness("h_lut"), text, ident=axis)


main("C21", body, assumptions=["one glass layer; camera on the air side, table volume below the glass",
                               "interpolation error up to 0.25 micrometres on the sensor (direct computation stops within one micrometre in the volume)"])
