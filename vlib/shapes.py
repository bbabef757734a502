"""Image shapes shared by the segmentation checks."""


def htree(depth):
    """A spot whose growth front has 2^depth pixels: branching arms, grey falling with distance from the root."""
    n = 2 ** (depth // 2 + 2) + 3
    lum, front = {}, [(n // 2, n // 2, 0)]
    lum[(n // 2, n // 2)] = 0
    ln = n // 4
    horiz = True
    for lv in range(depth):
        new = []
        for x, y, d in front:
            for s in (-1, 1):
                cx, cy, cd = x, y, d
                for _ in range(max(1, ln)):
                    cx, cy, cd = (cx + s, cy, cd + 1) if horiz else (cx, cy + s, cd + 1)
                    lum.setdefault((cx, cy), cd)
                new.append((cx, cy, cd))
        front = new
        if not horiz:
            ln //= 2
        horiz = not horiz
    return n, lum
