"""C22: the WebAssembly target computes the same behaviour (all the C machine's program families under the ILP32 model)."""
import harness as H
from gens import *
import creplay
import c01, c02, c03, c04, c05, c06, c07, c09

def families(r):
    w = 'wasm'
    return [
        (18, lambda: r.choice(c01.programs(r, w, True))),
        (10, lambda: c01.expr_prog(r, w, 25, 4)),
        (6, lambda: c02.int_prog(r, w, 12)), (4, lambda: c02.addr_prog(r, w, 10)),
        (22, lambda: c03.nest_prog(r, w, 4, 5, r.choice([2, 3, 3, 4]), goto=False)),
        (10, lambda: c03.switch_prog(r, w, r.choice(['i', 'u', 'll', 'ull', 'c', 'us', 'l']), 3)),
        (10, lambda: c03.expr_prog(r, w, 30)),
        (14, lambda: c06.prog(r, w, 4)), (10, lambda: c07.prog(r, w, 24)),
        (6, lambda: c05.bf_prog(r, w, 2)), (4, lambda: c05.layout_prog(r, w, 3)),
        (8, lambda: c09.expr_prog(r, w, 20)),
    ]

def main(chk):
    b = H.build()
    chk.log('built')
    r = chk.rng
    m = 1 if chk.quick() else 12
    for rnd in range(m):
        ps = []
        base = c01.programs(r, 'wasm', True)
        for n, f in families(r)[1:]: ps += [f() for _ in range(n)]
        ps += r.sample(base, min(18, len(base)))
        creplay.replay(chk, ps, creplay.targets(b, ['wasm']), 'wasm')
        chk.log(f'whole programs {rnd + 1}/{m}')
        ps = [c04.prog(r, 'wasm') for _ in range(50)] + [c04.recur_prog(r, 'wasm') for _ in range(6)]
        creplay.replay(chk, ps, creplay.targets(b, ['wasm', 'wcc+wcc']), 'wasm calls')
        chk.log(f'calls and separate compilation {rnd + 1}/{m}')
        if chk.viol: break
