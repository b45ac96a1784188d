"""C26: opacities and integrated amounts are sums of their parts."""
from ._rte import *

EXPLANATION = ('The whole simulation is interpreted abstractly (number of levels, contents, frequencies, angles symbolic; cloud and clear runs, both viewing directions). '
               'Layer and total opacities, water-vapour/refractivity integrals and cloud integrals are compared by value numbering with sums over every layer '
               '(sa/spec/rte.py: expint, cloud_path), and tbtotal with the transfer rule applied to the sum of the four reported layer opacities.')


def parts(cfg, outs):
    return (lambda s: sim(s, cfg, outs)), (lambda s: ref(s, cfg, outs))


def total(cfg):
    from .c10 import code, rule
    return code(cfg), rule(cfg, False)


def run(ctx):
    ctx.rule('opacity', 'reported layer opacity = mean absorption of the layer times path length; reported total = sum over all layers')
    ctx.rule('amount', 'integrated vapour, refractivity, liquid, ice = sum over all layers (cloud: layers between base and top)')
    ctx.rule('total', 'brightness temperature is computed from wet + dry + liquid + ice layer opacity')
    ctx.assumptions.append('temperatures, pressures, densities and absorption coefficients of physical sign; strictly monotone heights')
    first = dict(nf=2, nang=2, ncld=2) if ctx.thorough else dict(nf=1, nang=2, ncld=1)
    small = dict(nl=4, nf=2, nang=2, ncld=2)
    s0 = Session()
    w = s0.where(TB, 'TbCloudRTE', 'execute')
    opac = TABLE[4:] + LAYER
    for name, cfg in (('clear ground', {}), ('cloudy ground', dict(cloudy=1)), ('cloudy satellite', dict(cloudy=1, sat=1, es=False)), ('cloudy refracted', dict(cloudy=1, ray=1))):
        if name == 'clear ground' or name == 'cloudy refracted' or ctx.thorough or name == 'cloudy ground':
            ctx.agree('opacity', name, *parts(cfg, opac if cfg.get('cloudy') else tuple(o for o in opac if 'liq' not in o and 'ice' not in o)), w, sizes=small, first=first, dead='violated')
            ctx.agree('amount', name, *parts(cfg, PATH if cfg.get('cloudy') else PATH[:3]), w, sizes=small, first=first, dead='violated')
        if cfg.get('cloudy'):
            ctx.agree('total', name, *total(cfg), w, sizes=small, first=dict(first, nf=1, nang=1), dead='violated')
    if ctx.thorough:
        for nl in (2, 3, 5):
            z = dict(nl=nl, nf=1, nang=1, ncld=3)
            ctx.agree('amount', f'cloudy ground {nl} levels 3 clouds', *parts(dict(cloudy=1), PATH), w, sizes=z, first=z, dead='violated')
