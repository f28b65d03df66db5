""" lulua-render """

from . import fastyaml
from .core import cli

def render (ctx, kind, layout, keyboard=None, name='layout.yaml'):
    """ Contents of the rendered file. layout is data or the name of a packaged one """
    from lulua import render
    if not isinstance (layout, str):
        with open (ctx.path (name), 'w', encoding='utf-8') as fd:
            fastyaml.dump (layout, fd, sort_keys=False)
        layout = ctx.path (name)
    argv = ['-l', layout]
    if keyboard is not None:
        with open (ctx.path ('keyboard.yaml'), 'w', encoding='utf-8') as fd:
            fastyaml.dump (keyboard, fd, sort_keys=False)
        argv += ['-k', ctx.path ('keyboard.yaml')]
    r = cli (render.render, argv + [kind, ctx.path ('output')])
    ctx.true (r.ret in (None, 0), 'exit status', r.ret)
    with open (ctx.path ('output'), 'rb') as fd:
        return fd.read ()
