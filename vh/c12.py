"""C12: digests identify configurations."""
from vh import ident


def run(ctx):
    ident.run(ctx, ('dig', 'res'))
