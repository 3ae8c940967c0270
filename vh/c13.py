"""C13: results and derived values follow every assignment."""
from vh import ident


def run(ctx):
    ident.run(ctx, ('res', 'props'))
