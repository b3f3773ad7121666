"""Lines of IPC-D-356 netlists, shared by C18 and C19."""
R = 'gerber.ipc356.'


def put(S, fields):
    """A line with the given texts from the given columns (counted from 1)."""
    line = ''
    for col, text in sorted(fields.items()):
        line = S.concat(line, ' ' * (col - 1 - len(line)), text)
    return line


def symbol(S, n, k):
    return S.text(n, k, alphabet='ABZ019_+./')
