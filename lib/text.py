"""The texts of the line classes."""
LETTERS = "ghjkmnpqrs"


def word(prefix, n):
    return prefix + "".join(LETTERS[int(c)] for c in "%05d" % n)


def line(cls, tag):
    """A line of a class; tag is volatile (a number) and identifies the line."""
    return "%s %s %s %s" % (tag, word("zu", cls), word("zo", cls), word("zy", cls))


def ended(cls, tag, k):
    """The same with a tail, which is a part of the line."""
    return line(cls, tag) + ("", " ", "", "   ")[(k + cls) % 4]
